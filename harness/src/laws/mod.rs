pub mod codec;
pub mod decode;
pub mod fronts;
pub mod misc;
pub mod multi;
pub mod send;
pub mod ext;
pub mod long;
pub mod indep;
pub mod states;
pub mod own;

use crate::dut::Res;
use crate::engine::Law;
use crate::spec::Dec;

pub fn all() -> Vec<Law> {
    let mut v = vec![];
    v.extend(codec::laws());
    v.extend(decode::laws());
    v.extend(fronts::laws());
    v.extend(multi::laws());
    v.extend(send::laws());
    v.extend(misc::laws());
    v.extend(ext::laws());
    v.extend(long::laws());
    v.extend(indep::laws());
    v.extend(states::laws());
    v.extend(own::laws());
    v
}

pub fn cmds(r: &[Res]) -> Vec<(usize, Dec)> {
    r.iter().enumerate().filter_map(|(i, x)| x.as_ref().ok().and_then(|c| c.map(|c| (i, c)))).collect()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
