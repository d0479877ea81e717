/* Callbacks of the sanitizer coverage instrumentation: what the current thread's case has touched. */
#include <stdint.h>
#include <stddef.h>

static uint32_t n_guards;
/* Per thread, set by cov_enter. */
static __thread uint8_t *hits;        /* per guard: count, saturating */
static __thread uint32_t *touched;    /* guards with hits != 0 */
static __thread uint32_t n_touched;
static __thread uint8_t *dist;        /* per comparison site: fewest bits the operands differed in */
static __thread uint32_t *sites;      /* sites touched */
static __thread uint32_t n_sites;

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a) return;
    for (; a < b; a++) *a = ++n_guards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (!hits) return;
    uint32_t i = *g;
    uint8_t h = hits[i];
    if (!h) touched[n_touched++] = i;
    if (h != 255) hits[i] = h + 1;
}
static inline void cmp(uint64_t pc, uint64_t x) {
    if (!hits || !x) return;
    uint32_t s = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> 48);
    uint8_t d = __builtin_popcountll(x);
    if (!dist[s]) sites[n_sites++] = s;
    else if (dist[s] <= d) return;
    dist[s] = d;
}
#define PC ((uint64_t)__builtin_return_address(0))
#define CMP(n, t) \
    void __sanitizer_cov_trace_cmp##n(t a, t b) { cmp(PC, (uint64_t)(t)(a ^ b)); } \
    void __sanitizer_cov_trace_const_cmp##n(t a, t b) { cmp(PC, (uint64_t)(t)(a ^ b)); }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { (void)a; (void)b; }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { (void)a; (void)b; }
CMP(2, uint16_t)
CMP(4, uint32_t)
CMP(8, uint64_t)
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) {
    if (!hits || c[1] <= 8) return;
    uint64_t pc = PC;
    for (uint64_t i = 0; i < c[0] && i < 16; i++) cmp(pc + i, v ^ c[2 + i]);
}

uint32_t cov_guards(void) { return n_guards; }
void cov_enter(uint8_t *h, uint32_t *t, uint8_t *d, uint32_t *s) {
    touched = t; n_touched = 0; dist = d; sites = s; n_sites = 0; hits = h;
}
void cov_leave(uint32_t *nt, uint32_t *ns) {
    hits = NULL; *nt = n_touched; *ns = n_sites;
}
