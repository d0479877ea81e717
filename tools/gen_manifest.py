#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
tech = {
 "C01": "property-based round-trip testing (exhaustive over small command spaces, random beyond), shrinking",
 "C02": "property-based testing of encoder output against an independent waveform model",
 "C03": "property-based testing: generated in-tolerance waveforms against the published frame tables",
 "C04": "history fuzzing with an explanation oracle (every report must be spelled by the preceding pulses)",
 "C05": "stateful history fuzzing followed by a probe frame; fresh-receiver oracle",
 "C06": "fuzzing for panics with overflow checks and debug assertions on",
 "C07": "differential property-based testing of all front ends on generated histories",
 "C08": "differential property-based testing across clock types",
 "C09": "differential property-based testing: multi receiver against separate receivers",
 "C10": "property-based testing on mixed-protocol streams against a model of the expected reports",
 "C11": "model-based testing of frame/repeat/damage scripts",
 "C12": "property-based boundary testing of pulse tolerances against the tolerance table",
 "C13": "model-based testing of senders tick by tick against a playback model",
 "C14": "property-based end-to-end loopback testing, sender to receiver",
 "C15": "exhaustive and random testing against published bit layouts",
 "C16": "exhaustive and random testing of generic command views against field ranges",
 "C17": "exhaustive and random testing against golden tables of the remotes",
 "C18": "model-based testing of decoder scripts: contract invariants and fresh-decoder differential",
 "C19": "fault-injection property-based testing: run with failed pin reads against run without them",
 "C20": "property-based testing around counter wrap (2^32 real polls) and backward timestamps",
 "C21": "exhaustive feature matrix build plus differential fuzzing of feature sets against the default one",
 "C22": "property-based testing of random pulse tables against exact rational windows",
 "C23": "property-based testing of the tool on generated VCD files against a model of its output",
 "C24": "differential property-based testing of interleaved and threaded instances against each one run alone",
 "C25": "model-based testing of decoder states and errors on generated lines and histories",
 "C26": "property-based testing with the harness's own implementations of the public traits",
}
guided = ["C04", "C05", "C11", "C18", "C25"]
for k in tech:
    if k != "C21":
        tech[k] += "; coverage-guided fuzzing of the same laws" + ("" if k in guided else " (thorough tier)")
note = ("Search, not proof: holds on every generated case (counts and samples in the evidence file). "
        "Oracle independent of the code under test; crate compiled for x86_64 with overflow checks. ")
extra = {
 "C01": "All commands of the protocols with 16 free bits or fewer are enumerated; rates are a fixed list of compile-time constants.",
 "C20": "The polled wrap is reached by really polling 2^32 times for every protocol.",
 "C21": "All 960 distinct feature sets are compiled (no-std sysroot); behaviour is compared for a sample of sets.",
}
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "checks": [
  {
   "property": p["id"],
   "quick_cmd": f"./check.sh {p['id']}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
   "evidence_file": f"evidence/{p['id']}.json",
   "technique": tech[p["id"]],
   "level": "exploration",
   "level_note": note + extra.get(p["id"], ""),
  } for p in props],
 "not_applicable": [],
 "notes": "No hooks in /repo: everything is reached through the public API. Defects found are repaired by fix: commits, see known-findings.txt.",
}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
