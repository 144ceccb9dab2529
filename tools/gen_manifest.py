#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over "
TECH = {
 "C01": "body streams, chunkings and request sets; oracle: executable RFC 6376 canonicalization model and unsplit twin runs",
 "C02": "stopping points after the completion signal; oracle: twin sessions given the whole stream or junk",
 "C03": "body lengths, damage and stream cuts in transit; oracle: reference verifier",
 "C04": "tampering adversary on headers, signatures, bodies and zones; oracle: ghost log of what each key really signed",
 "C05": "signer-transit-verifier worlds with harmless transit faults; oracle: round trip plus independent reference verifier",
 "C06": "DNS faults per lookup; oracle: model of the outcome-to-verdict table",
 "C07": "stalled and slow resolvers in virtual time; oracle: deadline on every session, liveness",
 "C08": "lookup latencies in virtual time; oracle: overlap of lookups and total waiting time",
 "C09": "query histories under faults; oracle: exactly-once and need-only checks over the recorded history",
 "C10": "malformed and mixed signature sets under DNS faults; oracle: one result per selected signature in order",
 "C11": "skewed, jumping and fixed wall clocks; oracle: time model over all clock readings of the session",
 "C12": "skewed, jumping, pre-epoch and far-future signer clocks; oracle: stamp model over clock readings",
 "C13": "policies, weak keys and policy-violating signatures; oracle: policy model",
 "C14": "key records, rotations and revocations; oracle: reference record parser and verifier",
 "C15": "multi-record answers with damaged and foreign records in any order; oracle: reference verifier",
 "C16": "interleaved sessions sharing one process and resolver; oracle: each session replayed alone",
 "C17": "cancellation and completion points of sessions; oracle: lookup guards that observe drops and polls",
 "C18": "hostile headers, records, bodies and configurations with overflow checks on; oracle: no panic, hang, abort or exhaustion",
 "C19": "schedules, spurious polls, latencies and hasher keys over equal inputs; oracle: equal results",
 "C20": "long streams under an accounting allocator; oracle: peak heap independent of the length",
 "C21": "request sets and their order; oracle: each request signed alone",
 "C22": "temporary DNS faults followed by a retry after they stop; oracle: temporary verdicts first, undisturbed verdicts after",
}
NOTE = ("Seeded random search, not exhaustive: what it explored held. The real crate runs unmodified in one process; scheduler, virtual time, wall clock, "
        "OS entropy and DNS are simulated, so that one seed is one exactly repeatable run. Trusts the reference model, RustCrypto primitives, idna and tokio's paused clock. ")
EXTRA = {
 "C04": "Forgery resistance of RSA and Ed25519 themselves is assumed.",
 "C20": "Bounds checked are constants measured against stream lengths up to several MiB.",
 "C13": "Explored for both the default and the pre-rfc8301 build.",
 "C14": "Explored for both the default and the pre-rfc8301 build.",
 "C01": "Explored for both the default and the pre-rfc8301 build.",
 "C05": "Explored for both the default and the pre-rfc8301 build.",
}
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [
  {"property": c, "quick_cmd": f"./run.sh {c} quick", "thorough_cmd": f"./run.sh {c} thorough",
   "technique": T + TECH[c], "level": "exploration", "level_note": (NOTE + EXTRA.get(c, "")).strip()}
  for c in TECH],
 "not_applicable": [
  {"property": "C23", "reason": "Pure functions of one argument (tag lists, Base64, quoted-printable): no schedule, time, I/O or second party for a simulator to control; seeded simulation would only be random testing under another name. Their effects on sessions are covered by C05, C10, C14 and C18."},
  {"property": "C24", "reason": "Pure grammar predicate on a string: no schedule, time, I/O or second party for a simulator to control."},
  {"property": "C25", "reason": "Pure formatting function of a signature and a width: no schedule, time, I/O or second party for a simulator to control; that formatted signatures mean the same and verify is covered by C05."},
 ],
 "notes": "No hooks in /repo: DNS uses the crate's LookupTxt trait, tasks and timers use tokio's paused clock, wall clock and entropy are interposed at the C symbols clock_gettime and getrandom. replay.sh FILE reproduces a reported violation exactly.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
