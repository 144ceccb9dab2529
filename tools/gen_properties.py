#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

BH = "src/message_hash.rs"; CA = "src/canonicalize.rs"; VM = "src/verifier/mod.rs"; VH = "src/verifier/header.rs"
VQ = "src/verifier/query.rs"; VV = "src/verifier/verify.rs"; SM = "src/signer/mod.rs"; SS = "src/signer/sign.rs"
SF = "src/signer/format.rs"; CH = "src/crypto/hash.rs"; RE = "src/record.rs"; SG = "src/signature.rs"; CR = "src/crypto/rsa.rs"

p("C01", "Body hash does not depend on how the body stream is delivered",
  "However a message body is split into chunks (empty chunks, splits inside CRLF pairs, whitespace runs and blank-line runs), every requested body hash equals the hash of the RFC 6376 canonical form (simple or relaxed, cut at the request's length limit) of the concatenated body. This holds for every request sharing the stream, whatever other requests (algorithms, canonicalizations, limits) are registered with it.",
  ["schedules", "inputs", "configurations"],
  "all bodies, all partitions of the stream into chunks, all sets of concurrent hash requests",
  "Unit tests feed a handful of short bodies with one or two fixed splits; the canonicalizers carry state across chunk boundaries, so the split position matters at every byte.",
  [CA, BH, CH],
  [("incremental canonicalizer states", CA), ("shared canonicalized chunk per algorithm", BH), ("counting hasher with limit", CH)],
  [("canonicalizer state", "what was last seen, pending blank lines", CA)], ["body hash results", "signature bh=", "verification status"])

p("C02", "A body consumer that says it is done never needs the rest of the stream",
  "Once signing or verifying reports that no further body input is needed, the results are already determined: stopping there, or feeding any further bytes, gives the same results as delivering the whole body. It does report so no later than the chunk by which every outstanding request has received body content beyond its limit, and at once if no request needs the body at all; it never reports so while a request without limit is outstanding.",
  ["schedules", "inputs", "configurations"],
  "all bodies, chunkings and sets of requests, every stopping point after the signal and arbitrary junk fed afterwards",
  "Tests check the signal at a couple of hand-picked points with one chunking and never compare early stop against full delivery.",
  [BH, CH, VM, SM],
  [("stance computation", BH), ("skipping of finished hashers", BH), ("is_done", CH)],
  [("truncation flag", "input beyond the limit was seen", BH)], ["stance returned for each chunk", "results after stopping"])

p("C03", "Body length limits decide covered, missing and extra content correctly",
  "When a signature declares a covered body length, verification treats only that many canonical bytes as signed: content after it is accepted by default and reported as a policy failure when unsigned content is forbidden, and a stream that ends before that many bytes fails permanently for insufficient content. Without a declared length, or for a change inside the covered part, any difference in canonical content (a cut, an appended or altered byte) fails with a body hash mismatch.",
  ["fault_sequences", "inputs", "configurations"],
  "all bodies, limits, cut points and appended content, with the policy on and off and any chunking",
  "Tests cover one or two limits with the body delivered whole; the boundary cases depend on where the stream is cut relative to the limit and to pending whitespace or blank lines.",
  [BH, CH, VM, VH],
  [("limit accounting", CH), ("truncation reported as policy error", BH), ("status mapping of body hash errors", VM)], None, ["verification status"])

p("C04", "No signature passes unless exactly that content was signed by a published key",
  "A signature is reported as passing only if the signed header instances (selected bottom-up per name, with the signature header itself minus its signature value) and the covered body, as received and canonicalized, are exactly what the holder of a key published for that signature's domain and selector signed. Any tampering in transit that changes a covered byte, an instance count covered by oversigning, or a tag of the signature itself never yields a pass.",
  ["fault_sequences", "inputs", "histories"],
  "all messages, signing options and sequences of transit faults (bit flips, header edits, insertions, deletions, swaps, replayed or grafted signatures, key substitution)",
  "Tests tamper with a few fixed messages; soundness quantifies over every mutation of every message and every mix of signatures.",
  [VV, VH, CA, BH, "src/crypto/rsa.rs", "src/crypto/ed25519.rs"],
  [("data hash over canonicalized headers", BH), ("removal of the signature value", VV), ("public key verification", VV), ("body hash comparison", VM)], None,
  ["verification status Success"])

p("C05", "A validly signed message passes after any harmless transit",
  "Every signature produced for a message, with any accepted combination of options and output formatting, parses back to exactly the data that was signed and verifies as passing when the message arrives unharmed: with trace headers added, unsigned headers changed, differently named headers reordered, trailing blank lines added, whitespace refolded where the relaxed algorithm allows it, and any body chunking. The signing headers may be added at the top in any order relative to other signatures.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "all messages, all accepted signing requests (keys, canonicalizations, header selections, limits, formatting), all semantics-preserving transit changes and deliveries",
  "Tests sign and verify a few fixed messages with default formatting; the space of options times transit changes is open-ended.",
  [SS, SF, SM, SG, VV, CA, "src/quoted_printable.rs", "src/tag_list.rs"],
  [("formatting with insertion of the signature value", SF), ("parsing of the signature header", SG), ("same canonicalization on both sides", BH)], None,
  ["verification status", "parsed signature vs signed data"])

p("C06", "Each DNS outcome maps to its own verdict and harms only its own signatures",
  "For a signature that is otherwise acceptable: a missing or empty answer and an unusable name are permanent errors, a timeout reported by the resolver and any other resolver failure are temporary errors with their own distinct causes, and none of these ever becomes a pass or a different class of result. The outcome of one key lookup never changes the result of a signature that uses another key name.",
  ["fault_sequences", "histories"],
  "all assignments of DNS outcomes (answers, NXDOMAIN, empty, timeout, resolver errors of any kind) and completion orders over the lookups of a message",
  "Tests mock at most one DNS error at a time with immediate answers.",
  [VH, VQ, VM], [("mapping of lookup errors", VH), ("result class mapping", VM), ("index sets per query", VQ)], None, ["verification status", "RFC 8601 result"])

p("C07", "The lookup timeout bounds verification whatever the resolver does",
  "Header verification always finishes within the configured lookup timeout (plus the time of its own computation), even when lookups stall forever. Signatures whose lookup did not answer within that time get a temporary timeout error, while those whose answers arrived in time are evaluated normally.",
  ["schedules", "fault_sequences", "configurations"],
  "all latencies and stalls of the lookups relative to the timeout, all timeouts, any number of signatures",
  "No test simulates time; the timeout path is not exercised at all.",
  [VQ, VH, VM], [("timeout around each lookup", VQ)], None, ["virtual time at completion", "verification status"])

p("C08", "Key lookups run concurrently",
  "All lookups a message needs are started without waiting for one another, and header verification completes as soon as the slowest of them has been answered. The order of answers has no influence on that.",
  ["schedules"], "all latencies and completion orders of up to ten concurrent lookups",
  "Existing tests answer immediately, so sequential and concurrent lookups look the same.",
  [VQ], [("lookups polled together", VQ)], None, ["virtual start times of lookups", "virtual time at completion"])

p("C09", "One absolute, ASCII key query per distinct key name, and none without need",
  "Verification queries, for each distinct pair of selector and domain (compared case-insensitively and with internationalised names in their ASCII form) used by a still acceptable signature, exactly once the absolute lower-case ASCII name of the form selector._domainkey.domain with trailing dot, and issues no other query. Signatures that are malformed, violate policy, are expired or lie beyond the configured maximum cause no query, and all signatures sharing a name are evaluated against that single answer.",
  ["histories", "inputs", "schedules"], "all mixes of signatures, name spellings, failures and shared names",
  "Tests use one or two signatures and do not observe queries.",
  [VQ, VH, SG], [("de-duplication of lookup pairs", VQ), ("only in-progress tasks registered", VQ), ("conversion to A-labels", SG)], None, ["names received by the resolver"])

p("C10", "Exactly one result per selected signature, in order, always",
  "Verification returns exactly one result for each of the first signature headers in the message up to the configured maximum, in message order, each carrying that header's own position and its own parsed signature data when it could be parsed, and it returns nothing only if no signature header was selected. This holds whatever mix of malformed headers, failures and DNS outcomes occurs, in whatever order lookups complete and however much or little of the body is delivered.",
  ["schedules", "fault_sequences", "inputs"], "all header sections, DNS outcomes, completion orders, body deliveries and maxima",
  "Tests have at most two signatures and one completion order.",
  [VH, VM], [("task list indexed by header position", VH), ("final status per task", VM)], None, ["result vector"])

p("C11", "Expired and future-dated signatures are judged by the verifier's clock",
  "A signature is rejected as expired exactly when the verifier's current time has reached its expiration plus the tolerance (all counted in whole seconds) and expired signatures are not allowed, and rejected as future-dated exactly when its timestamp minus the tolerance lies after the current time and that is not allowed. The current time is the configured fixed time if given, otherwise the system clock at verification, however skewed, stepped or pre-epoch that clock is.",
  ["fault_sequences", "configurations", "histories"], "all clock skews, jumps and delivery delays, all timestamps, durations and tolerances",
  "Tests pin one fixed time; real clocks differ between hosts and jump.",
  [VH, VM], [("time checks before lookup", VH), ("current timestamp", VM)], None, ["verification status"])

p("C12", "Signing stamps its own clock consistently",
  "A signature made with the current-time option carries a timestamp the signer's clock showed during that signing (zero if the clock lies before the epoch), and its expiration is exactly the requested whole-second duration after that same timestamp; without a timestamp, expiration counts from the clock, and with an explicit one, from that one. This holds however the clock steps between and during signing operations, and a signature with a timestamp never expires at or before it (short of the maximum representable time).",
  ["fault_sequences", "configurations"], "all clock steps at every clock read, all durations and timestamp options, several requests per message",
  "Tests use the real clock or fixed timestamps and cannot step the clock between two readings.",
  [SS], [("single clock reading shared by timestamp and expiration", SS)], None, ["t= and x= of the produced signature"])

p("C13", "Verification policy is never bypassed and never invented",
  "No signature passes that violates the verifier's configuration: a required header not signed, an occurrence of a protected header not covered, a key below the minimum size, a disallowed historic hash, unsigned body content, or stale and future times when forbidden. A policy failure is reported only if that very policy is violated, and the built-in lower bounds on key size hold regardless of configuration.",
  ["configurations", "inputs", "fault_sequences"], "all policy configurations against all signed and altered messages, key sizes and build features",
  "Tests flip single settings on fixed messages.",
  [VH, VM, CR], [("preliminary validation", VH), ("key validation", VH), ("minimum key size", CR)], None, ["verification status"])

p("C14", "Key record constraints and revocation are enforced at verification time",
  "A key record as answered at verification time only validates signatures it permits: not if its key type differs, its key is revoked, the hash is not among those it lists, its strict-domain flag is set and the signing identity's domain differs from the signing domain, or its key or syntax is unusable; each of these yields its own failure cause and the record is returned with the result when it could be parsed. Both common public key encodings of each key type are accepted, and rotation or revocation of the published record between deliveries takes effect with the next verification.",
  ["histories", "configurations", "fault_sequences"], "all records and zone histories (publish, rotate, revoke, restrict) interleaved with deliveries",
  "Tests check single records in isolation and never change the zone over time.",
  [VH, RE, "src/crypto/mod.rs", "src/crypto/rsa.rs", "src/crypto/ed25519.rs"], [("record validation", VH), ("record parsing", RE), ("key decoding with fallback format", "src/crypto/mod.rs")], None, ["verification status", "returned key record"])

p("C15", "Several key records under one name are tried in order, bad ones tolerated",
  "When a key name yields several records, a signature passes if any of the records considered (the first two and the last) validates it, however the others are broken, revoked, undecodable or of another type. If none does, the failure reported is that of the last one considered; the records are evaluated independently for each signature using the name.",
  ["fault_sequences", "inputs", "histories"], "all answer sets, orders, duplicates and per-record errors, shared by any number of signatures",
  "Tests have at most a pair of records in one order.",
  [VQ, VH], [("selection of records", VQ), ("cycling through cached records", VH)], None, ["verification status", "returned key record"])

p("C16", "Sessions sharing a process and resolver do not influence each other",
  "Any number of signing and verification sessions run interleaved, repeated, abandoned or retried in one process with a shared resolver; each gives the results it would give alone on the same inputs, clock and answers. Nothing is remembered between sessions: every verification consults the resolver anew, and redoing an abandoned session gives the result the uninterrupted one would have given.",
  ["schedules", "histories", "crash_points"], "all interleavings of session steps, abandonments and repeats",
  "Tests run one session at a time.",
  [VH, VM, SM, BH], [("state owned by each session", VM), ("state owned by each session", SM)], None, ["results per session"])

p("C17", "Abandoned or finished verification leaves no lookup running",
  "When a caller drops a header verification at any point, its outstanding lookups are cancelled and no further lookup is issued; when it finishes, including by timeout, no lookup it started is still running. Other sessions are unaffected.",
  ["crash_points", "schedules"], "every point of abandonment, all lookup latencies and stalls",
  "No test drops a verification in progress.",
  [VQ], [("lookups owned by the verification future", VQ)], None, ["start, completion and drop of lookup futures"])

p("C18", "Hostile or damaged input never crashes or hangs either side",
  "Whatever bytes arrive as header fields, body, or DNS answers, and whatever values the clock and configuration take, signing and verification neither panic nor loop: they return an error or results.",
  ["inputs", "fault_sequences", "configurations"], "all corruptions of messages, signature headers, key records, answers, clocks and limits, with arithmetic overflow checks on",
  "Tests cover well-formed or slightly wrong inputs only.",
  [SG, "src/tag_list.rs", "src/quoted_printable.rs", RE, CA, VH, VV, SF], [("fallible parsing", SG), ("saturating time arithmetic", VH)], None, ["panic or step limit"])

p("C19", "Results depend only on inputs, never on scheduling or hashing order",
  "For the same message, configuration, clock and DNS answers, verification returns identical results however the lookups are delayed and reordered below the timeout, tasks are polled, the body is chunked and hash tables are seeded; signing with the same key and clock produces byte-identical headers.",
  ["schedules"], "all poll orders, spurious wake-ups, latencies, chunkings and hash seeds for the same inputs",
  "A test sees one schedule and one hash seed.",
  [VQ, VH, BH, SM], [("results keyed by header position", VH), ("results keyed by request", BH)], None, ["result vectors across schedules"])

p("C20", "Streaming a body needs memory independent of its length",
  "While a body is streamed through a signing or verification session, the memory the session retains between chunks stays below a fixed bound however long the body is and whatever it consists of (long lines, endless blank lines, whitespace runs, stray CRs).",
  ["inputs", "schedules"], "all bodies and chunkings, any number of hash requests",
  "Tests use tiny bodies and do not measure memory.",
  [CA, BH, CH], [("counting instead of storing blank lines", CA), ("chunk results dropped after hashing", BH)], None, ["live heap bytes between chunks"])

p("C21", "Several signing requests on one message are served independently and in order",
  "A signing session returns one outcome per request in request order, each equal to what that request alone would give: a request with a limit beyond the body fails for insufficient content without affecting the others, and a declared length equals the number of canonical bytes actually covered. Unusable sets of requests are refused as a whole before any signing.",
  ["inputs", "configurations", "schedules"], "all combinations of up to ten (and more) requests, keys, canonicalizations, limits and chunkings",
  "Tests sign with one or two fixed requests.",
  [SM, SS, BH], [("one task per request", SM), ("body hash keyed by limit, hash and canonicalization", BH)], None, ["signing outcomes"])

p("C22", "Temporary DNS trouble is recoverable by retrying",
  "If a verification ends with temporary errors because lookups failed or timed out, retrying the same message once the resolver works gives exactly the results a fault-free first attempt would have given. In the troubled attempt the affected signatures get only temporary errors, never a pass and never a permanent verdict about key or signature.",
  ["fault_sequences", "histories"], "all sequences of failing attempts followed by a healthy one",
  "Tests never retry.",
  [VH, VQ, VM], [("mapping of lookup errors to temporary results", VH)], None, ["results per attempt"])

p("C23", "Encodings and tag lists round-trip",
  "Quoted-printable and Base64 values and tag lists decode to what was encoded, and decoding rejects what the grammar rejects.",
  ["inputs"], "all byte strings", "Tests sample a few strings.",
  ["src/quoted_printable.rs", "src/tag_list.rs", "src/util.rs"], [("codec", "src/quoted_printable.rs")])
p("C24", "Domain, selector and identity grammar accepts exactly the valid names",
  "Domain names, selectors and identities are accepted exactly if valid including their internationalised forms, and compare case-insensitively with correct subdomain relation.",
  ["inputs"], "all strings", "Tests sample a few names.", [SG], [("validation and comparison", SG)])
p("C25", "Formatted signature headers respect the configured line width",
  "Lines of a produced signature header are no wider than the configured width wherever the content can be broken.",
  ["inputs", "configurations"], "all signatures and widths", "Tests sample a few widths.", [SF], [("line breaking", SF)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
