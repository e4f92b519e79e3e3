#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
REF = "Trusts the independent reference in harness/refc (constants derived from definitions, self-tested on published vectors); reach is the biased random workload, not enumeration."
checks = {
 'C01': ("differential runtime monitor of SHA-2 against an independent reference, overflow-checked build", "Every digest under random feeding plans, every length up to 559 at two-part splits. " + REF),
 'C02': ("differential runtime monitor of HMAC/HKDF against an independent reference", REF),
 'C03': ("differential runtime monitor of AEAD encryption against an independent reference", REF),
 'C04': ("runtime monitor: genuine messages and forgeries of every component, every single-bit change", REF),
 'C05': ("differential runtime monitor of unsigned arithmetic against schoolbook naturals, overflow-checked build", REF),
 'C06': ("differential runtime monitor of signed arithmetic against a two's-complement model", REF),
 'C07': ("differential runtime monitor of field arithmetic over 16 prime moduli", REF),
 'C08': ("differential runtime monitor of P-256 group operations in all point relations and scalings", REF),
 'C09': ("runtime monitor of ECDSA: deterministic re-computation, acceptance and forgery oracles", REF),
 'C10': ("single-step instruction-trace monitor of compiled code, traces compared across operands", "Observes executed instruction addresses (trap flag) of the release build on x86-64 with this rustc; says nothing of cache or latency effects, nor of other compilers."),
 'C11': ("AddressSanitizer, Miri, overflow-checked and optimised builds compared by per-case output digests; shared objects from 8 threads", "Sanitizers see only executed paths; Miri runs small inputs only."),
}
NA = {}
try:
    exec(open(root + '/tools/manifest_t.py').read())
except FileNotFoundError:
    pass
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
     "notes": "Every check is ./check.sh <property>; it builds the monitors in harness/ against /repo's working tree. No hooks in /repo are needed: turtls is driven through its public C API, with the random number generator replaced at link level by the crate harness/fakerand."}
for p in props:
    i = p['id']
    if i in checks:
        t, n = checks[i]
        m['checks'].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                            "technique": t, "level": "exploration", "level_note": n})
    else:
        m['not_applicable'].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
