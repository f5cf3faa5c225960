#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property whose simulator exists."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
CLAIMED = open(os.path.join(root, "tools/claimed.txt")).read().split()
NOTE = {
 "T": "Seeded sampling of clock/poll schedules and clock faults against an arithmetic definition of slots; the wall clock, timer clock and every clock read are simulated. Sampling, not proof.",
 "C": "Seeded sampling of simulated beacon networks running the real state transition, judged by an independent executable model of the specification. Trusts the model, and stand-ins for ssz_rs (SSZ), blst and c-kzg (algebraically faithful, not the real curves). Sampling, not proof.",
 "A": "Seeded sampling of calls, interleavings and transport faults against a simulated server; reqwest and the event-source library are stand-ins. Sampling, not proof.",
 "E": "Seeded sampling of payloads, keys and I/O or worker schedules; the underlying curve, cipher and big-integer crates are stand-ins validated with published vectors. Sampling, not proof.",
 "K": "Seeded sampling of signers, rogue keys, faulty delivery and random sources against a symbolic model of keys and signatures; the curve library is an algebraic stand-in in which points outside the group and at infinity exist. Sampling, not proof.",
 "S": "Seeded sampling of values, fragmentations and damage; SSZ collections are a stand-in. Sampling, not proof.",
 "G": "Seeded sampling of hash seeds and directory orders around the real generator. Sampling, not proof.",
}
NA = {}
m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="none", enable="no hooks: the existing seams (traits, streams, transport and OS symbols) are used", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} --tier quick", thorough_cmd=f"bash check.sh {p['id']} --tier thorough",
     technique="deterministic simulation with fault injection", level="exploration", level_note=NOTE[p["id"][0]]) for p in props if p["id"] in CLAIMED],
  not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "check under construction; not claimed yet")) for p in props if p["id"] not in CLAIMED])
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", len(m["not_applicable"]), "not")
