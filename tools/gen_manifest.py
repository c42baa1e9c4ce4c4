#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check programs that exist under harness/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C29": "The property is about the Solidity helper contract; there is no Solidity compiler, EVM or cached"
           " EVM crate in this sandbox, so its code cannot be executed on generated inputs at all.",
}
UNIT = ("Seeded random and boundary-biased generation against an independent reference in the harness;"
        " a pass means no counterexample among the cases counted in the evidence, not a proof. Trusts the"
        " reference written in harness/unit and the stand-ins for the dfinity/ic crates (stubs/).")
SIM = ("The real canister code (main.rs and all modules, compiled natively) is driven through random histories"
       " of deposits, withdrawals, timers, reorderings, faults, traps and upgrades against a simulated EVM"
       " chain, RPC canister, ledgers and signer; an independent model judges the history. A pass means no"
       " counterexample among the histories counted in the evidence. Trusts the simulated environment"
       " (harness/sim, vendor/ic0, vendor/ic-cdk-timers) and the stand-ins for the dfinity/ic crates (stubs/).")
TECH = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    b = p.lower() + ".rs"
    bin = os.path.join(V, "harness/sim/src/bin", b)
    unit = os.path.exists(bin) and "unit_only" in open(bin).read()
    if p in NA or not os.path.exists(bin):
        na.append({"property": p, "reason": NA.get(p, "The check for this property is not built yet.")})
        continue
    checks.append({
        "property": p,
        "quick_cmd": "VERIF_TIER=quick bash tools/check.sh " + p,
        "thorough_cmd": "VERIF_TIER=thorough bash tools/check.sh " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": ("property-based testing (proptest generators, independent reference oracle)" if unit else
                      "stateful property-based testing (simulated IC and chain, model oracle over histories)")
                     + TECH.get(p, ""),
        "level": "exploration",
        "level_note": UNIT if unit else SIM,
    })
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks build an unmodified copy of its sources (tools/mirror.py)."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
