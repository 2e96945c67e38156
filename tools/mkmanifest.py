import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {
 "N02": "Pure functions of an error chain or a log level: nothing for a simulator to schedule or fault. (That the right innermost error reaches the caller under faults is covered by C01, C02 and C03.)",
}
checks = []
for p in props:
    if p["id"] in NA:
        continue
    checks.append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"], "thorough_cmd": "bin/check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and workloads of the real driver against a simulated network and Bolt server, judged by a reference model",
        "level": "exploration",
        "level_note": "Evidence from sampling, not proof: no violation in tens of thousands of seeded runs per quick check (millions thorough). The driver's own code runs unchanged but for inserted scheduling points; network, clock, scheduler and the Neo4j server are simulated and trusted. Every violation is minimised and reproduced in a fresh process before it is reported."})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the checks instrument a scratch copy of its working tree at build time (src/instrument), so nothing in the shipped code is guarded or changed. Commits in /repo are repairs only (fix:)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
