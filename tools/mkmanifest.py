"""Writes /verif/MANIFEST.json: claims every property that has a module under sim/checks."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = {
 "P01": "deterministic simulation: seeded program replayed under varied simulated entropy, clocks, global state, history and hash seed",
 "P02": "deterministic simulation: seeded thread scheduler over package source lines, solo-result oracle",
 "P03": "deterministic simulation: seeded interruption injection at package source lines and callbacks, never-interrupted oracle",
 "P04": "deterministic simulation: simulated disk with seeded errors and crash points over saves of parameter states",
 "P05": "deterministic simulation: simulated disk with seeded errors and crash points over survey-table writes",
 "P06": "deterministic simulation: simulated disk with seeded errors, crash points, truncation and read faults over data files",
 "P07": "deterministic simulation: simulated network and disk with seeded faults and crashes over cached downloads",
 "P08": "deterministic simulation: discrete-event cluster with message and crash faults, local-evaluation oracle",
 "P09": "deterministic simulation: recorded draw log of a simulated random source over seeded graph and re-linking histories",
 "P10": "deterministic simulation: simulated random source with recorded noise draws over seeded survey histories, row-by-row reference model",
 "P11": "deterministic simulation: seeded histories with interruption faults against a per-member reference model",
 "P12": "deterministic simulation: seeded edit/query histories with interruption and disk faults against a full-scan reference model",
 "P17": "deterministic simulation: seeded frame histories with interruption faults against a list-of-rows reference model",
 "P19": "deterministic simulation: seeded configuration and evaluation histories with rejected and interrupted steps against a reference model tree",
 "P13": "deterministic simulation: adversarial random-source fault injection (extreme generator outputs at chosen draws)",
}
NOTE = {
 "P01": "seeded search; equality judged on every returned value, no completeness claim",
}
PURE = ("a pure function of its arguments: no schedule, clock, I/O, randomness, shared state or crash point for it to depend on, "
        "so a simulator has nothing to decide (input generation in simulator vocabulary would be a different technique)")
NA = {
 "P14": "uncertainty formulas are " + PURE + "; the wiring of uncertainties to rows is checked under P10",
 "P15": "unit, redshift and extrapolation conversions are " + PURE,
 "P16": "the whitelist test and evaluation of a text expression is " + PURE,
 "P18": "each model's formula is " + PURE + "; reproducibility, sharing and interruption of the models are checked under P01-P03, P08-P10",
}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "sim", "checks", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": f"./check.sh {pid} --tier quick",
                       "thorough_cmd": f"./check.sh {pid} --tier thorough", "evidence_file": f"evidence/{pid}.json",
                       "technique": TECH[pid], "level": "exploration",
                       "level_note": NOTE.get(pid, NOTE["P01"])})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
