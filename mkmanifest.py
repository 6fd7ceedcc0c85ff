"""Generates MANIFEST.json from properties.jsonl and the checks."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
PY = "/opt/venv/bin/python"
LAW = "stateless exploration of the real sampler: all random choices with exact probabilities, exact output law against an independent oracle"
TECH = {
    "C01": "exhaustive enumeration of matrices x state pairs x set/compute histories on the real calculators, oracle: definition of the permanent",
    "C02": "exhaustive enumeration of matrices x state pairs x reuse histories on the real calculators, oracle: definition of the permanent",
    "C03": "exhaustive enumeration of configurations and query histories on the real calculator, oracle law",
    "C04": "exhaustive exploration of pool schedules (task assignment, completion order) x configurations x toggle/query histories on the real calculator",
    "C11": "stateless exploration of random choices x pool schedules x processor and thread numbers; exact joint law of N samples",
    "C12": "stateless exploration of all operation histories x random choices; exact joint law",
    "C13": "exhaustive enumeration of operations x argument containers x random choices with deep comparison of arguments and overwritten results",
    "C14": "exhaustive enumeration of (n, m) and occupations, independent counting",
    "C15": "exhaustive enumeration of matrices from factor alphabets; random phases explored by the engine",
    "C16": "exhaustive enumeration of scripted sample sequences and setter/query histories",
    "C17": "exhaustive exploration of setter/generate histories; exact law of each product over all random choices and schedules",
    "C18": "stateless exploration of sampling rounds; invariant and exactness checked on every execution",
    "C19": "stateless exploration with boundary-value injection at all places of every execution",
    "C20": "exhaustive enumeration of rational grids of distributions, parameters and integers against defining equations",
    "C22": "exhaustive injection of failures at every random draw, permanent computation and worker task of all executions, then exploration of later calls on the same object",
    "C21": "exhaustive enumeration of inputs and of all answers of a stand-in for R",
}
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    mod = importlib.import_module("mc.checks.%s" % i.lower())
    checks.append(dict(
        property=i,
        quick_cmd="%s -m mc.run %s --tier quick" % (PY, i),
        thorough_cmd="%s -m mc.run %s --tier thorough" % (PY, i),
        technique="model checking: " + TECH.get(i, LAW),
        level="model_checking",
        level_note="Exhaustive within these bounds, on the real code of /repo's working tree: " + mod.BOUNDS["quick"]
        + ". Trusts the stand-ins for numpy.random, random and process pools (replayed against seeded native runs) and a 1e-9 numerical tolerance.",
    ))
json.dump(dict(
    version=1,
    setup_cmd=PY + " -c \"import numpy, scipy, guancodes\"",
    checks=checks,
    not_applicable=[],
    notes="No hooks in /repo: randomness, pools and processor counts are interposed from outside. Known and fixed findings: known_findings.json.",
), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
