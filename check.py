#!/usr/bin/env python3
"""check.py <property> [quick|thorough] | check.py --replay FILE"""
import importlib, json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

# property -> list of (harness, variant, env) explored by the C++ engine
HARNESS = {
    "C01": [("c01", "opt", {})],
    "C03": [("c03", "opt", {})],
    "C04": [("c04", "opt", {})],
    "C05": [("c05", "opt", {})],
    "C06": [("c06", "opt", {})],
    "C07": [("c07", "opt", {})],
    "C08": [("c08", "opt", {})],
    "C09": [("c09", "opt", {})],
    "C10": [("c10", "opt", {})],
    "C11": [("c11", "opt", {})],
    "C12": [("c12", "opt", {})],
    "C13": [("c13", "opt", {})],
    "C14": [("c14", "asan", {})],
    "C15": [("c15", "opt", {})],
    "C18": [("c18", "opt", {})],
    "C21": [("c21", "opt", {})],
    "C22": [("c22", "opt", {})],
    "C24": [("c24", "opt", {})],
}
# explored both in the library and through the programs
BOTH = {"C18", "C22", "C24"}
PROGRAM = {"C02", "C16", "C17", "C19", "C20", "C23", "C25", "C26"}
RULES = json.load(open(os.path.join(vlib.VERIF, "mc", "rules.json")))


def build(prop, name, variant):
    link = ()
    if prop == "C22":
        so = vlib.build_ref()[0]
        link = (so, "-Wl,-rpath," + os.path.dirname(so))
    return vlib.build_harness(name, variant, link=link)


def harness_check(prop, tier):
    chk = vlib.Check(prop, tier)
    info = RULES.get(prop, {})
    reports, viol, assumptions = [], None, list(info.get("assumptions", []))
    for name, variant, env in HARNESS[prop]:
        exe, reduced = build(prop, name, variant)
        if reduced:
            assumptions.append("reduced harness (%s): internal interfaces changed, only the public ones were explored" % name)
        rep = vlib.run_harness(chk, exe, env=env)
        reports.append(rep)
        if rep["violation"]:
            viol = dict(rep["violation"], property=prop, harness=name, variant=variant, env=env, tier=tier)
            break
    cov = {
        "states": sum(r["states"] for r in reports),
        "transitions": sum(r["transitions"] for r in reports),
        "traces_validated_against_impl": sum(r["cases"] for r in reports),
        "exhaustive": all(r["cases"] == r["space"] for r in reports),
        "rule": info.get("rule", ""),
        "families": [f for r in reports for f in r["families"]],
        "counters": {k: v for r in reports for k, v in r["counters"].items()},
        "samples": [s for r in reports for s in r["samples"]] or (["violating case: %s" % viol["case"]] if viol else []),
    }
    if any(r["infra"] for r in reports):
        assumptions.append("not completed: " + "; ".join(r["infra"] for r in reports))
    chk.evidence("model_checking", cov, assumptions, 1 if viol else 0)
    if prop in BOTH and not viol:
        cov["wall_s"] = time.time() - chk.t0
        cov["notes"] = assumptions
        return importlib.import_module("programs").check(prop, tier, cov)
    if viol:
        chk.violation(viol)
        return 1
    if any(r["infra"] for r in reports):
        # a case did not finish twice although it finishes in isolation
        print("some cases could not be completed: " + "; ".join(r["infra"] for r in reports))
    print("%s held on %d executions (%d distinct states, %d transitions)" % (
        prop, cov["traces_validated_against_impl"], cov["states"], cov["transitions"]))
    return 0


def replay(path):
    v = json.load(open(path))
    if "harness" not in v:
        return importlib.import_module("programs").replay(v)
    exe, _ = build(v["property"], v["harness"], v["variant"])
    e = dict(os.environ, **v.get("env", {}))
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
    return subprocess.run([exe, "--tier", v.get("tier", "quick"), "--replay", v["family"], str(v["from"]), str(v["to"])], env=e).returncode


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "--setup":
        # nothing is kept between runs; only make sure that the sources build
        for v in ("opt", "asan"):
            vlib.build_lib(v)
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        if prop in PROGRAM:
            return importlib.import_module("programs").check(prop, tier)
        return harness_check(prop, tier)
    except vlib.BuildError as e:
        print("build failed:\n%s" % e)
        return 2


sys.exit(main())
