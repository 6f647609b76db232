#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decides one property on the working tree of /repo
check.py replay FILE                    runs the case of a reported violation again
check.py all [quick|thorough]           every property, one after another"""
import importlib, json, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mon import common, registry  # noqa: E402


def decide(prop, tier, case=None):
    name = registry.MODULES[prop]
    mod = importlib.import_module("mon." + name)
    rule = mod.PLAN[prop][-1] if hasattr(mod, "PLAN") else mod.RULE
    ev = common.Evidence(prop, tier, registry.CLAIMS[prop][1], rule)
    ev.assumptions = registry.ASSUMPTIONS.get(prop, [])
    try:
        verdicts = mod.run(prop, tier, ev) if case is None else mod.replay(prop, case, ev)
    except common.Violation as v:
        verdicts = [(v.message, v.case)]
    except common.Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s the check itself failed" % prop)
        return 2
    known = common.known_findings(prop)
    new = []
    for message, witness in verdicts or []:
        signature = witness.get("signature") if isinstance(witness, dict) else None
        hit = [k for k in known if signature and k.startswith(signature + " ")]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]))
        else:
            new.append((message, witness))
    ev.violations = new
    if case is None:
        if not new and ev.evaluations == 0:
            print("INCONCLUSIVE property=%s nothing was observed" % prop)
            return 2
        ev.write()
    for message, witness in new[:5]:
        if isinstance(witness, dict):
            witness = dict(witness, property=prop, message=message)
        path = common.replay_file(prop, witness)
        print("  " + str(message)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if new:
        return 1
    print("held: property=%s evaluations=%d distinct_nontrivial=%d" % (prop, ev.evaluations, len(ev.nontrivial)))
    return 0


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    if args[0] == "replay":
        case = json.load(open(args[1]))
        return decide(case["property"], "quick", case)
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if args[0] == "all":
        worst = 0
        for prop in sorted(registry.MODULES):
            rc = decide(prop, tier)
            sys.stdout.flush()
            worst = max(worst, rc)
        return worst
    return decide(args[0], tier)


if __name__ == "__main__":
    sys.exit(main())
