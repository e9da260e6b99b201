"""Command line: python -m vp.run <property> [--tier T] [--replay FILE]."""

import argparse
import importlib
import json
import os
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        from . import boot

        boot.load()
        from . import harness

        mod = importlib.import_module("vp.laws.%s" % a.property.lower())
        prop = mod.PROPERTY
        known = harness.known_findings(prop.pid)
        if a.replay:
            d = json.load(open(a.replay))
            law = {x.name: x for x in prop.laws}[d["law"]]
            r = harness.fresh_run(law, d["cases"])
            if r is None:
                print("replay holds: property=%s law=%s" % (prop.pid, d["law"]))
                return 0
            if r[0] in known:
                print("KNOWN-FINDING: property=%s %s" % (prop.pid, known[r[0]]))
                return 0
            print("%s: %s" % (d["law"], r[1]))
            print("VIOLATION property=%s replay=%s" % (prop.pid, a.replay))
            return 1
        seed = int(os.environ.get("VERIF_SEED") or 1)
        budget = 420 if a.tier == "quick" else 6 * 3600
        ev, violations, errors, known, found = harness.run_property(prop, a.tier, seed, budget)
        path = os.path.join(harness.ROOT, "evidence", prop.pid + ".json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fp:
            json.dump(ev, fp, indent=1, sort_keys=True, default=str)
        for e in errors[:3]:
            sys.stderr.write("ERROR in %s: %s\n" % (e["law"], e["error"]))
        c = ev["coverage"]
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (prop.pid, a.tier, c["evaluations"], c["distinct_nontrivial"], ev["wall_s"]))
        for k, text in known.items():
            print("KNOWN-FINDING: property=%s %s" % (prop.pid, text))
        for v in violations:
            print("  %s: %s" % (v["law"], v["message"][:600]))
            print("VIOLATION property=%s replay=%s" % (prop.pid, v["replay"]))
        if violations:
            return 1
        return 2 if errors else 0
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
