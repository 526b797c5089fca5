#!/usr/bin/env python3
"""check.py ID quick|thorough   |   check.py replay FILE   |   check.py setup"""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "progsim"))
sys.path.insert(0, os.path.join(HERE, "hostsim"))
PROG = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C17")
HOST = ("C12", "C13", "C14", "C15", "C16", "C19")


def main():
    import base
    cmd = sys.argv[1]
    try:
        if cmd == "setup":
            base.ensure("")
            base.ensure("consume")
            import host
            host.ensure()
            return 0
        if cmd == "replay":
            rec = json.load(open(sys.argv[2]))
            if rec["sim"] == "directed":
                import directed
                r = [x for x in directed.run(rec["property"]) if x[0] == rec["name"]]
                print(r)
                bad = bool(r) and r[0][1] == "violation"
            elif rec["sim"] == "host":
                import hcheck
                r = hcheck.replay(sys.argv[2])
                print(json.dumps(r, indent=1))
                bad = r["same"]
            else:
                import check
                r = check.replay(sys.argv[2])
                print(json.dumps(r, indent=1))
                bad = r["same"]
            if bad:
                print(f"VIOLATION property={rec['property']} replay={os.path.abspath(sys.argv[2])}")
                return 1
            return 0
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        if cmd in PROG:
            import check
            return check.run(cmd, tier, seed)
        if cmd in HOST:
            import hcheck
            return hcheck.run(cmd, tier, seed)
    except base.HarnessError as e:
        print(e, file=sys.stderr)
        return 2
    print("unknown command", file=sys.stderr)
    return 2


sys.exit(main())
