"""python3 sa/check.py <property> : decide one property from the current source of the repository"""
import os
import sys

if not os.environ.get("SA_PY"):
    os.environ["SA_PY"] = "1"
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    import shutil
    py = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
    os.execv(py, [py, "-B"] + [os.path.abspath(__file__)] + sys.argv[1:])

sys.setrecursionlimit(30000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import importlib
import rule


def known_findings():
    k = {}
    p = os.path.join(rule.VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                # known: property=<id> key=<rule|function|name> :: description
                head, _, desc = l[6:].partition("::")
                pid = head.split("property=")[1].split()[0]
                key = head.split("key=")[1].strip()
                k[(pid, key)] = desc.strip()
    return k


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = rule.Check(pid, tier, seed)
    mod = importlib.import_module("rules." + pid.lower())
    try:
        ck.run_part(mod.run)
    except rule.Anchor as e:
        print("anchor of the property vanished: %s" % e)
        return 2
    if os.environ.get("SA_DEBUG"):
        for o in ck.obls:
            if o["verdict"] != "holds" or os.environ["SA_DEBUG"] == "2":
                print("   ", o["verdict"], o["rule"], o["name"], "@", o["function"], o["line"], o["how"], o["detail"][:int(os.environ.get("SA_W", "300"))])
        for g in sorted(ck.gaps):
            print("    GAP", g)
    return rule.report(ck, known_findings())


if __name__ == "__main__":
    sys.exit(main())
