#!/usr/bin/env python3
"""run_seeds.py [--all] [ID...]: applies the planted changes of seeded/ one after
the other to /repo, runs the check of their property (--all: every check) and
writes the table at the end of DESIGN.md. Leaves /repo as it was."""
import glob, json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
RES = os.path.join(V, "tools", "seed_results.json")


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def caught(prop):
    r = sh("python3-vt", "check.py", prop, cwd=V, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
    return r.returncode == 1 and ("VIOLATION property=" + prop) in r.stdout


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    everything = "--all" in sys.argv
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    checks = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    assert not sh("git", "-C", R, "status", "--short").stdout.strip()
    alls = sorted(os.path.basename(d) for d in glob.glob(os.path.join(V, "seeded", "*")))
    if "--table" not in sys.argv:
        for i in ids or alls:
            d = os.path.join(V, "seeded", i)
            prop = json.load(open(d + "/meta.json"))["property"]
            try:
                p = sh("git", "-C", R, "apply", d + "/patch.diff")
                assert p.returncode == 0, (i, p.stdout)
                res[i] = [c for c in (checks if everything else [prop]) if caught(c)]
            finally:
                sh("git", "-C", R, "checkout", "--", ".")
            print(i, prop, "caught by", res[i], "" if prop in res[i] else "  <-- MISSED", flush=True)
            json.dump(res, open(RES, "w"), indent=0, sort_keys=True)
    rows = ["<!-- SEEDS -->", "## 7. Planted changes and the checks which catch them", "",
            "Quick tier, VERIF_SEED=1 (tools/run_seeds.py). The check of the named property was run; `-` = missed.", "",
            "| change | property | what it needs | caught by |", "|---|---|---|---|"]
    for i in alls:
        m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), " ".join(res.get(i, [])) or "-"))
    f = os.path.join(V, "DESIGN.md")
    t = open(f).read()
    open(f, "w").write(t[:t.index("<!-- SEEDS -->")] + "\n".join(rows) + "\n")


if __name__ == "__main__":
    main()
