"""Confirm planted bugs: tools/plant.py [--skip-tests] [--no-check] ID...

For each seeded/<ID>: in a scratch copy of the repository the patch applies, the
package imports, demo.sh passes without and fails with it, and the stable tests pass;
then the quick check of its property is run on the copy.
"""
import json, os, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", RES_OPTIONS="timeout:1 attempts:1", **env)
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True)


def tests(d):
    out = os.path.join(d, "junit")
    os.makedirs(out)
    p = f"{PY} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --tb=line -r N --show-capture=no -o junit_family=xunit2 -o junit_logging=no"
    sh(f"{p} -n 6 --junitxml={out}/t.xml tests", d, PYTHONPATH=d + "/src", PYTHONHASHSEED="0")
    sh(f"{p} --xdoctest --junitxml={out}/d.xml src", d, PYTHONPATH=d + "/src")
    ok, bad = set(), set()
    for f in ("t.xml", "d.xml"):
        for c in ET.parse(os.path.join(out, f)).getroot().iter("testcase"):
            if c.find("skipped") is not None:
                continue
            n = "::".join(x for x in (c.get("classname"), c.get("name")) if x)
            (ok if c.find("failure") is None and c.find("error") is None else bad).add(n)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - (ok - bad))


RESULTS = os.path.join(HERE, "tools", "seed_results.json")


def record(i, prop, good, res):
    """Remember the outcome (a partial run keeps what an earlier one found)."""
    d = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    e = d.get(i, {})
    e["property"] = prop
    e["confirmed"] = good if "tests" in res else e.get("confirmed", False) and good
    if "check" in res:
        e["caught"] = "exit 1" in res["check"] and f"VIOLATION property={prop}" in res["check"]
        e["clause"] = res["check"].split("clause: ")[-1].split("  case")[0][:80] if e["caught"] else res["check"][:80]
    d[i] = e
    with open(RESULTS, "w") as f:
        json.dump(dict(sorted(d.items())), f, indent=1)


def main():
    args = sys.argv[1:]
    for i in [a for a in args if not a.startswith("--")]:
        src = os.path.join(HERE, "seeded", i)
        prop = json.load(open(os.path.join(src, "meta.json")))["property"]
        d = tempfile.mkdtemp(prefix=f"plant-{i}-", dir="/tmp")
        try:
            shutil.copytree("/repo", d, dirs_exist_ok=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
            dd = os.path.join(d, ".demo")
            shutil.copytree(src, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            res = {}
            a = sh(f"bash {dd}/demo.sh", d, PYTHONPATH=d + "/src")
            res["demo_clean"] = a.returncode
            p = sh(f"patch -p1 --dry-run < {src}/patch.diff && git -C /repo apply --check {src}/patch.diff && patch -p1 < {src}/patch.diff", d)
            if p.returncode:
                print(i, "PATCH FAILS", p.stdout, p.stderr)
                continue
            b = sh(f"bash {dd}/demo.sh", d, PYTHONPATH=d + "/src")
            res["demo_bug"] = b.returncode
            if "--skip-tests" not in args:
                miss = tests(d)
                res["tests"] = "pass" if not miss else f"{len(miss)} FAIL {miss[:3]}"
            good = res["demo_clean"] == 0 and res["demo_bug"] != 0 and res.get("tests", "pass") == "pass"
            if "--no-check" not in args:
                c = sh(f"python3 -m harness.check {prop}", HERE, PTWT_REPO=d, VERIF_SEED="1", VERIF_TIER="quick")
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION") or "clause" in l]
                res["check"] = f"{prop} exit {c.returncode} " + " | ".join(x[:160] for x in v[:2]) + (c.stdout[-300:] if c.returncode not in (0, 1) else "")
            print("OK " if good else "BAD", i, res, flush=True)
            record(i, prop, good, res)
            if not good:
                print("   ", (a.stdout + a.stderr)[-300:], "//", (b.stdout + b.stderr)[-300:])
        finally:
            shutil.rmtree(d)


main()
