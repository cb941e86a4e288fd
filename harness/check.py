"""Entry point of a check:  python3 -m harness.check C01"""

from __future__ import annotations

import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import core, worker

NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


def known_findings():
    """The findings of known_findings.json that are not repaired."""
    path = os.path.join(core.VERIF, "known_findings.json")
    return json.load(open(path))["known"] if os.path.exists(path) else []


def replay_file(prop, case, clause):
    d = os.path.join(core.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{case.get('id', 'x')}.json")
    core.dump(path, {"property": prop, "clause": clause, "case": case})
    return path


def violation(prop, case, clause):
    path = replay_file(prop, case, clause)
    print(f"VIOLATION property={prop} replay={path}")
    brief = {k: v for k, v in case.items() if k not in ("x", "c", "w", "data")}
    print(f"  clause: {clause}  case: {json.dumps(brief)[:600]}")
    sys.stdout.flush()


def run_models(mod, tmp, tier):
    """Design-level model checking runs of a property."""
    out = []
    for i, m in enumerate(getattr(mod, "MODELS", [])):
        if m.get("tier", tier) != tier:
            continue
        t0 = time.time()
        wd = os.path.join(tmp, f"model-{i}")
        os.makedirs(wd)
        cfg = os.path.join(core.SPEC, m.get("cfg_" + tier) or m["cfg"])
        rc, txt = worker.run_tlc(m["module"], cfg, wd, heap="6g", workers=str(m.get("workers", 4)))
        gen, dist = worker.stats(txt)
        out.append(
            {
                "module": m["module"],
                "cfg": os.path.basename(cfg),
                "rc": rc,
                "states": dist,
                "transitions": gen,
                "wall_s": round(time.time() - t0, 1),
                "ok": rc == 0 and "No error has been found" in txt,
                "tail": txt[-2500:],
            }
        )
    return out


def cases(tmp, shard):
    """The cases a shard has started, in order."""
    path = os.path.join(tmp, f"cases-{shard}.ndjson")
    if not os.path.exists(path):
        return []
    out = []
    with open(path) as f:
        for line in f:
            try:
                out.append(json.loads(line))
            except ValueError:
                pass
    return out


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = core.tier()
    mod = importlib.import_module(f".props.{prop.lower()}", "harness")
    tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    rc = 1
    try:
        rc = run(prop, mod, tier, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, mod, tier, tmp, t0):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0")
    core.TMP = tmp
    models = mod.prepare(tmp, tier) if hasattr(mod, "prepare") else []
    procs = []
    for s in range(NSHARDS):
        log = open(os.path.join(tmp, f"log-{s}"), "w")
        procs.append(
            subprocess.Popen(
                [core.PY, "-m", "harness.worker", prop, str(s), str(NSHARDS), tmp],
                cwd=core.VERIF,
                env=env,
                stdout=log,
                stderr=subprocess.STDOUT,
            )
        )
    models += run_models(mod, tmp, tier)
    for p in procs:
        p.wait()

    harness_error = False
    nviol = 0
    bads = []
    results = []
    for s, p in enumerate(procs):
        rp = os.path.join(tmp, f"result-{s}.json")
        if not os.path.exists(rp):
            log = open(os.path.join(tmp, f"log-{s}")).read()
            started = cases(tmp, s)
            if p.returncode and p.returncode < 0 and started:
                # the process executing the code under test died
                bads.append((started[-1], f"the process died with signal {-p.returncode}"))
            elif "assert os.path.realpath" not in log and ("import ptwt" in log or "/src/ptwt/" in log):
                # ptwt cannot be imported, or failed outside of a recorded call
                bads.append(({"id": f"s{s}"}, "the library failed outside a recorded call: " + log[-300:]))
            else:
                print(f"HARNESS ERROR in shard {s} (rc {p.returncode}):\n{log[-3000:]}", file=sys.stderr)
                harness_error = True
            continue
        r = json.load(open(rp))
        results.append(r)
        if not r["ok"]:
            print(f"HARNESS ERROR: TLC did not finish in shard {s}\n{r['tlc_tail']}", file=sys.stderr)
            harness_error = True
        if r["bad"]:
            want = {b["id"]: b["clause"] for b in r["bad"]}
            for c in cases(tmp, s):
                if c["id"] in want:
                    bads.append((c, want[c["id"]]))

    known = {k["id"]: k for k in known_findings()}
    observed = {}
    reported = 0
    for case, clause in bads:
        if clause.startswith("HARNESS"):
            print(f"HARNESS ERROR: {clause} in {case['id']}", file=sys.stderr)
            harness_error = True
            continue
        # Known findings are modelled in the specification as named deviations;
        # a call that is allowed only by such a deviation is reported as "KNOWN id".
        if clause.startswith("KNOWN ") and clause.split()[1] in known:
            kid = clause.split()[1]
            observed[kid] = observed.get(kid, 0) + 1
            continue
        nviol += 1
        if reported < 5:
            violation(prop, case, clause)
            reported += 1
    for kid, k in sorted(known.items()):
        if prop in k["properties"]:
            print(f"KNOWN-FINDING: property={prop} {k['what']} [{kid}, observed {observed.get(kid, 0)} times]")

    for m in models:
        if not m["ok"]:
            print(f"HARNESS ERROR: model {m['module']} ({m['cfg']}) failed\n{m['tail']}", file=sys.stderr)
            harness_error = True

    classes = {}
    for r in results:
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
    ncases = sum(r["cases"] for r in results)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": core.seed(),
        "level": "model_checking",
        "coverage": {
            "states": sum(r["states"][1] for r in results) + sum(m["states"] for m in models),
            "transitions": sum(r["states"][0] for r in results) + sum(m["transitions"] for m in models),
            "traces_validated_against_impl": ncases,
            "samples": [x for r in results for x in r["samples"]][:3],
            "cases_by_class": classes,
            "models": [{k: v for k, v in m.items() if k != "tail"} for m in models],
            "rule": (mod.__doc__ or "").strip(),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    t_exec = max([r["t_exec"] for r in results] or [0])
    t_tlc = max([r["t_tlc"] for r in results] or [0])
    print(
        f"{prop} {tier}: {ncases} executions validated, {nviol} violations, "
        f"{len(models)} models, {time.time() - t0:.1f} s (exec {t_exec:.1f}, tlc {t_tlc:.1f})"
    )
    if nviol:
        return 1
    return 2 if harness_error else 0


if __name__ == "__main__":
    main()
