"""One shard of a check: generate cases, run the real code, let TLC judge."""

from __future__ import annotations

import importlib
import json
import os
import random
import re
import signal
import subprocess
import sys
import time

from . import core, gen

CASE_SECONDS = 120


def shard_cases(mod, shard, nshards, tier, sd):
    """The (deterministic) cases of one shard."""
    n = mod.COUNT[tier]
    per = [n // nshards + (1 if i < n % nshards else 0) for i in range(nshards)]
    r = random.Random(f"{mod.PROP}/{sd}/{tier}/{shard}")
    fixed = list(mod.fixed(tier)) if hasattr(mod, "fixed") else []
    k = 0
    for i, c in enumerate(fixed):
        if i % nshards == shard:
            c["id"] = f"f{i}"
            yield c
    while k < per[shard]:
        for c in mod.make(r, tier):
            c["id"] = f"s{shard}-{k}"
            scale(c, sd)
            k += 1
            yield c


# ops that are linear in the data built from the case
SCALED = {"dec", "rec", "rt", "pkh", "mdec", "mrec", "mrt", "hist", "cwt"}


def scale(case, sd):
    """Scale the data of some cases by a power of two (exactly, far from over- and underflow)."""
    if case.get("op") not in SCALED:
        return
    r = random.Random(f"scale/{sd}/{case['id']}")
    if r.random() < 0.25:
        case["sc"] = r.choice([-80, -60, -40, -25, -12, 12, 25, 40, 60])
    case["ctx"] = r.choice(["plain"] * 7 + ["nograd", "infer", "grad"]) if case["op"] not in ("pkh", "hist") else "plain"
    if case["op"] in ("dec", "rec", "rt"):
        case["warm"] = isinstance(case["w"], dict) and r.random() < 0.25
        if isinstance(case["w"], dict) and r.random() < 0.2:
            # taps scaled by powers of two, within the range of single precision
            case["wnd"] = gen.ND[case["fn"]]
            J = len(case["c"]["ds"]) if "c" in case else max(case["level"], 0) or 4
            room = 40 if "sc" in case else 90
            ks = [k for k in (3, 8, 15, 25, 40) if k * J * case["wnd"] <= room]
            if ks:
                case["wsc"] = r.choice(ks) * r.choice([1, 1, -1])


def run_case(mod, case):
    core.settings(case)
    def onalarm(signum, frame):
        raise core.CaseTimeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(CASE_SECONDS)
    try:
        ev = mod.run(case) if hasattr(mod, "run") else execute(case)
    except core.CaseTimeout:
        ev = {"id": case["id"], "op": "fail", "why": "no result within the time limit"}
    finally:
        signal.alarm(0)
        core.settings({})
    return ev


def execute(case):
    from .execute import execute as ex

    return ex(case)


BAD = re.compile(r'^"?@@BAD <<(.*)>>"?$')


def run_tlc(module, cfg, workdir, env=None, heap="1500m", workers="1", timeout=3000, extra=()):
    """Run TLC; returns (returncode, stdout)."""
    meta = os.path.join(workdir, "states-" + module)
    cmd = [
        "java",
        "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC",
        f"-Xmx{heap}",
        "-Xss64m",
        "-Djava.io.tmpdir=" + workdir,
        "-cp",
        core.JARS,
        "tlc2.TLC",
        "-workers",
        workers,
        "-metadir",
        meta,
        "-noGenerateSpecTE",
        *extra,
        "-config",
        cfg,
        os.path.join(core.SPEC, module + ".tla"),
    ]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    p = subprocess.run(
        cmd, cwd=core.SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout
    )
    return p.returncode, p.stdout


def run_design(module, cfg, tmp, env=None, workers="4"):
    """Model check a design-level module; returns its record for the evidence."""
    wd = os.path.join(tmp, "design-" + cfg)
    os.makedirs(wd)
    t0 = time.time()
    rc, out = run_tlc(module, os.path.join(core.SPEC, cfg), wd, env=env, heap="4g", workers=workers)
    g, d = stats(out)
    ok = rc == 0 and "No error has been found" in out
    return {"module": module, "cfg": cfg, "ok": ok, "states": d, "transitions": g, "wall_s": round(time.time() - t0, 1), "tail": out[-2500:]}


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def parse_bad(out):
    bad = []
    for line in out.splitlines():
        m = BAD.match(line.strip())
        if m:
            body = m.group(1).replace('\\"', '"')
            parts = re.findall(r'"([^"]*)"', body)
            bad.append({"id": parts[0], "clause": parts[1] if len(parts) > 1 else "?"})
    return bad


def judge(module, trace, tmp):
    """Let TLC judge a trace.

    If the specification cannot even be evaluated on an observed call (an output of
    an unexpected form), that call is rejected and the remaining cases are judged.
    """
    bad, states = [], [0, 0]
    lines = open(trace).read().splitlines()
    for attempt in range(6):
        rc, out = run_tlc(module, os.path.join(core.SPEC, module + ".cfg"), tmp, {"TRACE": trace}, heap="2200m")
        st = stats(out)
        states = [states[0] + st[0], states[1] + st[1]]
        bad += parse_bad(out)
        m = re.findall(r"^/\\ l = (\d+)$", out, re.M)
        if rc == 0 or not m or attempt == 5:
            break
        at = int(m[-1]) - 1
        cid = json.loads(lines[at])["id"]
        bad.append({"id": cid, "clause": "the specification cannot explain this call: " + tlc_reason(out)})
        i = at
        while i < len(lines) and json.loads(lines[i])["id"] == cid:
            i += 1
        lines = lines[i:]
        with open(trace, "w") as f:
            f.write("\n".join(lines) + ("\n" if lines else ""))
        if not lines:
            rc, out = 0, "Model checking completed. No error has been found"
            break
    return rc, out, bad, states


def tlc_reason(out):
    i = out.find("The exception was")
    return " ".join(out[i : i + 300].split()) if i >= 0 else " ".join(out[-300:].split())


def main():
    prop, shard, nshards, tmp = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    core.TMP = tmp
    core.import_ptwt()
    mod = importlib.import_module(f".props.{prop.lower()}", "harness")
    tier, sd = core.tier(), core.seed()
    trace = os.path.join(tmp, f"trace-{shard}.ndjson")
    t0 = time.time()
    n = 0
    samples = []
    classes = {}
    ids = set()
    with open(trace, "w") as f, open(os.path.join(tmp, f"cases-{shard}.ndjson"), "w") as fc:
        for case in shard_cases(mod, shard, nshards, tier, sd):
            fc.write(json.dumps(case) + "\n")
            fc.flush()
            ev = run_case(mod, case)
            for e in ev if isinstance(ev, list) else [ev]:
                f.write(json.dumps(e) + "\n")
                n_ev = e
            ids.add(case["id"])
            n += 1
            key = mod.classify(case) if hasattr(mod, "classify") else case.get("op", "?")
            classes[str(key)] = classes.get(str(key), 0) + 1
            if len(samples) < 1 and n > 3:
                samples.append({"case": {k: v for k, v in case.items()}, "event_out": str(n_ev.get("out"))[:400]})
    t1 = time.time()
    module = getattr(mod, "TRACE_MODULE", "PtwtTrace")
    rc, out, bad, states = judge(module, trace, tmp)
    t2 = time.time()
    ok = rc == 0 and "Model checking completed. No error has been found" in out
    res = {
        "shard": shard,
        "cases": n,
        "bad": bad,
        "ok": ok,
        "classes": classes,
        "samples": samples,
        "states": states,
        "t_exec": t1 - t0,
        "t_tlc": t2 - t1,
    }
    if not ok:
        res["tlc_tail"] = out[:200] + out[out.find("Error:"):][:6000]
    elif os.environ.get("KEEP_TRACES") != "1":
        os.unlink(trace)
    core.dump(os.path.join(tmp, f"result-{shard}.json"), res)


if __name__ == "__main__":
    main()
