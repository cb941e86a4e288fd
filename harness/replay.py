"""Re-execute a recorded case:  python3 -m harness.replay replays/<file>.json"""

import importlib
import json
import os
import sys
import tempfile


def main():
    if sys.executable != "/opt/venv/bin/python" and not os.environ.get("REPLAYED"):
        os.environ["REPLAYED"] = "1"
        os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-m", "harness.replay"] + sys.argv[1:])
    from . import core, worker

    rec = json.load(open(sys.argv[1]))
    core.import_ptwt()
    mod = importlib.import_module(f".props.{rec['property'].lower()}", "harness")
    with tempfile.TemporaryDirectory() as tmp:
        ev = worker.run_case(mod, rec["case"])
        evs = ev if isinstance(ev, list) else [ev]
        path = os.path.join(tmp, "trace.ndjson")
        with open(path, "w") as f:
            for e in evs:
                f.write(json.dumps(e) + "\n")
        for e in evs if "-v" in sys.argv else []:
            print(json.dumps(e)[:400])
        module = getattr(mod, "TRACE_MODULE", "PtwtTrace")
        rc, out = worker.run_tlc(module, os.path.join(core.SPEC, module + ".cfg"), tmp, {"TRACE": path})
        bad = worker.parse_bad(out)
        print("clauses violated:", bad or "none")
        if rc:
            print(out[-2000:])
        sys.exit(1 if bad or rc else 0)


if __name__ == "__main__":
    main()
