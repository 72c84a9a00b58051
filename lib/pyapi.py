"""Runs harness/pyapi_child.py over /repo's Python module, as an unprivileged user, in 8 processes."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import build

UID = 61234


def run(prop, spec, seed, tier, work, case, sanitizer_env, cases=None):
    app = build.build_spec([spec])[("", "asan", 1)]
    n = cases or spec[tier]
    jobs = 1 if case is not None else build.JOBS
    Path(work).chmod(0o755)
    exe = Path(work) / "openemsh-real"
    shutil.copy(app, exe)
    exe.chmod(0o755)
    child = Path(work) / "child.py"
    shutil.copy(build.VERIF / "harness" / "pyapi_child.py", child)
    child.chmod(0o644)
    source = build.REPO / "api" / "python" / "openemsh.py"
    module = Path(work) / "openemsh.py"
    shutil.copy(source, module)
    module.chmod(0o644)
    merged = {"counters": {}, "distinct": set(), "samples": [], "violations": [], "exe": str(source)}

    def one(i):
        first, last, step = (case, case + 1, 1) if case is not None else (i, n, jobs)
        scratch = Path(work) / f"s{i}"
        scratch.mkdir()
        if os.geteuid() == 0:
            os.chown(scratch, UID, UID)
        env = sanitizer_env(scratch)
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONUTF8"] = "1"
        out = scratch / "out.json"
        r = subprocess.run([sys.executable, str(child), "--module", str(module), "--app", str(exe), "--scratch", str(scratch), "--out", str(out),
                            "--seed", str(seed), "--from", str(first), "--to", str(last), "--step", str(step), "--uid", str(UID)],
                           env=env, cwd=scratch, capture_output=True, text=True, timeout=3000)
        if r.returncode:
            return {"counters": {}, "distinct": [], "samples": [],
                    "violations": [{"index": first, "key": "broken-module", "message": r.stderr[-3000:], "input": ""}]}
        d = json.loads(out.read_text())
        shutil.rmtree(scratch, ignore_errors=True)
        return d

    with ThreadPoolExecutor(jobs) as ex:
        for d in ex.map(one, range(jobs)):
            for k, v in d["counters"].items():
                merged["counters"][k] = merged["counters"].get(k, 0) + v
            merged["distinct"].update(d["distinct"])
            merged["samples"] += d["samples"][:1]
            merged["violations"] += d["violations"]
    return merged
