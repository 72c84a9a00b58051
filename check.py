#!/usr/bin/env python3
"""Decides one property: builds the code under test from /repo's working tree, runs the
property's workloads under its monitors and sanitizers, writes evidence/<id>.json.

  check.py ID [--tier quick|thorough] [--seed N] [--case K] [--cases N]
  check.py --setup

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: it did not.
Exit 2: no answer (build error, nothing observed...).
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF / "lib"))
import build  # noqa: E402
import registry  # noqa: E402

FINDINGS = VERIF / "known_findings.txt"
HANG = 97


class NoAnswer(Exception):
    pass


def findings(prop):
    """known: property=<id> key=<key> input=<substring> :: <what fails>"""
    out = []
    if FINDINGS.exists():
        for line in FINDINGS.read_text().splitlines():
            m = re.match(r"known: property=(\S+) key=(\S+) input=(.*?) :: (.*)$", line)
            if m and m.group(1) == prop:
                out.append({"key": m.group(2), "input": m.group(3), "what": m.group(4), "seen": False})
    return out


def sanitizer_env(scratch):
    env = dict(os.environ)
    env.update({
        "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=0:"
                        "hard_rss_limit_mb=3500:detect_stack_use_after_return=1:strict_init_order=1",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
        "HOME": str(scratch), "TMPDIR": str(scratch), "XDG_RUNTIME_DIR": str(scratch),
        "QT_QPA_PLATFORM": "offscreen", "LC_ALL": "C.UTF-8", "NO_COLOR": "1",
    })
    return env


def crash_key(stderr, rc):
    m = re.search(r"SUMMARY: (\w+Sanitizer): (\S+)(.*)", stderr)
    if m:
        where = re.findall(r"in (\S+)", m.group(3))
        return f"crash:{m.group(2)}" + (f":{where[-1]}" if where else "")
    m = re.search(r"runtime error: (.*)", stderr)
    if m:
        return "crash:undefined-behaviour"
    m = re.search(r"Assertion '(.*?)' failed", stderr)
    if m:
        return "crash:assertion"
    m = re.search(r"terminate called after throwing an instance of '(.*?)'", stderr)
    if m:
        return f"crash:exception:{m.group(1)}"
    return f"crash:rc{rc}"


def run_shard(exe, prop, seed, first, last, step, cpu, work, tag, thorough, extra):
    out = work / f"out-{tag}.json"
    scratch = work / f"scratch-{tag}"
    scratch.mkdir(parents=True, exist_ok=True)
    err = work / f"err-{tag}.txt"
    cmd = [str(exe), "--prop", prop, "--seed", str(seed), "--from", str(first), "--to", str(last), "--step", str(step),
           "--cpu", str(cpu), "--out", str(out), "--scratch", str(scratch), *extra]
    if thorough:
        cmd.append("--thorough")
    with open(err, "wb") as e:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=e,
                             env=sanitizer_env(scratch), cwd=scratch)
        rc = p.wait()
    stderr = err.read_bytes()[-200000:].decode("utf-8", "replace")
    progress = Path(str(out) + ".progress")
    at = first
    if progress.exists():
        t = progress.read_text().strip()
        at = int(t) if t else first
    shutil.rmtree(scratch, ignore_errors=True)
    return {"rc": rc, "out": out, "stderr": stderr, "at": at, "cmd": cmd}


def run_native(spec, prop, seed, tier, work, case=None, cases=None):
    """A C++ harness, sharded; returns merged observations and violations."""
    built = build.build_spec([spec])
    v = spec.get("variant", "asan")
    exe = built[(spec["harness"], v, 1 if spec.get("windows") else 0)]
    n = cases or spec[tier]
    jobs = spec.get("jobs", build.JOBS)
    cpu = spec.get("cpu", 60)
    thorough = tier == "thorough"
    extra = spec.get("args", [])
    if spec.get("app"):
        os.environ["VF_APP"] = str(built[("", v, 1)])
    merged = {"counters": {}, "distinct": set(), "samples": [], "violations": []}
    if case is not None:
        shards = [(case, case + 1, 1)]
    else:
        shards = [(k, n, jobs) for k in range(min(jobs, n))]

    def one(i):
        first, last, step = shards[i]
        part = 0
        while first < last:
            r = run_shard(exe, prop, seed, first, last, step, cpu, work, f"{i}.{part}", thorough, extra)
            part += 1
            if r["rc"] == 0:
                yield "ok", json.loads(r["out"].read_text())
                return
            if r["rc"] == 3:
                raise NoAnswer(f"{prop}: harness error: {r['stderr'][-2000:]}")
            at = r["at"]
            if r["rc"] == HANG:
                # Alone, with more time, before believing it.
                again = run_shard(exe, prop, seed, at, at + 1, 1, cpu * 3, work, f"{i}.{part}h", thorough, extra)
                if again["rc"] == HANG:
                    yield "bad", {"index": at, "key": "hang", "message": f"no end within {cpu * 3} s of CPU time", "input": ""}
                    return  # Others would take as long.
                elif again["rc"] == 0:
                    yield "ok", json.loads(again["out"].read_text())
                else:
                    yield "bad", {"index": at, "key": crash_key(again["stderr"], again["rc"]), "message": again["stderr"][-6000:], "input": ""}
                    return
                first = at + step
                continue
            if r["rc"] == -9 or "rss limit" in r["stderr"]:
                # Out of memory: alone, before believing it.
                again = run_shard(exe, prop, seed, at, at + 1, 1, cpu, work, f"{i}.{part}k", thorough, extra)
                if again["rc"] == 0:
                    yield "ok", json.loads(again["out"].read_text())
                    first = at + step
                    continue
                r = again
            yield "bad", {"index": at, "key": crash_key(r["stderr"], r["rc"]), "message": r["stderr"][-6000:], "input": ""}
            return

    with ThreadPoolExecutor(len(shards)) as ex:
        for results in ex.map(lambda i: list(one(i)), range(len(shards))):
            for kind, d in results:
                if kind == "ok":
                    for k, v in d["counters"].items():
                        merged["counters"][k] = merged["counters"].get(k, 0) + v
                    merged["distinct"].update(d["distinct"])
                    merged["samples"] += d["samples"][:1]
                    merged["violations"] += d["violations"]
                else:
                    merged["violations"].append(d)
    merged["exe"] = str(exe)
    return merged


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    a = ap.parse_args()

    if a.setup:
        for exe in build.build_spec(registry.PROPS.values()).values():
            print("built", exe)
        return 0

    spec = registry.PROPS[a.prop]
    start = time.time()
    work = Path(tempfile.mkdtemp(prefix=f"vf-{a.prop}-"))
    try:
        if "python" in spec:
            import importlib
            mod = importlib.import_module(spec["python"])
            merged = mod.run(a.prop, spec, a.seed, a.tier, work, a.case, sanitizer_env, a.cases)
        else:
            merged = run_native(spec, a.prop, a.seed, a.tier, work, a.case, a.cases)
            for more in spec.get("also", []):
                import importlib
                m2 = importlib.import_module(more).run(a.prop, spec, a.seed, a.tier, work, a.case, sanitizer_env)
                for k, v in m2["counters"].items():
                    merged["counters"][k] = merged["counters"].get(k, 0) + v
                merged["distinct"].update(m2["distinct"])
                merged["samples"] += m2["samples"]
                merged["violations"] += m2["violations"]
    finally:
        shutil.rmtree(work, ignore_errors=True)

    if a.case is None and a.cases is None:
        for k in spec.get("needs", []):
            if not merged["counters"].get(k) and not merged["violations"]:
                raise NoAnswer(f"{a.prop}: nothing observed for {k}: {merged['counters']}")

    known = findings(a.prop)
    reported = []
    for v in merged["violations"]:
        for k in known:
            if v["key"] == k["key"] and k["input"] in v["input"]:
                k["seen"] = True
                break
        else:
            reported.append(v)

    wall = time.time() - start
    samples = merged["samples"][:4]
    evidence = {
        "property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": merged["counters"].get("cases", 0),
            "distinct_nontrivial": len(merged["distinct"]),
            "rule": spec["rule"],
            "samples": samples,
            "observed": {k: v for k, v in sorted(merged["counters"].items()) if k != "cases"},
            "build": spec.get("build_note", "g++ -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS, from /repo's working tree"),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    if a.case is None and a.cases is None:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{a.prop}.json").write_text(json.dumps(evidence, indent=1) + "\n")

    for k in known:
        if k["seen"]:
            print(f"KNOWN-FINDING: property={a.prop} {k['what']}")
    print(f"{a.prop} {a.tier} seed {a.seed}: {merged['counters'].get('cases', 0)} cases, "
          f"{len(merged['distinct'])} distinct, {merged['counters'].get('assertions', 0)} assertions, {wall:.1f} s")
    if reported:
        (VERIF / "replay").mkdir(exist_ok=True)
        path = VERIF / "replay" / f"{a.prop}-{a.tier}-{a.seed}.txt"
        with open(path, "w") as f:
            for v in reported[:20]:
                f.write(f"case {v['index']} [{v['key']}] {v['message']}\n{v['input']}\n"
                        f"replay: python3 /verif/check.py {a.prop} --tier {a.tier} --seed {a.seed} --case {v['index']}\n\n")
        for v in reported[:3]:
            print(f"  case {v['index']} [{v['key']}] {v['message'][:600]}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (NoAnswer, build.BuildError) as e:
        print(f"no answer: {e}", file=sys.stderr)
        sys.exit(2)
