"""Drives /repo's Python module (a copy of it, given as --module) with a recording model and
recording programs, as an unprivileged user in a scratch directory, and judges the log of events.

Every case is a function of (seed, index)."""
import argparse
import contextlib
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import types
from pathlib import Path

ap = argparse.ArgumentParser()
for o in ("module", "app", "scratch", "out"):
    ap.add_argument("--" + o)
for o in ("seed", "from", "to", "step", "uid"):
    ap.add_argument("--" + o, type=int)
A = ap.parse_args()
SCRATCH = Path(A.scratch).resolve()
REAL = {"rmtree": shutil.rmtree, "run": subprocess.run}

# Whatever the module does, it does it as a user who owns nothing but the scratch directory.
if A.uid and os.geteuid() == 0:
    os.setgroups([])
    os.setgid(A.uid)
    os.setuid(A.uid)
os.chdir(SCRATCH)
os.umask(0o022)

LOG = []


class openEMS:  # noqa: N801
    """The model: it only writes what it is told to hold, and remembers what it reads."""

    def __init__(self, content):
        self.content = content

    def Write2XML(self, file):
        LOG.append(("write", str(file)))
        Path(file).write_text(self.content)

    def ReadFromXML(self, file):
        LOG.append(("read", str(file), Path(file).read_text()))


mod = types.ModuleType("openEMS")
mod.openEMS = openEMS
sys.modules["openEMS"] = mod
source = Path(A.module).read_text()
api = types.ModuleType("openemsh")
exec(compile(source, A.module, "exec"), api.__dict__)  # noqa: S102

counters = {}
distinct = set()
samples = []
violations = []


def count(k, n=1):
    counters[k] = counters.get(k, 0) + n


class Broken(Exception):
    pass


def check(cond, key, message):
    count("assertions")
    if not cond:
        raise Broken(key, message)


# A program that tells what it was given, then does what it was told to the file.
STAND_IN = """#!/usr/bin/python3 -S
import os, sys, json
d = os.environ["VF_DIR"]
with open(d + "/calls", "a") as f:
    want = os.environ["VF_FILE"]
    content = open(want).read() if os.path.exists(want) else None
    f.write(json.dumps({"argv": [os.path.basename(sys.argv[0])] + sys.argv[1:], "content": content, "cwd": os.getcwd()}) + "\\n")
sys.stdout.write("told on output\\n"); sys.stdout.flush()
sys.stderr.write("told on error\\n"); sys.stderr.flush()
if os.environ.get("VF_NEW") is not None:
    open(want, "w").write(os.environ["VF_NEW"])
rc = int(os.environ["VF_RC"])
if rc < 0:
    os.kill(os.getpid(), -rc)
sys.exit(rc)
"""


def document(rnd):
    boxes = []
    for i in range(rnd.randint(1, 4)):
        a = [rnd.randint(-20, 20) for _ in range(3)]
        b = [x + rnd.randint(1, 15) for x in a]
        if rnd.random() < .3:
            b[2] = a[2]
        boxes.append(f'<Metal Name="m{i}"><Primitives><Box Priority="{rnd.randint(0, 9)}"><P1 X="{a[0]}" Y="{a[1]}" Z="{a[2]}"/>'
                     f'<P2 X="{b[0]}" Y="{b[1]}" Z="{b[2]}"/></Box></Primitives></Metal>')
    return ('<?xml version="1.0" encoding="UTF-8"?>\n<openEMS><ContinuousStructure CoordSystem="0">'
            '<RectilinearGrid DeltaUnit="1" CoordSystem="0"><XLines/><YLines/><ZLines/></RectilinearGrid>'
            '<BackgroundMaterial Epsilon="1" Mue="1" Kappa="0" Sigma="0"/><ParameterSet/><Properties>'
            + "".join(boxes) + "</Properties></ContinuousStructure></openEMS>\n")


@contextlib.contextmanager
def outputs(into):
    """What reaches the two outputs of this process, as files."""
    sys.stdout.flush()
    sys.stderr.flush()
    keep = os.dup(1), os.dup(2)
    f = open(into, "wb")
    os.dup2(f.fileno(), 1)
    os.dup2(f.fileno(), 2)
    try:
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(keep[0], 1)
        os.dup2(keep[1], 2)
        os.close(keep[0])
        os.close(keep[1])
        f.close()


def picture(root):
    """Every path under root, with its kind and content."""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = Path(d) / n
            r = str(p.relative_to(root))
            if p.is_symlink():
                out[r] = ("link", os.readlink(p))
            elif p.is_dir():
                out[r] = ("dir",)
            else:
                out[r] = ("file", p.read_bytes())
    return out


def file_name(rnd):
    return rnd.choice(["model.csx", "a b.xml", "é.csx", "it's.csx", "$HOME.csx", "a;b.csx", "sub/model.csx", "*.csx", " lead and trail "])


def programs(dir, rnd, real):
    bin = dir / "bin"
    bin.mkdir()
    for n in ("openemsh", "AppCSXCAD"):
        if n == "openemsh" and real:
            os.symlink(A.app, bin / n)
        else:
            (bin / n).write_text(STAND_IN)
            (bin / n).chmod(0o755)
    return bin


def calls(dir):
    f = dir / "calls"
    return [json.loads(x) for x in f.read_text().splitlines()] if f.exists() else []


def one_run(dir, rnd, story):
    """A few calls in a row, on the same or other files."""
    real = rnd.random() < .12
    bin = programs(dir, rnd, real)
    (dir / "work" / "sub").mkdir(parents=True)
    os.chdir(dir / "work")
    os.environ["VF_DIR"] = str(dir)
    os.environ["PATH"] = f"{bin}:/usr/bin:/bin"
    for k in range(rnd.randint(1, 3)):
        name = file_name(rnd)
        file = str(dir / "work" / name) if rnd.random() < .5 else name
        path = dir / "work" / name
        viewer = not real and rnd.random() < .45
        content = document(rnd)
        new = document(rnd) if rnd.random() < .8 else None
        rc = rnd.choice([0, 0, 0, 0, 1, 2, 77, -9, -15]) if not real else 0
        missing = not real and rnd.random() < .08
        os.environ["VF_FILE"] = str(path)
        os.environ["VF_RC"] = str(rc)
        os.environ.pop("VF_NEW", None)
        if new is not None:
            os.environ["VF_NEW"] = new
        (dir / "calls").unlink(missing_ok=True)
        if path.exists() and rnd.random() < .5:
            path.unlink()
        others = picture(dir / "work")
        others.pop(name, None)
        moved = bin / ("AppCSXCAD" if viewer else "openemsh")
        if missing:
            os.rename(moved, str(moved) + ".away")
        LOG.clear()
        count("cases")
        model = openEMS(content)
        raised = None
        if viewer:
            edit, disc = rnd.random() < .5, rnd.random() < .5
            kw = {}
            if edit or rnd.random() < .5:
                kw["edit"] = edit
            if disc or rnd.random() < .5:
                kw["render_disc_material"] = disc
            call = lambda: api.run_appcsxcad(model, file, **kw)  # noqa: E731
            args = None
            story.append(f"run_appcsxcad({file!r}, {kw}) rc={rc} missing={missing} rewrites={new is not None}")
        else:
            if real:
                forced = rnd.random() < .7
                args = ["-v"] if rnd.random() < .5 else []
                if rnd.random() < .5:
                    args += ["--dmax", str(rnd.randint(1, 9))]
                if rnd.random() < .5:
                    args += ["--save-oemsh-params"]
                if forced:
                    args.insert(rnd.randint(0, len(args)) if not args or "--dmax" not in args else 0, "--force")
                given = list(args)
            else:
                args = rnd.choice([None, [], ["-f"], ["-v", "--force", "--dmax", "3"], ["-G", "a b", "$x", "", "--no-x"]])
                given = list(args) if args is not None else None
            call = (lambda: api.run_openemsh(model, file)) if args is None else (lambda: api.run_openemsh(model, file, args))
            story.append(f"run_openemsh({file!r}, {args}) rc={rc} missing={missing} rewrites={new is not None} real={real}")
        with outputs(dir / "told"):
            try:
                call()
            except Exception as e:  # noqa: BLE001
                raised = e
        if missing:
            os.rename(str(moved) + ".away", moved)
        told = (dir / "told").read_bytes().decode("utf-8", "replace")
        after = picture(dir / "work")
        result = after.pop(name, (None, b""))[1].decode()
        check(others == after, "other-files", f"other files changed: {sorted(set(others.items()) ^ set(after.items()))}")
        check(LOG and LOG[0] == ("write", file), "not-written", f"the model is written first, where asked: {LOG}")
        check(not viewer or "args" not in kw, "internal", "")
        if missing:
            count("missing programs")
            check(raised is not None, "missing-silent", "a program that is not there goes unnoticed")
            check(len(LOG) == 1, "read-back", f"read back although the program is not there: {LOG}")
            continue
        if real:
            count("real programs")
            # The same work by hand, on a copy.
            copy = dir / "copy.csx"
            copy.write_text(content)
            r = REAL["run"]([A.app, "-i", str(copy), *given], capture_output=True, text=True)
            if r.returncode == 0:
                count("real meshes")
                check(raised is None, "raised", f"raises although the program works: {raised}")
                check(result == copy.read_text(), "other-result", "the file is not what the program makes by itself")
                check(LOG[1:] == [("read", file, result)], "not-read-back", f"the mesh is read back once, at the end: {[x[:2] for x in LOG]}")
            else:
                count("real refusals")
                check(raised is not None, "failure-silent", "the program's failure goes unnoticed")
                check(len(LOG) == 1, "read-back", "read back after a failure")
                check(result == content, "other-result", "the file changed although the program refused")
            distinct.add(hashlib.sha1((content + str(given)).encode()).hexdigest()[:12])
            continue
        did = calls(dir)
        check(len(did) == 1, "runs", f"the program is run {len(did)} times")
        argv = did[0]["argv"]
        check(did[0]["content"] == content, "stale", "the program is run before the model is written")
        if viewer:
            count("viewer runs")
            check(argv[0] == "AppCSXCAD" and sorted(argv[1:]) == sorted([file] + (["--RenderDiscMaterial"] if disc else []) + ([] if edit else ["--disableEdit"])),
                  "viewer-command", f"{argv} for edit={edit} render_disc_material={disc}")
            check(raised is None, "viewer-raises", f"{raised}")
            if edit:
                count("viewer editions")
            check(LOG[1:] == ([("read", file, new if new is not None else content)] if edit else []), "viewer-read-back",
                  f"edit={edit}: {[x[:2] for x in LOG]}")
        else:
            count("runs")
            rest = list(argv[1:])
            at = [i for i, a in enumerate(rest) if a in ("-i", "--input") and rest[i + 1:i + 2] == [file]]
            check(argv[0] == "openemsh" and at, "command", f"{argv}: no -i {file!r}")
            del rest[at[0]:at[0] + 2]
            check(rest == (["-Gv"] if given is None else given), "command", f"{argv} for {given}")
            check(args == given, "arguments-changed", f"{args} was {given}")
            if given is None:
                count("default arguments")
            if rc == 0:
                count("successes")
                check(raised is None, "raised", f"{raised}")
                check(LOG[1:] == [("read", file, new if new is not None else content)], "not-read-back", f"{[x[:2] for x in LOG]}")
            else:
                count("failures")
                check(isinstance(raised, subprocess.CalledProcessError), "failure-silent", f"exit status {rc} gives {raised!r}")
                check(len(LOG) == 1, "read-back", f"read back although the program failed: {[x[:2] for x in LOG]}")
        check("told on output" in told and "told on error" in told, "untold", f"what the program tells is not shown: {told!r}")
        distinct.add(hashlib.sha1(f"{file[-6:]}{viewer}{rc}{new is None}{content}".encode()).hexdigest()[:12])


def grow(dir, rnd, depth, outside):
    dir.mkdir(exist_ok=True)
    for i in range(rnd.randint(0, 4)):
        p = dir / rnd.choice([f"f{i}", f"et_{i}.h5", f".hidden{i}", f"é{i} x"])
        if p.exists() or p.is_symlink():
            continue
        k = rnd.random()
        if k < .5:
            p.write_bytes(rnd.randbytes(rnd.randint(0, 9)))
            if rnd.random() < .2:
                p.chmod(0o444)
        elif k < .75 and depth:
            grow(p, rnd, depth - 1, outside)
        elif k < .9:
            os.symlink(rnd.choice([outside, outside / "kept", "nowhere"]), p)


def one_path(dir, rnd, story):
    outside = dir / "outside"
    outside.mkdir()
    (outside / "kept").write_text("kept")
    base = dir / "base"
    grow(base, rnd, 2, outside)
    name = rnd.choice(["sim", "sim out", "-sim", "é", "sim.d"])
    there = rnd.random() < .75
    sim = base / name
    if sim.exists() or sim.is_symlink():
        return
    if there:
        grow(sim, rnd, 2, outside)
    os.chdir(base if rnd.random() < .5 else dir)
    asked = str(sim) if rnd.random() < .5 else os.path.relpath(sim)
    if rnd.random() < .3:
        asked += "/"
    if rnd.random() < .2:
        asked = Path(asked)
    how = rnd.choice(["no", "default", "yes", "yes"])
    before = picture(dir)
    story.append(f"ensure_sim_path({asked!r}, cleanup {how}) there={there} {sorted(before)}")
    for _ in range(rnd.randint(1, 2)):
        count("cases")
        try:
            api.ensure_sim_path(asked) if how == "default" else api.ensure_sim_path(asked, cleanup=how == "yes") if rnd.random() < .5 else api.ensure_sim_path(asked, how == "yes")
        except Exception as e:  # noqa: BLE001
            check(False, "path-raises", f"{e!r}")
    after = picture(dir)
    pre = f"base/{name}/"
    want = {k: v for k, v in before.items() if how != "yes" or not k.startswith(pre)}
    want[f"base/{name}"] = ("dir",)
    diff = sorted(set(want.items()) ^ set(after.items()))
    check(not diff, "path", f"differ: {diff}")
    count(f"paths {'there' if there else 'new'} {'cleaned' if how == 'yes' else 'kept'}")
    distinct.add(hashlib.sha1(repr(sorted(before.items())).encode() + how.encode()).hexdigest()[:12])


for index in range(getattr(A, "from"), A.to, A.step):
    rnd = random.Random(f"{A.seed}:{index}")
    dir = SCRATCH / f"c{index}"
    dir.mkdir()
    os.chdir(dir)
    story = []
    try:
        (one_path if rnd.random() < .4 else one_run)(dir, rnd, story)
    except Broken as e:
        violations.append({"index": index, "key": e.args[0], "message": e.args[1][:2000], "input": "\n".join(story)})
    if len(samples) < 2:
        samples.append({"case": index, "input": "\n".join(story)[:600]})
    os.chdir(SCRATCH)
    REAL["rmtree"](dir, ignore_errors=True)

Path(A.out).write_text(json.dumps({"counters": counters, "distinct": sorted(distinct), "samples": samples, "violations": violations}))
