"""Builds the code under test from /repo's working tree, with sanitizers, for the monitors.

Objects are cached under /verif/build (git-ignored) by a hash of everything they can
depend on (the source, every header of the repository and of the harness, the flags),
never by timestamps: a changed tree is always rebuilt.
"""
import hashlib
import os
import re
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / "build"
SRC = REPO / "src"
CXX = "/usr/bin/g++-14" if os.path.exists("/usr/bin/g++-14") else "g++"
JOBS = os.cpu_count() or 4

COMMON = ["-std=c++23", "-D_GLIBCXX_USE_TBB_PAR_BACKEND=0", "-pipe"]
VARIANTS = {
    # The deciding build: memory and undefined-behaviour errors end the run, the
    # standard library checks its preconditions.
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    # Same monitors without sanitizers: for volume.
    "plain": ["-O2", "-g1", "-D_GLIBCXX_ASSERTIONS"],
}


class BuildError(Exception):
    pass


def _hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(str(f).encode())
        h.update(b"\0")
        h.update(Path(f).read_bytes())
        h.update(b"\0")
    return h.hexdigest()


def repo_headers():
    return [p for p in SRC.rglob("*") if p.suffix in (".hpp", ".h", ".hh", ".ipp", ".tpp", ".inl") and p.is_file()]


def cmake_sources(target):
    """The source list of a target of the repository, read from its own CMakeLists.txt."""
    text = (SRC / "CMakeLists.txt").read_text()
    out = []
    for m in re.finditer(r"target_sources\(\s*" + re.escape(target) + r"\s(.*?)\n\s*\)", text, re.S):
        for s in re.findall(r'"([^"]+)"', m.group(1)):
            s = s.replace("${CMAKE_CURRENT_SOURCE_DIR}", str(SRC))
            if "${" in s:
                continue
            out.append(Path(s))
    return out


def lib_sources():
    src = [p for p in cmake_sources("openemsh") if p.suffix == ".cpp"]
    if not src:
        raise BuildError("cannot read the library's source list")
    return src


def _compile(src, obj, flags, cwd=None):
    obj.parent.mkdir(parents=True, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=obj.parent, suffix=".o")
    os.close(fd)
    r = subprocess.run([CXX, *flags, "-c", str(src), "-o", tmp], capture_output=True, text=True, cwd=cwd)
    if r.returncode != 0:
        Path(tmp).unlink(missing_ok=True)
        raise BuildError(f"{src}: {r.stderr[-4000:]}")
    os.replace(tmp, obj)
    return obj


def compile_all(jobs):
    """jobs: list of (src, obj, flags). Compiles what is missing, biggest first."""
    todo = [j for j in jobs if not j[1].exists()]
    todo.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda j: _compile(*j), todo))
    return len(todo)


def objs_for(sources, flags, extra_headers=(), tag=""):
    hh = _hash_files(repo_headers() + list(extra_headers))
    jobs = []
    for s in sources:
        h = hashlib.sha256()
        h.update(hh.encode())
        h.update("\0".join(flags).encode())
        h.update(str(s).encode())
        h.update(Path(s).read_bytes())
        jobs.append((Path(s), BUILD / "obj" / f"{Path(s).stem}-{h.hexdigest()[:24]}.o", flags))
    return jobs


def pugi_flags():
    return ["-lpugixml"]


def _link(name, variant, objs, libs):
    h = hashlib.sha256("\0".join(map(str, objs)).encode()).hexdigest()[:24]
    exe = BUILD / "bin" / f"{name}-{variant}-{h}"
    if not exe.exists():
        exe.parent.mkdir(parents=True, exist_ok=True)
        tmp = exe.with_suffix(f".{os.getpid()}.tmp")
        san = [f for f in VARIANTS[variant] if f.startswith("-fsanitize") or f.startswith("-g")]
        _run([CXX, *san, *objs, "-o", tmp, *pugi_flags(), *libs])
        os.replace(tmp, exe)
    return exe


def _finish(parts):
    compile_all(list({j[1]: j for p in parts for j in p[2]}.values()))
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(lambda p: _link(p[0], p[1], [j[1] for j in p[2]], p[3]), parts))


def harness_part(name, variant="asan"):
    """/verif/harness/<name>.cpp with every library source of the repository."""
    flags = COMMON + VARIANTS[variant] + [f"-I{SRC}"]
    hheaders = list((VERIF / "harness").glob("*.hpp"))
    jobs = objs_for(lib_sources(), flags)
    jobs += objs_for([VERIF / "harness" / f"{name}.cpp"], flags + [f"-I{VERIF / 'harness'}"], hheaders)
    return name, variant, jobs, []


def build_harness(name, variant="asan"):
    return _finish([harness_part(name, variant)])[0]


def _run(cmd):
    r = subprocess.run([str(c) for c in cmd], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(f"{cmd[0]}: {r.stderr[-2000:]}")


def _qt_tool(name):
    for d in ("/usr/lib/qt6/libexec", "/usr/lib/qt6/bin", "/usr/lib/x86_64-linux-gnu/qt6/libexec"):
        if os.path.exists(f"{d}/{name}"):
            return f"{d}/{name}"
    raise BuildError(f"no {name}")


def _pkg(*args):
    return subprocess.run(["pkg-config", *args], capture_output=True, text=True, check=True).stdout.split()


def app_generated():
    """What uic, moc, rcc and configure_file make, in a directory named by what they are made from."""
    ui = sorted(SRC.rglob("*.ui"))
    qrc = sorted(SRC.rglob("*.qrc"))
    moc = [h for h in sorted(repo_headers()) if "Q_OBJECT" in h.read_text()]
    changelog = [SRC / "changelog.hpp.in", REPO / "CHANGELOG"]
    res = []
    for q in qrc:
        res += [(q.parent / f).resolve() for f in re.findall(r"<file[^>]*>([^<]+)</file>", q.read_text())]
    out = BUILD / "gen" / _hash_files(ui + qrc + repo_headers() + changelog + res)[:24]
    if not (out / "done").exists():
        tmp = Path(tempfile.mkdtemp(dir=str(BUILD)))
        for f in ui:
            _run([_qt_tool("uic"), f, "-o", tmp / f"ui_{f.stem}.h"])
        for f in moc:
            _run([_qt_tool("moc"), f"-I{SRC}", *[x for x in _pkg("--cflags", "Qt6Widgets") if x[:2] in ("-I", "-D")], f, "-o", tmp / f"moc_{f.stem}.cpp"])
        for f in qrc:
            _run([_qt_tool("rcc"), f, "-name", f.stem, "-o", tmp / f"qrc_{f.stem}.cpp"])
        (tmp / "changelog.hpp").write_text(changelog[0].read_text().replace("@OEMSH_CHANGELOG@", changelog[1].read_text()))
        (tmp / "done").write_text("")
        out.parent.mkdir(parents=True, exist_ok=True)
        try:
            os.replace(tmp, out)
        except OSError:
            import shutil
            shutil.rmtree(tmp)
    return out


APP_DEFS = ['-DOEMSH_VERSION="1.2.3+vf"', '-DOEMSH_HOMEPAGE="homepage"', '-DOEMSH_FUNDING="funding"',
            '-DOEMSH_BUGREPORT="bugreport"', '-DOEMSH_OEMS_MESHING="meshing"']


def app_part(variant="asan", main=None):
    """The whole application (command line and windows). With main, a harness
    /verif/harness/<main>.cpp takes the place of the application's main()."""
    BUILD.mkdir(exist_ok=True)
    gen = app_generated()
    flags = COMMON + VARIANTS[variant] + [f"-I{SRC}"]
    aflags = flags + [f"-I{gen}", f"-I{VERIF / 'harness' / 'stub'}", "-fPIC", *APP_DEFS, *_pkg("--cflags", "Qt6Widgets", "Qt6Test")]
    src = [p for p in cmake_sources("openemsh_bin") if p.suffix == ".cpp"]
    if not src:
        raise BuildError("cannot read the application's source list")
    gsrc = sorted(gen.glob("*.cpp"))
    stub = list((VERIF / "harness" / "stub").rglob("*.hpp"))
    jobs = objs_for(lib_sources(), flags) + objs_for(gsrc, aflags)
    if main:
        src = [p for p in src if p.name != "main.cpp"]
        jobs += objs_for([VERIF / "harness" / f"{main}.cpp"], aflags + [f"-I{VERIF / 'harness'}"], list((VERIF / "harness").glob("*.hpp")))
    jobs += objs_for(src, aflags, stub)
    return main or "openemsh", variant, jobs, _pkg("--libs", "Qt6Widgets", "Qt6Test")


def build_app(variant="asan", main=None):
    return _finish([app_part(variant, main)])[0]


def build_spec(specs):
    """Everything some properties need, together."""
    parts = {}
    for s in specs:
        v = s.get("variant", "asan")
        if s.get("windows"):
            parts[(s["harness"], v, 1)] = app_part(v, s["harness"])
        elif "harness" in s:
            parts[(s["harness"], v, 0)] = harness_part(s["harness"], v)
        if s.get("app"):
            parts[("", v, 1)] = app_part(v)
    return dict(zip(parts, _finish(list(parts.values()))))


if __name__ == "__main__":
    import time
    t = time.time()
    print(build_harness(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "asan"), f"{time.time()-t:.1f}s")
