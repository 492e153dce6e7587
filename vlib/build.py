"""Rebuild gendlopen from /repo's working tree, outside /repo.

A content-addressed object cache under $VERIF_CACHE (default: a per-run
temporary directory) makes repeated runs cheap while developing; a check never
needs it to exist.
"""
import hashlib, os, re, shutil, subprocess, tempfile, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

_scratch = None


def scratch():
    """private scratch directory of this run, removed at exit"""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="gdo-verif-")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid and not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(clean)
    return _scratch


def cache_dir():
    d = os.environ.get("VERIF_CACHE")
    if not d:
        d = os.path.join(scratch(), "cache")
    os.makedirs(d, exist_ok=True)
    return d


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        m.update(p)
        m.update(b"\0")
    return m.hexdigest()[:24]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def source_files():
    txt = _read(os.path.join(SRC, "meson.build")).decode()
    m = re.search(r"gendlopen_src\s*=\s*files\((.*?)\)", txt, re.S)
    files = re.findall(r"'([^']+)'", m.group(1)) if m else []
    return [f for f in files if f.endswith((".cpp", ".c"))]


def headers_hash():
    hs = []
    for root, dirs, files in os.walk(SRC):
        dirs[:] = [d for d in dirs if d != "templates"]
        for f in sorted(files):
            if f.endswith((".h", ".hpp")):
                hs.append(f)
                hs.append(_read(os.path.join(root, f)))
    return _h(*hs)


def templates_hash():
    hs = []
    d = os.path.join(SRC, "templates")
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            hs += [f, _read(p)]
    return _h(*hs)


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def _atomic(path, fn):
    if os.path.exists(path):
        return path
    tmp = path + ".tmp%d.%d" % (os.getpid(), __import__("threading").get_ident())
    fn(tmp)
    os.rename(tmp, path)
    return path


def cxx_std():
    return "-std=gnu++23"


def gen_templates_tool():
    c = cache_dir()
    src = os.path.join(SRC, "gen_templates_data.c")
    return _atomic(os.path.join(c, "gtd-" + _h(_read(src), headers_hash())),
                   lambda t: _run(["gcc", "-O1", "-I" + SRC, "-o", t, src]))


def templates_data():
    c = cache_dir()
    tool = gen_templates_tool()
    key = _h(templates_hash(), os.path.basename(tool))

    def mk(t):
        _run([tool, os.path.join(SRC, "templates"), t], timeout=60)
    return _atomic(os.path.join(c, "templates_data-%s.cpp" % key), mk)


VARIANTS = {
    # name: (compile flags, link flags)
    "plain": (["-O1", "-D_GLIBCXX_ASSERTIONS"], []),
    "asan": (["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
              "-fno-sanitize-recover=undefined"],
             ["-fsanitize=address,undefined"]),
}


def build_gendlopen(variant="plain"):
    """-> path of the gendlopen executable built from the current tree"""
    cflags, lflags = VARIANTS[variant]
    c = cache_dir()
    hh = headers_hash()
    td = templates_data()
    jobs = [(os.path.join(SRC, f)) for f in source_files()] + [td]

    def comp(src):
        key = _h(_read(src), hh, os.path.basename(src), variant, " ".join(cflags))
        out = os.path.join(c, "o-%s-%s.o" % (os.path.basename(src).replace(".", "_"), key))
        if src.endswith(".c"):
            cmd = ["gcc"]
        else:
            cmd = ["g++", cxx_std()]
        return _atomic(out, lambda t: _run(
            cmd + cflags + ["-w", "-D_FILE_OFFSET_BITS=64", "-DHAVE_PROGRAM_INVOCATION_SHORT_NAME",
                            "-I" + SRC, "-c", src, "-o", t], timeout=600))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(comp, jobs))
    exe = os.path.join(c, "gendlopen-" + _h(variant, *[os.path.basename(o) for o in objs]))
    return _atomic(exe, lambda t: _run(["g++"] + objs + lflags + ["-o", t]))


def repo_fingerprint():
    hs = []
    for root, dirs, files in os.walk(SRC):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            hs += [os.path.relpath(p, SRC), _read(p)]
    return _h(*hs)


if __name__ == "__main__":
    import sys, time
    t = time.time()
    print(build_gendlopen(*(sys.argv[1:] or ["plain"])), time.time() - t)
    os.environ["VERIF_KEEP"] = "1"
