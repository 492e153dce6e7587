"""Drive the gendlopen executable built from the current tree as a black box, inside the
scratch directory of the run.  Only ordinary files below that directory are ever named."""
import os, re, subprocess, threading, itertools
from concurrent.futures import ThreadPoolExecutor
from .. import build
from ..runner import Bounded

TOK = re.compile(r"[A-Za-z0-9_]+|\.\.\.|\S")
_n = itertools.count()
_lock = threading.Lock()


class Res:
    def __init__(self, rc, out, err, cmd, timeout=False):
        self.rc, self.out, self.err, self.cmd, self.timeout = rc, out, err, cmd, timeout


class Tool:
    def __init__(self, ctx, variant="plain"):
        with _lock:
            self.exe = build.build_gendlopen(variant)
        self.root = os.path.dirname(ctx.path("bb", "%d" % next(_n), "x"))
        os.makedirs(self.root, exist_ok=True)
        self.env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "TZ": "UTC",
                    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=77"}

    def dir(self):
        d = os.path.join(self.root, "d%d" % next(_n))
        os.makedirs(d)
        return d

    def file(self, name, text):
        p = os.path.join(self.root, name)
        with _lock:
            if not os.path.exists(p):
                with open(p, "w", newline="") as f:
                    f.write(text)
        return p

    def run(self, args, stdin=b"", cwd=None, timeout=30, stdout=None, exe=None, preexec=None):
        if isinstance(stdin, str):
            stdin = stdin.encode("utf-8", "surrogateescape")
        try:
            p = subprocess.run([exe or self.exe] + list(args), input=stdin, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE,
                               cwd=cwd or self.root, env=self.env, timeout=timeout, preexec_fn=preexec)
        except subprocess.TimeoutExpired:
            return Res(None, "", "timeout", args, True)
        return Res(p.returncode, (p.stdout or b"").decode("utf-8", "surrogateescape"), p.stderr.decode("utf-8", "surrogateescape"), list(args))


def toks(s):
    return TOK.findall(s)


def pmap(fn, items, n=8):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


class Run(Bounded):
    """a bounded run that collects failing inputs"""
    def __init__(self, name, rule):
        super().__init__(name, rule)
        self.lock = threading.Lock()
        self.seen = set()

    def ok(self, sample=None, n=1):
        with self.lock:
            self.evaluations += n
            if sample is not None:
                h = hash(sample)
                if h not in self.seen:
                    self.seen.add(h)
                    self.distinct += 1
                    if len(self.samples) < 3:
                        self.samples.append(str(sample)[:300])

    def fail(self, key, what, **kw):
        with self.lock:
            if len(self.failures) < 25:
                d = {"key": key, "what": what}
                d.update({k: (v if len(str(v)) < 6000 else str(v)[:6000]) for k, v in kw.items()})
                self.failures.append(d)
