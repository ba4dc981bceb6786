"""Runs the instrumented vegapp on a deck in a scratch directory and records what
was observed: exit code, console, sanitizer reports, files written."""
import os
import re
import shutil
import signal
import subprocess
import tempfile
import threading

import vbuild

SCRATCH_ROOT = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()

# Reports whose cause is the sandbox or the driver and never the product.
_frame = re.compile(r"^\s*#\d+ 0x[0-9a-f]+ (?:in )?(.+?)(?: (/\S+?):(\d+)(?::\d+)?| \(.*\))?$")


class San:
    """One sanitizer report."""

    def __init__(self, kind, where, text):
        self.kind, self.where, self.text = kind, where, text

    @property
    def sig(self):
        return "%s@%s" % (self.kind, self.where)

    def __repr__(self):
        return self.sig


def parse_sanitizer(text):
    """-> [San]; the location is the innermost frame in the product's sources."""
    reps = []
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.search(r"runtime error: (.*)", l)
        a = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", l)
        if not m and not a:
            i += 1
            continue
        kind = ("ubsan:" + re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(1))[:80]) if m else "asan:" + a.group(1)
        j = i + 1
        where = None
        block = [l]
        if m:
            w = re.match(r"(\S+?):(\d+):\d+: runtime", l)
            if w and vbuild.REPO in w.group(1):
                where = os.path.relpath(w.group(1), vbuild.REPO)
        while j < len(lines) and not re.search(r"runtime error: |ERROR: AddressSanitizer", lines[j]) and j < i + 60:
            block.append(lines[j])
            f = _frame.match(lines[j])
            if f and f.group(2) and where is None and f.group(2).startswith(vbuild.REPO + "/"):
                where = "%s(%s)" % (os.path.relpath(f.group(2), vbuild.REPO),
                                    re.sub(r"\(.*", "", f.group(1)))
            j += 1
        reps.append(San(kind, where or "?", "\n".join(block)))
        i = j
    return reps


class Result:
    def __init__(self):
        self.rc = None
        self.console = ""
        self.san = []
        self.timeout = False
        self.dir = None
        self.outdir = None
        self.stem = None

    def path(self, suffix):
        return os.path.join(self.outdir, self.stem + suffix)

    def text(self, suffix):
        p = self.path(suffix)
        if not os.path.exists(p):
            return None
        with open(p, errors="replace") as f:
            return f.read()

    def files(self):
        out = []
        for d, _, fs in os.walk(self.outdir):
            for f in fs:
                out.append(os.path.relpath(os.path.join(d, f), self.outdir))
        return sorted(out)

    def crashed(self):
        return (self.rc is not None and (self.rc < 0 or self.rc == 8)) or bool(
            [s for s in self.san if s.kind.startswith("asan")])

    def summary(self):
        return {"rc": self.rc, "timeout": self.timeout, "san": [s.sig for s in self.san],
                "console": self.console[-1500:]}


class Scratch:
    """A scratch tree removed on exit."""

    def __init__(self, prefix="vv"):
        self.root = tempfile.mkdtemp(prefix=prefix, dir=SCRATCH_ROOT)
        self.n = 0
        self.lock = threading.Lock()

    def sub(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.root, "r%d" % self.n)
        os.mkdir(d)
        return d

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def base_env(d, extra=None):
    env = {"PATH": "/usr/bin:/bin", "HOME": d, "LANG": "C", "LC_ALL": "C", "TMPDIR": d}
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:halt_on_error=1:detect_stack_use_after_return=1:"
                           "allocator_may_return_null=1:hard_rss_limit_mb=3000:log_path=%s/san" % d)
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0:log_path=%s/san" % d
    if extra:
        for k, v in extra.items():
            if k == "ASAN_EXTRA":
                env["ASAN_OPTIONS"] += ":" + v
            else:
                env[k] = v
    return env


def execute(argv, d, timeout=60, env=None, preexec=None, cwd=None, stdin=None):
    r = Result()
    r.dir = d

    def pre():
        os.setsid()
        if preexec:
            preexec()
    with open(os.path.join(d, "console"), "wb") as con:
        p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=con, stderr=subprocess.STDOUT,
                             env=base_env(d, env), cwd=cwd or d, preexec_fn=pre)
        try:
            r.rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            r.timeout = True
            r.rc = None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    with open(os.path.join(d, "console"), errors="replace") as f:
        r.console = f.read(2000000)
    logs = ""
    for f in sorted(os.listdir(d)):
        if f.startswith("san."):
            with open(os.path.join(d, f), errors="replace") as g:
                logs += g.read(400000) + "\n"
    r.san = parse_sanitizer(logs + "\n" + r.console)
    return r


VEGAPP = None


def vegapp():
    global VEGAPP
    if VEGAPP is None:
        VEGAPP = os.path.join(vbuild.build(["vegapp"], "asan"), "vegapp")
    return VEGAPP


def vega(scratch, deck, to="ASTER", fmt="NASTRAN", opts=(), name="m.nas", files=None, timeout=60,
         env=None, preexec=None, outdir="o"):
    """deck: text of the main input; files: other files put beside it."""
    d = scratch.sub()
    inp = os.path.join(d, name)
    with open(inp, "w", newline="") as f:
        f.write(deck)
    for k, v in (files or {}).items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", newline="") as f:
            f.write(v)
    out = os.path.join(d, outdir)
    os.makedirs(out, exist_ok=True)
    argv = [vegapp(), "-o", out] + [o.replace("@D@", d) for o in opts] + [inp, fmt, to]
    r = execute(argv, d, timeout, env, preexec)
    if r.timeout:  # a watchdog is not a verdict: once more, alone and with more time
        r = execute(argv, d, timeout * 2, env, preexec)
    r.outdir = out
    r.stem = os.path.splitext(name)[0]
    return r
