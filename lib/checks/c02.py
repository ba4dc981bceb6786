"""C02: exit status 0 means the whole translation is there; --strict refuses what best effort skips,
and what best effort skips has no other effect."""
import os
import re
import resource
import shutil
import signal

import corpus
import med
import runner
from check import Violation
from checks.c01 import siblings
from checks.c03 import STAMP
from deck import Style

LEVEL = "exploration"
TO = ("ASTER", "SYSTUS", "NASTRAN")


def contents(r, subst):
    out = {}
    for f in r.files():
        p = os.path.join(r.outdir, f)
        if os.path.islink(p) or not os.path.isfile(p):
            out[f] = b"?"
            continue
        if f.endswith(".med"):
            try:
                out[f] = repr(sorted(med.read(p).raw.items())).encode()
            except Exception as e:  # noqa: a truncated mesh
                out[f] = b"unreadable: " + repr(e).encode()
        else:
            with open(p, "rb") as g:
                out[f] = STAMP.sub(b"", g.read().replace(subst.encode(), b"@D@"))
    return out


def source(rng, sh, gens, to):
    if rng.random() < .4:
        rel, fmt, text = rng.choice(sh)
        return text, fmt, siblings(rel), os.path.basename(rel)
    name, g = rng.choice(gens)
    return g(rng, to).text(None, rng), "NASTRAN", None, "m.nas"


UNKNOWN = ["XYZZY", "QWERTY", "CZZZ", "PFOO", "ABCDEFG", "Z1", "MATX9", "LOADZ"]


def unknown_card(rng):
    n = rng.choice(UNKNOWN)
    k = rng.randrange(5)
    if k == 0:
        return [n + "," + ",".join(str(rng.randint(0, 99)) for _ in range(rng.randint(1, 8)))]
    if k == 1:
        return [n + "," + ",".join("%.1f" % rng.uniform(-9, 9) for _ in range(8)) + ",+Q", "+Q," + ",".join(str(rng.randint(1, 9)) for _ in range(rng.randint(1, 8)))]
    if k == 2:
        return [n.ljust(8) + "".join(str(rng.randint(1, 999)).ljust(8) for _ in range(rng.randint(1, 8)))]
    if k == 3:
        return [n.ljust(8) + "".join(str(rng.randint(1, 999)).ljust(8) for _ in range(8)) + "+QQ", "+QQ     " + "".join(str(rng.randint(1, 9)).rjust(8) for _ in range(rng.randint(1, 8)))]
    return [(n + "*").ljust(8) + "".join(str(rng.randint(1, 999)).ljust(16) for _ in range(4)) + "*QQ", "*QQ     " + "".join(str(rng.randint(1, 9)).rjust(16) for _ in range(rng.randint(1, 4)))]


def refuse_files(n):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    return f


def run(ctx):
    ctx.rule = "a case counts when a fault hit a run (or an unknown card was planted) and exit status and files were judged; distinct by deck, output, fault and place"
    sh = [d for d in corpus.shipped(40000)]
    gens = corpus.generators()

    def fail(key, detail, **kw):
        v = Violation(key, detail)
        v.replay = kw
        raise v

    def reference(rng, to):
        text, fmt, files, name = source(rng, sh, gens, to)
        r = ctx.vega(text, to=to, fmt=fmt, files=files, name=name)
        if r.rc != 0:
            return None
        ref = contents(r, r.dir)
        sizes = {f: os.path.getsize(os.path.join(r.outdir, f)) for f in r.files()}
        shutil.rmtree(r.dir, ignore_errors=True)
        return text, fmt, files, name, ref, sizes

    def faults(rng, i):
        to = TO[i % 3]
        x = reference(rng, to)
        if x is None:
            return
        text, fmt, files, name, ref, sizes = x
        kinds = ["limit", "limit", "full", "blocked"]
        for _ in range(3):
            kind = rng.choice(kinds)
            pre, plant = None, None
            targets = [f for f in sorted(ref) if f != name]
            f = rng.choice(targets)
            if kind == "limit":
                n = rng.choice([rng.randint(0, max(sizes.values()) - 1), sizes[f] - 1, sizes[f] - rng.randint(1, min(400, sizes[f])), (sizes[f] // 4096) * 4096])
                n = max(0, min(n, max(sizes.values()) - 1))
                pre = refuse_files(n)
                what = "files limited to %d bytes" % n
            d = ctx.scratch.sub()
            inp = os.path.join(d, name)
            with open(inp, "w", newline="") as g:
                g.write(text)
            for k, v in (files or {}).items():
                with open(os.path.join(d, k), "w", newline="") as g:
                    g.write(v)
            out = os.path.join(d, "o")
            os.makedirs(out)
            if kind == "full":
                os.symlink("/dev/full", os.path.join(out, f))
                what = "no space for " + f
            if kind == "blocked":
                os.makedirs(os.path.join(out, f))
                what = "a directory in place of " + f
            env = {}
            if pre:  # the sanitizers' own logs are not the product's files
                env = {"ASAN_EXTRA": "log_path=stderr", "UBSAN_OPTIONS": "log_path=stderr"}
            r = runner.execute([runner.vegapp(), "-o", out, inp, fmt, to], d, 120, env, pre)
            r.outdir, r.stem = out, os.path.splitext(name)[0]
            if r.timeout:
                fail("timeout", what, deck=text, to=to, fault=what)
            if r.rc == 0:
                if kind != "limit":
                    fail("success-with-unwritable-file:" + to.lower(), "%s: exit status 0\n%s" % (what, r.console[-500:]), deck=text, to=to, fault=what)
                now = contents(r, d)
                for g in sorted(ref):
                    if now.get(g) != ref[g]:
                        fail("success-with-truncated-file:%s:%s" % (to.lower(), os.path.splitext(g)[1]),
                             "%s: exit status 0 and %s has %s bytes instead of %d" % (what, g, os.path.getsize(os.path.join(out, g)) if os.path.exists(os.path.join(out, g)) else "no", sizes[g]), deck=text, to=to, fault=what)
                ctx.stat("faults without effect on the run")
            else:
                ctx.stat("failures reported: " + kind)
            ctx.stat("fault " + kind)
            ctx.seen((text, to, what))
            ctx.sample({"to": to, "fault": what, "exit": r.rc})
            if not ctx.keep:
                shutil.rmtree(d, ignore_errors=True)

    def unknown(rng, i):
        """the same deck with cards nobody knows: skipped with a message, refused by --strict"""
        to = TO[i % 3]
        name, g = rng.choice(gens)
        deck = g(rng, to)
        text = deck.text(None, rng)
        ls = text.split("\n")
        begin = next(k for k, l in enumerate(ls) if l.upper().startswith("BEGIN"))
        end = max(k for k, l in enumerate(ls) if l.upper().startswith("ENDDATA"))
        starts = [k for k in range(begin + 1, end + 1) if ls[k][:1].isalpha()]
        planted = []
        new = list(ls)
        for k in sorted(rng.sample(starts, min(len(starts), rng.randint(1, 3))), reverse=True):
            c = unknown_card(rng)
            if len(c) > 1:  # distinct continuation names
                tag = "%02d" % len(planted)
                c = [c[0].replace("QQ", "Q" + tag).replace("+Q,", "+Q").rstrip(), c[1].replace("+QQ     ", "+Q%s    " % tag).replace("*QQ     ", "*Q%s    " % tag)]
            planted.append(c[0].split(",")[0].split("*")[0].strip()[:8].strip())
            new[k:k] = c
        damaged = "\n".join(new)
        a = ctx.vega(text, to=to)
        s0 = ctx.vega(text, to=to, opts=["-s"])
        b = ctx.vega(damaged, to=to, opts=rng.choice([[], ["-b"]]))
        s = ctx.vega(damaged, to=to, opts=["-s"])
        kw = dict(deck=damaged, to=to)
        if a.rc == 0:
            if b.rc != 0:
                fail("best-effort-failed", "exit status %s\n%s" % (b.rc, b.console[-500:]), **kw)
            for n in set(planted):
                if n not in b.console:
                    fail("skipped-silently", "%s is not in the messages\n%s" % (n, b.console[-500:]), **kw)
            ca, cb = contents(a, a.dir), contents(b, b.dir)
            for f in sorted(set(ca) | set(cb)):
                if f == "m.nas":
                    continue
                x, y = [re.sub(rb"input\[\d+\]", b"input[]", z.get(f, b"")) for z in (ca, cb)]
                if x != y:
                    from checks.c03 import first_difference
                    fail("unknown-card-changed-output:%s" % os.path.splitext(f)[1], "%s: %s" % (f, first_difference(x, y)), **kw)
            ctx.stat("outputs compared with and without unknown cards", len(ca))
        if s.rc == 0:
            fail("strict-accepted-unknown-card", s.console[-500:], **kw)
        ctx.stat("strict refusals")
        ctx.stat("strict acceptance of the sound deck: %s" % (s0.rc == 0))
        ctx.seen((damaged, to))
        for r in (a, b, s, s0):
            shutil.rmtree(r.dir, ignore_errors=True)

    def inputs(rng, i):
        """inputs which cannot be translated at all"""
        to = TO[i % 3]
        d = ctx.scratch.sub()
        out = os.path.join(d, "o")
        good = os.path.join(d, "g.nas")
        with open(good, "w") as f:
            f.write(gens[0][1](rng, to).text(None, rng))
        kind = rng.choice(["missing", "directory", "format", "output", "outfile", "noargs", "testfile", "badoption"])
        inp, fmt, o, opts = good, "NASTRAN", to, []
        if kind == "missing":
            inp = os.path.join(d, "nothere.nas")
        elif kind == "directory":
            inp = d
        elif kind == "format":
            fmt = rng.choice(["ASTER", "SYSTUS", "ABAQUS", "NASTRANN"])
        elif kind == "output":
            o = rng.choice(["OPTISTRUCT", "ABAQUS", "ASTERR", "STEP"])
        elif kind == "outfile":
            out = os.path.join(d, "f")
            with open(out, "w") as f:
                f.write("x")
            if rng.random() < .5:
                out = os.path.join(out, "sub")
        elif kind == "testfile":
            opts = ["-t", os.path.join(d, "nothere.f06")]
        elif kind == "badoption":
            opts = [rng.choice(["--systus.RBE2TranslationMode=foo", "--systus.OutputProduct=x", "--nastran.OutputDialect=x", "-x", "--nothing"])]
            if opts == ["-x"]:
                opts = ["-x", "abc"]
        argv = [runner.vegapp(), "-o", out] + opts + ([] if kind == "noargs" else [inp, fmt, o])
        r = runner.execute(argv, d, 60)
        if r.rc == 0:
            fail("success-on-bad-request:" + kind, "%s\n%s" % (argv, r.console[-400:]))
        if r.rc == 8 or r.rc is None or r.rc < 0:
            fail("crash-on-bad-request:" + kind, "%s: rc %s\n%s" % (argv, r.rc, r.console[-400:]))
        ctx.stat("bad request: " + kind)
        ctx.seen((kind, to, i))
        shutil.rmtree(d, ignore_errors=True)

    ctx.cases("faults", ctx.n(70, 2500), faults)
    ctx.cases("unknown", ctx.n(90, 2500), unknown)
    ctx.cases("inputs", ctx.n(40, 200), inputs)
