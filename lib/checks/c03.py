"""C03: the translation of a deck is a function of the deck and the options alone."""
import os
import re
import shutil

import corpus
import med
import mutate
import runner
from check import Violation
from checks.c01 import OPTS, siblings
from deck import Style

STAMP = re.compile(rb"Built by VEGA.*|File created : .*")
LEVEL = "exploration"
TO = ("ASTER", "SYSTUS", "NASTRAN")


def collect(r, words):
    """what a run produced, with its own paths replaced"""
    out = {}

    def clean(b):
        for w, n in words:
            b = b.replace(w.encode(), n.encode())
        return STAMP.sub(b"", b)  # a line with the date and as much of the path as fits; and where HDF5 put the file
    for f in r.files():
        p = os.path.join(r.outdir, f)
        if f.endswith(".med"):
            try:
                out[f] = repr(sorted(med.read(p).raw.items())).encode()
            except (med.MedError, ValueError, OSError) as e:
                out[f] = repr(e).encode()
        else:
            with open(p, "rb") as g:
                out[f] = clean(g.read())
    out["exit status"] = str(r.rc).encode()
    out["console"] = clean(r.console.encode())
    return out


def go(ctx, text, to, fmt, opts, files, name, how, dirty=None):
    """one run under particular circumstances"""
    d = ctx.scratch.sub()
    ind = os.path.join(d, how["in"])
    out = os.path.join(d, how["out"])
    os.makedirs(ind, exist_ok=True)
    os.makedirs(out, exist_ok=True)
    inp = os.path.join(ind, name)
    with open(inp, "w", newline="") as f:
        f.write(text)
    for k, v in (files or {}).items():
        with open(os.path.join(ind, k), "w", newline="") as f:
            f.write(v)
    for k, v in (dirty or {}).items():
        with open(os.path.join(out, k), "wb") as f:
            f.write(v)
    cwd = os.path.join(d, "cwd")
    os.makedirs(cwd)
    a, o = (inp, out) if not how["rel"] else (os.path.relpath(inp, cwd), os.path.relpath(out, cwd))
    env = dict(how["env"])
    env["ASAN_EXTRA"] = "max_malloc_fill_size=100000000:malloc_fill_byte=%d:quarantine_size_mb=%d:max_redzone=%d" % (how["fill"], how["quarantine"], how["redzone"])
    argv = [runner.vegapp(), "-o", o] + list(opts) + [a, fmt, to]
    r = runner.execute(argv, d, 120, env, cwd=cwd)
    r.outdir, r.stem = out, os.path.splitext(name)[0]
    words = [(inp, "@INPUT@"), (out, "@OUT@"), (ind, "@IND@"), (d, "@D@")]
    if how["rel"]:
        words += [(os.path.relpath(inp, cwd), "@INPUT@"), (os.path.relpath(out, cwd), "@OUT@"), (os.path.relpath(ind, cwd), "@IND@")]
    c = None if r.timeout else collect(r, words)
    raw = {}
    if c is not None:
        for f in r.files():
            with open(os.path.join(out, f), "rb") as g:
                raw[f] = g.read()
    crashed = r.timeout or r.rc is None or r.rc < 0 or r.rc == 8 or bool(r.san)
    if not ctx.keep:
        shutil.rmtree(d, ignore_errors=True)
    return c, raw, crashed


def first_difference(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    for k, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), 0)
            return "line %d: %r / %r" % (k + 1, x[max(0, j - 80):j + 120], y[max(0, j - 80):j + 120])
    return "%d / %d lines" % (len(la), len(lb))


BASE = {"in": "INPUTDIR1", "out": "OUTDIR1", "rel": False, "env": {}, "fill": 190, "quarantine": 256, "redzone": 2048}


def circumstances(rng):
    return {"in": rng.choice(["INPUTDIR2", "INPUT/DIR/NUMBER/3"]), "out": rng.choice(["OUTDIR2", "OUT/DIR/NUMBER/3"]), "rel": False,
            "env": rng.choice([{}, {"LANG": "fr_FR.UTF-8", "LC_ALL": "fr_FR.UTF-8", "LC_NUMERIC": "de_DE.UTF-8"}, {"HOME": "/nonexistent", "USER": "x"}, {"COLUMNS": "40", "PAD": "x" * 3000}]),
            "fill": rng.choice([0, 1, 63, 255]), "quarantine": rng.choice([0, 1, 16, 256]), "redzone": rng.choice([16, 64, 512, 2048])}


def run(ctx):
    ctx.rule = "a case counts when the same deck was translated under two or three circumstances and everything produced was compared; distinct by deck, output and options"
    sh = corpus.shipped(60000)
    small = [d for d in sh if len(d[2]) < 12000]
    gens = corpus.generators()
    earlier = {}

    def case(rng, i):
        to = rng.choice(TO)
        kind = i % 4
        files, name, fmt = None, "m.nas", "NASTRAN"
        if kind == 0:
            rel, fmt, text = rng.choice(sh)
            files, name = siblings(rel), os.path.basename(rel)
        else:
            gname, g = gens[(i // 4) % len(gens)] if kind != 3 else rng.choice(gens)
            deck = g(rng, to)
            text = deck.text(None, rng)
            if kind == 3:
                text, _ = mutate.mutate(rng, text if rng.random() < .6 else rng.choice(small)[2])
        opts = rng.choice(OPTS[to]) if rng.random() < .4 else []
        try:
            a, raw, crash = go(ctx, text, to, fmt, opts, files, name, BASE)
            if crash:
                ctx.stat("runs that crashed (judged by C01)")
                return
            hb = circumstances(rng)
            hc = circumstances(rng)
            hc["rel"] = rng.random() < .5
            hb["env"] = {} if rng.random() < .5 else hb["env"]
            # earlier results of another study of the same name, or of the same one
            dirty = dict(earlier.get((to, name), {})) if rng.random() < .6 else dict(raw)
            dirty.pop(name, None)
            if rng.random() < .3:
                for k in dirty:
                    dirty[k] = dirty[k] + b"\nrubbish" * 200 if not k.endswith(".med") else dirty[k]
            if name == "m.nas" and len(raw) > 0:
                earlier[(to, name)] = raw
            for tag, how, d in (("memory and environment", hb, None), ("earlier results and paths", hc, dirty)):
                b, _, crash = go(ctx, text, to, fmt, opts, files, name, how, d)
                if crash:
                    raise self_diff("crash", tag, how, "the run crashed", text, to, opts)
                for f in sorted(set(a) | set(b)):
                    if f in a and f in b and a[f] != b[f]:
                        raise self_diff(os.path.splitext(f)[1] or f, tag, how, f + ": " + first_difference(a[f], b[f]), text, to, opts)
                    if f in a and f not in b:
                        raise self_diff("missing" + os.path.splitext(f)[1], tag, how, f + " is not written", text, to, opts)
                    if f in b and f not in a and not (d and f in d):
                        raise self_diff("extra" + os.path.splitext(f)[1], tag, how, f + " is written too", text, to, opts)
                ctx.stat("outputs compared", len(a))
                ctx.stat("bytes compared", sum(map(len, a.values())))
                if d:
                    ctx.stat("runs over earlier results")
        except UnicodeEncodeError:
            return
        ctx.stat("decks translated to " + to)
        ctx.seen((text, to, tuple(opts)))
        ctx.sample({"to": to, "opts": opts, "deck": text[:600], "circumstances": hb})

    def self_diff(key, tag, how, detail, text, to, opts):
        v = Violation("%s:%s" % (tag.split()[0], key), "%s\n%s (to %s, opts %s, circumstances %s)" % (detail, tag, to, opts, how))
        v.replay = {"deck": text, "to": to, "opts": list(opts), "how": how}
        return v

    ctx.cases("same", ctx.n(240, 6000), case)
