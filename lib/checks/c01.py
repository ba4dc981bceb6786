"""C01: no input makes vegapp break memory safety, hit undefined behaviour, abort or hang."""
import os
import shutil

import corpus
import mutate
import runner
import vbuild
from check import Violation, Inconclusive
from deck import Style

LEVEL = "exploration"
TO = ("ASTER", "SYSTUS", "NASTRAN")
OPTS = {"ASTER": [[], [], ["--convertCompletelyRigidsIntoMPCs", "false"], ["-l"], ["-b"], ["--verbosity", "INFO", "-d"], ["-m"], ["-s"]],
        "SYSTUS": [[], [], ["--systus.RBE2TranslationMode=lagrangian"], ["--systus.OptionAnalysis=3D"], ["--systus.OptionAnalysis=shell"],
                   ["--systus.OptionAnalysis=shell-multi"], ["--systus.OutputProduct=topaze"], ["--systus.Subcase=single"], ["--systus.Subcase=1,2"],
                   ["--systus.OutputMatrix=file"], ["--systus.SizeMatrix=2"], ["--systus.DynamicMethod=direct"], ["--systus.DynamicMethod=modal"],
                   ["--solver-version=2017"], ["--convertCompletelyRigidsIntoMPCs", "true"], ["-s"], ["-m"], ["-l"]],
        "NASTRAN": [[], [], ["--nastran.OutputDialect=modern"], ["--convertCompletelyRigidsIntoMPCs", "true"], ["-s"], ["-m"]]}
TOP = os.path.join(vbuild.REPO, "testdata")
# exit codes vegapp documents (VegaCommandLine.h) apart from the one for a crashed child
DOCUMENTED = {0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 100, 101, 102, 103, 104, 105, 106}


def judge(ctx, r, debug=False):
    con = r.console
    if "hard rss limit" in con or any("hard rss" in s.text for s in r.san):
        raise Inconclusive("memory limit of the harness")
    if r.timeout:
        raise Violation("timeout", con[-400:])
    for s in r.san:
        ctx.stat("sanitizer reports")
        raise Violation(s.sig, s.text[:3000])
    if "Assertion '" in con or "Assertion `" in con:
        k = con.index("Assertion ")
        where = con[con.rfind("\n", 0, k) + 1:k + 200]
        raise Violation("assertion:" + where.split("\n")[0][-120:], where)
    if r.rc == 8 and debug and "terminate called" in con:
        return  # with --debug exceptions are let through on purpose
    if r.rc is None or r.rc < 0 or r.rc == 8:
        raise Violation("crash", "rc %s: %s" % (r.rc, con[-500:]))
    if r.rc not in DOCUMENTED:
        raise Violation("exit-code", "rc %s: %s" % (r.rc, con[-500:]))


def siblings(rel):
    """the other files of a shipped deck's directory (INCLUDE, results, ...)"""
    d = os.path.join(TOP, os.path.dirname(rel))
    out = {}
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p) and f != os.path.basename(rel) and os.path.getsize(p) < 300000:
            with open(p, errors="replace") as g:
                out[f] = g.read()
    return out


def attach(v, deck, to, fmt, opts):
    v.replay = {"deck": deck, "to": to, "format": fmt, "opts": list(opts)}
    return v


def one(ctx, text, to, fmt, opts, name, files=None, tag=None, timeout=40):
    try:
        r = ctx.vega(text, to=to, fmt=fmt, opts=opts, name=name, files=files, timeout=timeout)
    except UnicodeEncodeError:
        return None
    try:
        judge(ctx, r, "-d" in opts)
    except Violation as v:
        raise attach(v, text, to, fmt, opts)
    finally:
        if not ctx.keep:
            shutil.rmtree(r.dir, ignore_errors=True)
    ctx.stat("runs ending with exit code %s" % r.rc)
    if r.rc == 0:
        ctx.stat("files written", len(r.files()))
    ctx.seen(tag)
    return r


def run(ctx):
    ctx.rule = "a run counts when vegapp read the deck to the end of a translation or to a documented error; distinct by deck, damage, output and options"
    decks = corpus.shipped(ctx.n(300000))
    small = [d for d in decks if len(d[2]) <= 12000]
    gens = corpus.generators()
    jobs = [(d, to) for d in decks for to in TO]

    def shipped(rng, i):
        (rel, fmt, text), to = jobs[(i * 7919 + ctx.seed * 131) % len(jobs)] if ctx.tier == "quick" else jobs[i % len(jobs)]
        opts = rng.choice(OPTS[to])
        if "-m" not in opts and rng.random() < .3:
            opts = opts + ["-x", "0.1"]
        one(ctx, text, to, fmt, opts, os.path.basename(rel), siblings(rel), ("shipped", rel, to, tuple(opts)), timeout=150)
        ctx.stat("shipped decks")

    def legal(rng, i):
        to = rng.choice(TO)
        name, g = gens[i % len(gens)]
        deck = g(rng, to)
        st = Style.random(rng) if rng.random() < .6 else None
        if st:
            st.trim = st.tabs = False
        try:
            text = deck.text(st, rng)
        except ValueError:  # a value too long for the style
            text = deck.text(None, rng)
        opts = rng.choice(OPTS[to])
        one(ctx, text, to, "NASTRAN", opts, "m.nas", None, ("legal", text, to, tuple(opts)))
        ctx.stat("generated legal decks")
        ctx.sample({"kind": "legal " + name, "to": to, "opts": opts, "deck": text[:800]})

    def damaged(rng, i):
        to = rng.choice(TO)
        fmt = "NASTRAN"
        if rng.random() < .5:
            name, fmt, text = rng.choice(small)
        else:
            name, g = rng.choice(gens)
            deck = g(rng, to)
            try:
                text = deck.text(Style.random(rng) if rng.random() < .5 else None, rng)
            except ValueError:
                text = deck.text(None, rng)
        text, ops = mutate.mutate(rng, text)
        opts = rng.choice(OPTS[to]) if rng.random() < .3 else []
        one(ctx, text, to, fmt, opts, "m.nas", None, ("damaged", text, to, tuple(opts)))
        for o in ops:
            ctx.stat("damage " + o)
        ctx.stat("damaged decks")

    def spliced(rng, i):
        """bulk data of two decks together: colliding ids, unresolved and retyped references"""
        to = rng.choice(TO)
        a, b = rng.choice(small), rng.choice(small)
        if a[1] != b[1]:
            return
        la, lb = a[2].split("\n"), b[2].split("\n")
        ka = next((k for k, l in enumerate(la) if l.upper().startswith("BEGIN")), len(la) // 2)
        kb = next((k for k, l in enumerate(lb) if l.upper().startswith("BEGIN")), len(lb) // 2)
        bulk = [l for l in la[ka + 1:] if not l.upper().startswith("ENDDATA")]
        extra = [l for l in lb[kb + 1:] if not l.upper().startswith("ENDDATA")]
        if rng.random() < .5:
            bulk = extra + bulk
        else:
            k = rng.randrange(len(bulk) + 1)
            bulk[k:k] = extra
        text = "\n".join(la[:ka + 1] + bulk + ["ENDDATA", ""])
        one(ctx, text, to, a[1], [], "m.nas", None, ("spliced", text, to))
        ctx.stat("spliced decks")

    def cli(rng, i):
        """damaged command lines"""
        rel, fmt, text = rng.choice(small[:20])
        to = rng.choice(TO)
        opts = []
        for _ in range(rng.randint(1, 3)):
            o = rng.choice(["--systus.RBE2TranslationMode", "--systus.Subcase", "--systus.SizeMatrix", "--systus.OutputMatrix", "--systus.RBEStiffness", "--systus.RBECoefficient",
                            "--systus.RBELagrangian", "--systus.RBE2Rigidity", "--systus.OptionAnalysis", "--systus.OutputProduct", "--systus.DynamicMethod", "--nastran.OutputDialect", "--solver-version",
                            "--convertCompletelyRigidsIntoMPCs", "--verbosity", "-x", "-c", "-t", "--unknown", "-s", "-m", "-b", "-l", "-g", "-h", "-v"])
            if o.startswith("--"):
                opts.append(o + "=" + rng.choice(["", "1", "-1", "0", "abc", "1,2", "1,,2", ",", "99999999999", "auto", "single", "file", "table", "lagrangian", "modern", "nan", "1e400", "WARN", "true", "2017"]))
            elif o in "-x-c-t":
                opts += [o, rng.choice(["", "1", "~", "~x", "abc", "/dev/null", "'", "@D@"])]
            else:
                opts.append(o)
        fm = rng.choice([fmt, fmt, "", "ASTER", "SYSTUS", "foo", "optistruct"])
        to2 = rng.choice([to, to, to, "", "nope"])
        one(ctx, text, to2, fm, opts, rng.choice(["m.nas", "m.nas", "m", ".nas", "a b.nas", "'q'.nas", "~m.nas"]), None, ("cli", to2, fm, tuple(opts)))
        ctx.stat("command lines")

    only = ctx.n(90, len(jobs) * 2)
    ctx.cases("shipped", only, shipped)
    ctx.cases("legal", ctx.n(200, 4000), legal)
    ctx.cases("damaged", ctx.n(1300, 30000), damaged)
    ctx.cases("spliced", ctx.n(150, 5000), spliced)
    ctx.cases("cli", ctx.n(60, 1000), cli)
