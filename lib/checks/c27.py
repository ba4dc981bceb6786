"""C27: `vegapp -R` reports what the solver run was: never success unless this run of the
solver ended well and left fresh results whose own tests passed."""
import os
import shutil
import stat

import corpus
import runner
from check import Violation

LEVEL = "exploration"

# A stand-in solver: records how it was called, then behaves as told by the environment.
STUB = r"""#!/bin/sh
n=$(cat "$STUB_LOG/count" 2>/dev/null || echo 0); n=$((n+1)); echo $n > "$STUB_LOG/count"
{ pwd; for a in "$@"; do printf '%s\n' "$a"; done; } > "$STUB_LOG/call$n"
for a in "$@"; do last=$a; done
[ -f "$last" ] && : > "$STUB_LOG/input$n"
b=$(basename "$last"); b=${b%.*}; b=${b%%_ALL}
printf 'run %s of the solver\n' $n
if [ "$n" = "${STUB_AT:-$n}" ]; then
  [ -n "$STUB_STDOUT" ] && printf '%s\n' "$STUB_STDOUT"
  [ -n "$STUB_RESU" ] && printf '%s\n' "$STUB_RESU" > "$b.$STUB_EXT"
  [ -n "$STUB_TIT" ] && : > "$b.TIT"
  [ -n "$STUB_FDB" ] && : > "$b.fdb"
  [ -n "$STUB_SIG" ] && kill -$STUB_SIG $$
  exit ${STUB_EXIT:-0}
fi
[ -n "$STUB_TIT" ] && : > "$b.TIT"
exit 0
"""
DECK = """SOL 101
CEND
%s
BEGIN BULK
GRID,1,,0.,0.,0.
GRID,2,,1.,0.,0.
CBAR,1,1,1,2,0.,1.,0.
PBAR,1,1,1.,1.,1.,1.
MAT1,1,2.+11,,.3
SPC1,1,123456,1
FORCE,2,2,,1.,1.,0.,0.
FORCE,3,2,,1.,0.,1.,0.
%sENDDATA
"""
GOOD = [" OK  DEPL_R  0.1", "  ---- \nOK   resultat", "", "tests passed"]
BAD = ["NOOK DEPL", " OK 1\n  NOOK  2\n OK 3", " OK\n" * 40 + "NOOK"]


def deck(two):
    cc = "SPC=1\nLOAD=2" if not two else "SPC=1\nSUBCASE 1\nLOAD=2\nSUBCASE 2\nLOAD=3"
    return DECK % (cc, "")


def by_exit(code, sig):
    if sig:
        return 102
    if code == 0:
        return 0
    if code == 127:
        return 100
    if 128 < code <= 165:
        return 102
    return 103


def run(ctx):
    ctx.rule = "a case counts when vegapp's exit code was judged against what the stand-in solver recorded; distinct by target, behaviour, earlier files and names"
    tool = os.path.join(ctx.scratch.root, "bin")
    os.makedirs(tool)
    for n in ("systus", "nastran", "as_run", "stub solver"):
        p = os.path.join(tool, n)
        with open(p, "w") as f:
            f.write(STUB)
        os.chmod(p, 0o755)
    broken = os.path.join(tool, "none")
    os.makedirs(broken)

    def case(rng, i):
        to = rng.choice(["ASTER", "ASTER", "SYSTUS", "SYSTUS", "TOPAZE", "NASTRAN"])
        log = ctx.scratch.sub()
        two = rng.random() < .5
        odd = rng.random() < .4
        outdir = rng.choice(["o o", "o'o", "o$HOME", "o;false", "o&o", "o(1)", "é", "o\"o", "o*"]) if odd else rng.choice(["o", "out", "a/b"])
        stem = rng.choice(["m m", "m'm", "m$x", "m;x", "m&m", "m.x"]) if odd and rng.random() < .5 else rng.choice(["m", "model1", "A"])
        kind = rng.choice(["good", "good", "good", "bad", "none", "exit", "exit", "sig", "missing", "stdout", "refused"])
        if kind == "bad" and to not in ("ASTER", "SYSTUS", "TOPAZE"):
            kind = "exit"
        if kind == "stdout" and to not in ("SYSTUS", "TOPAZE"):
            kind = "good"
        env = {"STUB_LOG": log, "PATH": tool + ":/usr/bin:/bin", "STUB_EXT": "resu" if to == "ASTER" else "RESU"}
        code, sig, text = 0, None, None
        if kind in ("good", "bad"):
            text = rng.choice(GOOD if kind == "good" else BAD)
            env.update(STUB_RESU=text or "\n", STUB_TIT="1", STUB_FDB="1")
        if kind == "exit":
            code = rng.choice([1, 2, 3, 4, 4, 5, 126, 127, 129, 130, 143, 200, 255])
            env["STUB_EXIT"] = str(code)
            if rng.random() < .6:  # results left behind by a failed run prove nothing
                env.update(STUB_RESU="OK", STUB_TIT="1", STUB_FDB="1")
        if kind == "sig":
            sig = rng.choice([6, 9, 11, 15, 8])
            env["STUB_SIG"] = str(sig)
            if rng.random() < .5:
                env.update(STUB_RESU="OK", STUB_TIT="1", STUB_FDB="1")
        if kind == "stdout":
            env.update(STUB_STDOUT=rng.choice(["*** ERROR 12 ***", " FATAL ERROR"]), STUB_RESU="OK", STUB_TIT="1", STUB_FDB="1")
        at = None
        if to == "TOPAZE" and two and rng.random() < .6:
            at = rng.choice([1, 2])
            env["STUB_AT"] = str(at)
            env["STUB_TIT"] = "1"
        files = {}
        if rng.random() < .5:  # results of an earlier run
            old = rng.choice(GOOD + BAD)
            for e in (["resu", "mess", "stdout"] if to == "ASTER" else ["RESU", "TIT", "fdb", "stdout"]):
                files[os.path.join(outdir, stem + "." + e)] = old
            if to == "ASTER":
                files[os.path.join(outdir, stem + "_repe_out", "x")] = "old"
        opts = ["-R"]
        if to == "ASTER":
            if kind == "missing":
                opts.append("--solver-command=" + os.path.join(broken, "nothing"))
            elif rng.random() < .5:
                opts.append("--solver-command=" + os.path.join(tool, "as_run"))
        elif kind == "missing":
            env["PATH"] = broken
        if to == "TOPAZE":
            opts += ["--systus.OutputProduct=topaze", "--systus.Subcase=single"]
        text_in = deck(two)
        if kind == "refused":
            opts.append("-s")
            text_in = text_in.replace("ENDDATA", "XYZZY,1,2\nENDDATA")
        tgt = "SYSTUS" if to == "TOPAZE" else to
        r = ctx.vega(text_in, to=tgt, opts=opts, name=stem + ".nas", env=env, outdir=outdir, files=files)
        calls = []
        k = 1
        while os.path.exists(os.path.join(log, "call%d" % k)):
            with open(os.path.join(log, "call%d" % k)) as f:
                calls.append(f.read().split("\n")[:-1] + [os.path.exists(os.path.join(log, "input%d" % k))])
            k += 1
        detail = "to=%s kind=%s code=%s sig=%s at=%s two=%s out=%r stem=%r stale=%s: rc %s, %d runs\n%s" % (
            to, kind, code, sig, at, two, outdir, stem, sorted(files), r.rc, len(calls), r.console[-600:])

        def bad(key):
            v = Violation("%s:%s" % (to.lower(), key), detail)
            v.replay = {"deck": text_in, "opts": opts, "env": env, "outdir": outdir, "stem": stem}
            raise v
        try:
            if r.timeout or r.rc is None or r.rc < 0 or r.rc == 8 or r.san:
                bad("crash")
            if kind == "refused":
                if calls:
                    bad("solver-run-after-refusal")
                if r.rc == 0:
                    bad("refusal-reported-as-success")
                ctx.seen((to, kind, outdir, stem))
                ctx.stat("refused decks")
                return
            if kind == "missing":
                if calls:
                    bad("wrong-solver")
                if r.rc != 100:
                    bad("missing-solver")
                ctx.seen((to, kind, outdir, stem))
                ctx.stat("missing solvers")
                return
            # how it was run
            real = os.path.realpath(r.outdir)
            for c in calls:
                if os.path.realpath(c[0]) != real:
                    bad("wrong-directory")
                if not c[-1]:
                    bad("solver-input-missing")
            n = len(calls)
            if to == "TOPAZE":
                if n == 0:
                    bad("solver-not-run")
            elif n != 1:
                bad("solver-not-run" if n == 0 else "solver-run-twice")
            hit = at is None or n >= at  # the behaviour asked for happened
            want = by_exit(code, sig) if hit else 0
            if to == "ASTER":
                if code == 4:
                    want = 101
                if want == 0:
                    want = 104 if kind == "none" else 105 if kind == "bad" else 0
            elif to in ("SYSTUS", "TOPAZE"):
                if want == 0 and kind == "stdout" and hit:
                    want = 103
                if want == 0 and to == "SYSTUS" and kind == "none":
                    want = 104
                if want == 0 and kind == "bad" and hit:
                    want = 105
            if to == "TOPAZE" and want == 0 and two and n < 2:
                bad("subcase-not-run")
            if (want == 0) != (r.rc == 0):
                bad("failure-reported-as-success" if r.rc == 0 else "success-reported-as-failure")
            if want != r.rc:
                bad("exit-code-%d-instead-of-%d" % (r.rc, want))
            ctx.seen((to, kind, code, sig, at, two, outdir, stem, bool(files)))
            ctx.stat("solver runs", n)
            ctx.stat("outcome %d" % want)
            if files:
                ctx.stat("runs over earlier results")
            ctx.sample({"to": to, "behaviour": kind, "exit": code, "signal": sig, "outdir": outdir, "stem": stem, "rc": r.rc})
        finally:
            if not ctx.keep:
                shutil.rmtree(r.dir, ignore_errors=True)
                shutil.rmtree(log, ignore_errors=True)

    ctx.cases("runs", ctx.n(500, 6000), case)
