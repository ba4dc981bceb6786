"""C04: a run of vegapp touches nothing but the files of its own study in the output directory."""
import hashlib
import os
import re
import shutil

import corpus
import runner
from check import Violation

LEVEL = "exploration"
TO = ["ASTER", "SYSTUS", "NASTRAN"]

# files a run of each writer may create or replace, after the name of the study
OWN = {
    "ASTER": r"\.(comm|export|med)",
    "SYSTUS": r"(_SC\d+|_ALL)(_[A-Z0-9]+)?\.(DAT|ASC)",
    "NASTRAN": r"_vg\.nas",
}
# results of an earlier run of the same study that -R may remove, and logs it may write
RESULT = {
    "ASTER": r"\.(mess|resu|rmed|stdout|stderr)|_repe_out(/.*)?",
    "SYSTUS": r"(_SC\d.*|_ALL([._].*)?)?\.(TIT|fdb|RESU)|(_ALL)?\.(stdout|stderr)",
    "NASTRAN": r"(_vg)?\.(DBALL|f04|f06|IFPDAT|log|MASTER|stdout|stderr)",
}
STUB = """#!/bin/sh
pwd > "$STUB_LOG"
exit ${STUB_EXIT:-0}
"""


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            st = os.lstat(p)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p), st.st_mtime_ns)
            elif os.path.isdir(p):
                out[r] = ("dir", st.st_mode)
            else:
                with open(p, "rb") as f:
                    h = hashlib.sha1(f.read()).hexdigest()
                out[r] = ("file", h, st.st_size, st.st_mode, st.st_mtime_ns, st.st_ino)
    return out


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", newline="") as f:
        f.write(text)
    os.utime(path, (10 ** 9, 10 ** 9))


DECK = """SOL 101
CEND
%s
BEGIN BULK
GRID,1,,0.,0.,0.
GRID,2,,1.,0.,0.
CBAR,1,1,1,2,0.,1.,0.
PBAR,1,1,1.,1.,1.,1.
MAT1,1,2.+11,,.3
SPC1,1,123456,1
FORCE,2,2,,1.,1.,0.,0.
FORCE,3,2,,1.,0.,1.,0.
ENDDATA
"""


def source(rng, sh, gens, to):
    k = rng.random()
    if k < .35:
        return DECK % ("SPC=1\nLOAD=2" if rng.random() < .5 else "SPC=1\nSUBCASE 1\nLOAD=2\nSUBCASE 2\nLOAD=3"), "NASTRAN", {}
    if k < .75:
        d = rng.choice(gens)[1](rng, to)
        return d.text(None, rng), "NASTRAN", {}
    from checks.c01 import siblings
    rel, fmt, text = rng.choice(sh)
    return text, fmt, siblings(rel) or {}


def run(ctx):
    ctx.rule = ("input, includes, output, current, home and temporary directories with bystander files of close names; the whole tree "
                "is compared before and after; distinct by target, layout, options and outcome")
    tool = os.path.join(ctx.scratch.root, "bin")
    os.makedirs(tool)
    for n in ("systus", "nastran", "as_run"):
        with open(os.path.join(tool, n), "w") as f:
            f.write(STUB)
        os.chmod(os.path.join(tool, n), 0o755)
    sh = corpus.shipped(20000)
    gens = corpus.generators()

    def case(rng, i):
        to = rng.choice(TO)
        d = ctx.scratch.sub()
        tree = os.path.join(d, "t")
        text, fmt, others = source(rng, sh, gens, to)
        stem = rng.choice(["m", "m", "model", "a.b", "plate 1", "x_ALL", "x_ALLOY", "st_SC1", "M-2", "vega"])
        ext = rng.choice([".nas", ".dat", ".bdf", ".fem", ".NAS", ""])
        if ext == "" and "." in stem:
            ext = ".nas"
        name = stem + ext
        place = rng.choice(["in", "in/deep"])
        layout = rng.choice(["separate", "separate", "same", "cwd", "absent", "nested absent", "parent", "link", "default"])
        cwd = {"cwd": "out", "default": "out"}.get(layout, "cwd")
        out = {"same": place, "absent": "new", "nested absent": "n1/n2/n3", "parent": "in", "link": "lnk"}.get(layout, "out")
        if layout == "parent":
            place = "in/deep"
        real = "out" if out == "lnk" else out
        for x in ("in/deep", "out", "cwd", "home", "tmp"):
            os.makedirs(os.path.join(tree, x), exist_ok=True)
        os.symlink("out", os.path.join(tree, "lnk"))
        put(os.path.join(tree, place, name), text)
        for k, v in others.items():
            if k != name and not os.path.exists(os.path.join(tree, place, k)):
                put(os.path.join(tree, place, k), v)
        run_solver = rng.random() < .35
        # bystanders
        exts = [".txt", ".f06", ".csv", ".resu", ".rmed", ".mess", ".comm", ".export", ".med", ".DAT", ".ASC", ".RESU", ".TIT", ".fdb",
                ".log", ".f04", ".nas", ".bak", "_notes.txt", ".comm~", ".med.old", "_repe_out/x", ".f06.keep", ".stdout"]
        stems = [stem, stem + "2", stem + "_old", stem + " copy", "other", "fort", stem[:-1] or "q", stem + "_ALL", "SYSTUS", "." + stem,
                 stem.split("_")[0], stem.split(".")[0]]
        where = ["in", "in/deep", "out", "cwd", "home", "tmp"] + ([out] if layout not in ("absent", "nested absent") else [])
        for _ in range(rng.randint(4, 25)):
            p = os.path.join(tree, rng.choice(where), rng.choice(stems) + rng.choice(exts))
            q = os.path.dirname(p)
            if not os.path.exists(p) and (os.path.isdir(q) or not os.path.exists(q)):
                put(p, "bystander %d\n" % rng.randrange(10 ** 6))
        put(os.path.join(tree, "home", ".vegarc"), "")
        opts = []
        test = None
        if rng.random() < .3:
            test = rng.choice([stem + ".f06", "ref.f06", "ref.csv", stem + ".csv"])
            p = os.path.join(tree, rng.choice([place, "cwd", real if layout not in ("absent", "nested absent") else place]), test)
            put(p, "1\n" if not os.path.exists(p) else open(p).read())
            opts += ["-t", p]
        if rng.random() < .2:
            opts += [rng.choice(["-s", "-g", "-b"])]
        if rng.random() < .2:
            opts += ["--verbosity", rng.choice(["TRACE", "DEBUG", "ERROR"])]
        if to == "SYSTUS":
            opts += rng.choice([[], [], ["--systus.OutputProduct=topaze"], ["--systus.OutputMatrix=file", "--systus.SizeMatrix=2"]])
        if run_solver:
            opts.append("-R")
        if layout == "default":
            o = []
        elif layout == "cwd":
            o = ["-o", "."]
        else:
            o = ["-o", rng.choice([os.path.join(tree, out), os.path.join(tree, out) + "/", os.path.relpath(out, cwd)])]
        inp = rng.choice([os.path.join(tree, place, name), os.path.relpath(os.path.join(place, name), cwd)])
        log = os.path.join(d, "stub")
        if run_solver:
            p = os.path.join(tree, real)
        before = snapshot(tree)
        argv = [runner.vegapp()] + o + opts + [inp, fmt, to]
        env = {"HOME": os.path.join(tree, "home"), "TMPDIR": os.path.join(tree, "tmp"), "STUB_LOG": log,
               "PATH": tool + ":/usr/bin:/bin", "STUB_EXIT": rng.choice(["0", "0", "1"])}
        r = runner.execute(argv, d, 120, env, cwd=os.path.join(tree, cwd))
        if r.timeout or r.crashed():
            ctx.stat("runs judged by C01")
            return
        after = snapshot(tree)
        own = re.compile(re.escape(stem) + "(?:%s)" % OWN[to], re.S)
        res = re.compile(re.escape(stem) + "(?:%s)" % RESULT[to], re.S) if run_solver else None
        graph = re.compile(re.escape(stem) + r"_\d+\.(dot|png)") if "-g" in opts else None

        def fail(key, detail):
            v = Violation(key, detail)
            v.replay = {"argv": argv, "cwd": cwd, "layout": layout, "rc": r.rc, "deck": text}
            raise v

        def inside(p):
            """name in the output directory, or None"""
            q = os.path.relpath(p, real)
            return None if q.startswith("..") else q
        made = {"absent": ["new"], "nested absent": ["n1", "n1/n2", "n1/n2/n3"]}.get(layout, [])
        inputs = {os.path.join(place, name)} | {os.path.join(place, k) for k in others}
        created = changed = removed = 0
        for p in sorted(set(before) | set(after)):
            a, b = before.get(p), after.get(p)
            if a == b:
                continue
            q = inside(p)
            if a and a[0] == "dir" and b and b[0] == "dir":
                fail("mode-changed", "permissions of directory %s" % p)
            if p in inputs:
                fail("input-touched", "the input file %s was %s" % (p, "removed" if not b else "changed"))
            if b is None:
                removed += 1
                if not (res and q and (res.fullmatch(q) or to == "SYSTUS" and re.fullmatch(r"SYSTUS[^_]*\.DAT", q))):
                    fail("removed", "%s was removed" % p)
            elif a is None:
                created += 1
                if b[0] == "dir" and p in made:
                    continue
                if q is None or not (own.fullmatch(q) or q == name or (test and q == test) or (res and res.fullmatch(q)) or (graph and graph.fullmatch(q))):
                    fail("created", "%s was created" % p)
                if b[0] == "file" and b[3] & 0o111:
                    fail("mode", "%s was created executable" % p)
            else:
                changed += 1
                if q is None or not (own.fullmatch(q) or (res and res.fullmatch(q)) or (graph and graph.fullmatch(q))):
                    fail("changed", "%s was changed" % p)
        if os.path.exists(log):
            with open(log) as f:
                w = f.read().strip()
            if os.path.realpath(w) != os.path.realpath(os.path.join(tree, real)):
                fail("solver-directory", "the solver was run in %s" % w)
            ctx.stat("solver runs observed")
        ctx.stat("files created", created)
        ctx.stat("own files replaced", changed)
        ctx.stat("own results removed", removed)
        ctx.stat("bystanders watched", len(before))
        ctx.stat("runs with exit code %s" % r.rc)
        ctx.seen((to, layout, run_solver, r.rc, bool(test), stem, tuple(opts)))
        ctx.sample({"to": to, "layout": layout, "rc": r.rc, "opts": [os.path.basename(x) for x in opts]})

    ctx.cases("trees", ctx.n(400), case)
