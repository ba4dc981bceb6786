"""C19: the Code_Aster study (command file, mesh, export file) is consistent in itself."""
import os

import comm as _comm
import corpus
import typestate
from checks.c01 import OPTS, siblings
from check import Violation
from fem import Out

LEVEL = "exploration"


def files_of(o, comm):
    """the files that the .export names exist and have the units the commands use"""
    t = o.r.text(".export")
    if t is None:
        raise Violation("export-file", "none among %s" % o.r.files())
    units, kinds = {}, set()
    for l in t.split("\n"):
        w = l.split()
        if len(w) < 5 or w[0] not in ("F", "R"):
            continue
        base = os.path.basename(w[2])
        if "D" in w[3] and base not in o.r.files():
            raise Violation("export-names-missing-file", l)
        if w[0] == "F":
            if w[4] in units:
                raise Violation("export-unit-used-twice", "%s / %s" % (l, units[w[4]]))
            units[w[4]] = (w[1], w[3])
        kinds.add(w[1])
    if not {"comm", "mail", "rmed", "repe"} <= kinds:
        raise Violation("export-file", "no command file, mesh or results: %s" % t)
    bad = []
    opened = {}
    for c in comm.calls:
        if c.cmd == "LIRE_MAILLAGE" and units.get(str(c.kw.get("UNITE", 20)), ("", ""))[0] != "mail":
            bad.append(("mesh-from-another-unit", "%s" % c.kw))
        if c.cmd == "DEFI_FICHIER" and c.kw.get("ACTION") != "LIBERER":
            f = c.kw.get("FICHIER")
            if not isinstance(f, str) or not f.startswith(("./REPE_OUT/", "REPE_OUT/")):
                bad.append(("result-outside-repe", "%s" % f))
            elif f in opened:
                bad.append(("two-results-in-one-file", f))
            opened[f] = c
        if c.cmd in ("IMPR_RESU", "IMPR_TABLE", "IMPR_FONCTION"):
            u = c.kw.get("UNITE", 8 if c.cmd != "IMPR_RESU" or c.kw.get("FORMAT") in (None, "RESULTAT") else 80)
            if isinstance(u, int) and units.get(str(u), ("", ""))[1] != "R":
                bad.append(("printed-to-unknown-unit", "%s to %s" % (c.cmd, u)))
    seq = [c.cmd for c in comm.calls if c.cmd not in ("CO",)]
    if seq[0] not in ("DEBUT", "POURSUITE") or seq[-1] != "FIN" or seq.count("FIN") != 1:
        bad.append(("no-debut-or-fin", "%s ... %s" % (seq[:2], seq[-2:])))
    return bad


SOLVED = ("MECA_STATIQUE", "STAT_NON_LINE", "REST_GENE_PHYS", "EXTR_MODE", "CREA_RESU")


def unsaved(comm):
    """results computed and not saved in the result file"""
    saved = set()
    for c in comm.all("IMPR_RESU"):
        if c.kw.get("FORMAT") == "MED" and c.kw.get("UNITE") == 80:
            for f in _comm.lst(c.kw.get("RESU")):
                if isinstance(f.get("RESULTAT"), _comm.Concept):
                    saved.add(f["RESULTAT"].name)
    return [("result-not-saved", "%s = %s" % (c.name, c.cmd)) for c in comm.all(*SOLVED) if c.name and c.name not in saved]


def run(ctx):
    ctx.rule = "a case counts when a deck was translated to Code_Aster with exit status 0 and its command file executed command by command against the written mesh; distinct by deck and options"
    sh = corpus.shipped(200000)
    gens = corpus.generators()

    def judge(text, fmt, files, name, opts, generated):
        o = Out(ctx, text, "ASTER", check=False, fmt=fmt, files=files or {}, opts=opts)
        if o.r.timeout or o.r.crashed() or o.r.rc != 0:
            ctx.stat("translations refused (judged by C01, C02)")
            return
        try:
            k = typestate.Checker(o)
            bad = k.run()
            v = typestate.Coverage(o)
            bad += v.run()
            if generated:  # shipped decks have nodes without elements on purpose
                n = len(v.problems)
                bad += v.imposed()[n:]
            bad += files_of(o, k.comm) + unsaved(k.comm)
        except Violation as e:
            e.replay = {"deck": text if generated else name, "opts": opts}
            raise
        for w, m in k.seen.items():
            ctx.stat(w, m)
        ctx.stat("cells checked", v.cells)
        ctx.stat("decks judged")
        for c in k.comm.calls:
            with ctx.lock:
                ctx.stats.setdefault("kinds of commands", set()).add(c.cmd)
        ctx.seen((text, tuple(opts)))
        ctx.sample({"deck": name if not generated else text[:500], "opts": opts, "commands": [c.cmd for c in k.comm.calls][:40]})
        if bad:
            e = Violation(bad[0][0], "\n".join("%s: %s" % b for b in bad[:6]))
            e.replay = {"deck": text if generated else name, "opts": opts}
            raise e

    def shipped(rng, i):
        rel, fmt, text = sh[i % len(sh)]
        opts = [] if i < len(sh) else rng.choice(OPTS["ASTER"])
        judge(text, fmt, siblings(rel), rel, opts, False)

    def generated(rng, i):
        name, g = gens[i % len(gens)]
        deck = g(rng, "ASTER")
        opts = rng.choice(OPTS["ASTER"]) if rng.random() < .3 else []
        judge(deck.text(None, rng), "NASTRAN", None, name, opts, True)

    ctx.cases("shipped", ctx.n(len(sh), 8 * len(sh)), shipped)
    ctx.cases("generated", ctx.n(300, 9000), generated)
    with ctx.lock:
        ctx.stats["kinds of commands"] = len(ctx.stats.get("kinds of commands", ()))
