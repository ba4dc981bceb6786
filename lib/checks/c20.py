"""C20: the Systus study (.DAT, .ASC and matrix files) and the Nastran deck written are consistent in themselves."""
import corpus
import studystate
from checks.c01 import OPTS, siblings
from check import Violation
from fem import Out

LEVEL = "exploration"

# shipped decks that are wrong themselves: elements with one number, loads on missing nodes
WRONG = {"SYSTUS": ("sdld27a_pvisc.", "pload4.nas"), "NASTRAN": ()}
# consequences, in the deck written, of numbers given twice, missing nodes and missing properties in shipped decks
INPUT_FAULTS = ("nas-element-twice", "nas-set-of-unknown", "nas-value")


def run(ctx):
    ctx.rule = ("a case counts when a deck was translated to Systus or Nastran with exit status 0 and every file written was parsed "
                "and its counts, numbers and references checked; distinct by deck, format and options")
    sh = corpus.shipped(200000)
    gens = corpus.generators()

    def judge(to, text, fmt, files, name, opts, generated):
        if not generated and any(w in name for w in WRONG[to]):
            ctx.stat("shipped decks that are wrong themselves")
            return
        o = Out(ctx, text, to, check=False, fmt=fmt, files=files or {}, opts=opts)
        if o.r.timeout or o.r.crashed() or o.r.rc != 0:
            ctx.stat("translations refused (judged by C01, C02)")
            return
        if "Infinite node" in o.r.console:
            ctx.stat("decks with missing nodes")
            return
        bad = []
        replay = {"deck": text if generated else name, "opts": opts, "to": to}
        try:
            for f in studystate.study(o, to):
                bad += f.run()
                for w, m in f.seen.items():
                    ctx.stat("%s: %s" % (to, w), m)
        except Violation as e:
            e.replay = replay
            raise
        if not generated:
            bad = [b for b in bad if b[0] not in INPUT_FAULTS]
        ctx.stat("%s: decks judged" % to)
        ctx.seen((text, to, tuple(opts)))
        ctx.sample({"deck": name if not generated else text[:500], "to": to, "opts": opts, "files": o.r.files()})
        if bad:
            e = Violation(bad[0][0], "\n".join("%s: %s" % b for b in bad[:6]))
            e.replay = replay
            raise e

    def shipped(to):
        def f(rng, i):
            rel, fmt, text = sh[i % len(sh)]
            judge(to, text, fmt, siblings(rel), rel, [] if i < len(sh) else rng.choice(OPTS[to]), False)
        return f

    def generated(to):
        def f(rng, i):
            name, g = gens[i % len(gens)]
            deck = g(rng, to)
            deck = deck[0] if isinstance(deck, tuple) else deck
            opts = rng.choice(OPTS[to]) if rng.random() < .5 else []
            judge(to, deck if isinstance(deck, str) else deck.text(None, rng), "NASTRAN", None, name, opts, True)
        return f

    for to in ("SYSTUS", "NASTRAN"):
        ctx.cases("shipped-" + to.lower(), ctx.n(len(sh), 8 * len(sh)), shipped(to))
        ctx.cases("generated-" + to.lower(), ctx.n(250, 7000), generated(to))
