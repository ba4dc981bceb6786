"""Layout of the deck: the same cards in any legal layout are the same model."""
from fem import *  # noqa
from meta import snapshot, first_diff
from checks import c09, c10, c11, c12, c13, c14, c15, c16, c18, c24, c25, c28

LEVEL = "exploration"
FAMILIES = sorted(c18.NAMES)
KINDS = ["gap", "zone", "slide", "surf"]


def source(rng, to):
    for _ in range(20):
        k, d = pick_source(rng, to)
        try:
            d.text(Style(kind="short"))
            return k, d
        except ValueError:
            continue      # a real that no small field holds
    return "c09", c09.build(rng, "RC")[0]


def pick_source(rng, to):
    """a deck of any of the other generators"""
    k = rng.choice(["c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16"] +
                   {"ASTER": ["c18", "c18", "c24", "c25", "c28"], "SYSTUS": ["c28"]}.get(to, []))
    if k in ("c11", "c12", "c16"):
        return k, {"c11": c11, "c12": c12, "c16": c16}[k].build(rng, to)[0]
    if k == "c18":
        return k, c18.build(rng, rng.choice(FAMILIES), to)[0]
    if k == "c24":
        return k, c24.build(rng, rng.choice(KINDS))[0]
    if k == "c25":
        return k, c25.build(rng, rng.random() < .3)[0]
    if k == "c28":
        return k, c28.build(rng, to)[0]
    if k == "c09":
        return k, c09.build(rng, "RC" if to == "SYSTUS" else "RCS")[0]
    if k == "c10":
        return k, c10.build(rng, to)[0]
    if k == "c13":
        return k, c13.build(rng, to, values=(to != "SYSTUS"))[0]
    if k == "c14":
        return k, c14.build(rng, to)[0]
    return k, c15.build(rng, to)[0]


def fits(d, kind):
    """cards the small field cannot hold are written in free format"""
    def st(name):
        return kind
    return st


def case_layout(rng, d):
    out = []
    for l in d.case:
        ind = len(l) - len(l.lstrip())
        t = l.strip()
        if "=" in t and rng.random() < .5:
            a, b = t.split("=", 1)
            t = a + rng.choice(["=", " = ", "= ", " ="]) + b
        if rng.random() < .3:
            t = t.lower()
        if rng.random() < .3:
            t = t + "  $ SPC = 77"
        out.append(" " * rng.choice([0, 1, ind, 4]) + t)
        if rng.random() < .2:
            out.append("$ LOAD = 88")
        if rng.random() < .1:
            out.append("")
    return out


def variant(rng, d, trimplus=False, mixplus=False):
    v = Deck(None)
    v.exec = [x if rng.random() < .6 else x.lower() for x in d.exec]
    v.case = case_layout(rng, d)
    v.bulk, v.raw = d.bulk, d.raw
    styles = {}
    mixed = rng.random() < .4
    mixrows = rng.random() < .25
    whole = Style.random(rng)

    def pick(name):
        st = Style.random(rng) if mixed else whole
        st = Style(**{k: x for k, x in st.__dict__.items()})
        st.spell = False
        if st.kind != "free" and st.cont == "plus" or st.mark10:
            # a row cut short before a + continuation is a recorded finding, looked at apart
            st.trim = False
            st.tabs = st.tabs and st.mark10
        st.mix = st.kind != "free" and mixrows
        st.tabs = st.tabs and not st.mix
        if trimplus:
            st.mix, st.label = False, ""
            st.kind, st.cont, st.trim, st.tabs, st.mark10 = "short", "plus", True, False, False
        if mixplus:
            st.kind, st.cont, st.trim, st.tabs, st.mix, st.mixplus = "short", "plus", False, False, True, True
        styles[st.kind] = st
        return st
    eol = rng.choice(["\n", "\n", "\n", "\r\n"])
    files = {}
    n = len(d.bulk)
    lines = list(v.exec) + ["CEND"] + v.case + [rng.choice(["BEGIN BULK", "BEGIN BULK", "begin bulk"])]

    def chunk(lo, hi, depth, where):
        part = Deck(None)
        if hi - lo < 4 or rng.random() > (.3 if depth == 0 else .15 * (depth < 3)):
            part.bulk = d.bulk[lo:hi]
            return part.bulk_text(pick, rng)
        i, j = sorted(rng.sample(range(lo, hi), 2))
        name = "%s%d.%s" % (rng.choice(["inc", "part_", "a.b"]), len(files), rng.choice(["nas", "inc", "dat"]))
        sub_ = rng.choice(["", "", "sub/"])
        files[where + sub_ + name] = ""
        files[where + sub_ + name] = eol.join(chunk(i, j, depth + 1, where + sub_)) + rng.choice([eol, ""])
        q = rng.choice(["'%s'", "'%s'", "%s"])
        return chunk(lo, i, 9, where) + [rng.choice(["INCLUDE ", "include ", "INCLUDE  "]) + q % (sub_ + name)] + \
            chunk(j, hi, 9, where)
    lines += chunk(0, n, 0, "") + list(d.raw) + [rng.choice(["ENDDATA", "enddata"])]
    if rng.random() < .2:
        lines += ["GRID    999999          1.      2.      3.", "FORCE,2,999999,,1.,1.,0.,0."]
    return (eol.join(lines + [""]), "mixed" if mixed else "%s/%s" % (whole.kind, whole.cont), eol, files)


def run(ctx):
    ctx.rule = ("decks of the coordinate, element, constraint, rigid-body and load generators, each rewritten in 2 other "
                "layouts (small, large and free field, marks, tabs, alignment, case, comments, blank lines, case-control "
                "spacing, line ends, INCLUDE files, text after ENDDATA); distinct by deck and layout")

    def one(to):
        def f(rng, i):
            src, d = source(rng, to)
            base = Out(ctx, d.text(Style(kind="free")), to=to)
            ref = snapshot(base, to)
            for k in range(2):
                text, label, eol, files = variant(rng, d)
                out = Out(ctx, text, to=to, check=False, files=files)
                try:
                    ok(out.r)
                    df = first_diff(ref, snapshot(out, to))
                    if df:
                        raise Violation("layout", "the deck of free fields and the same cards laid out as below (%s%s) give "
                                        "different models: %s" % (label, " CRLF" if eol != "\n" else "", df))
                except Violation as v:
                    v = out.tag(v)
                    raise with_replay(v, reference=base.deck_text)
                ctx.stat("layout %s%s" % (label, " crlf" if eol != "\n" else ""))
                ctx.stat("include files", len(files))
                ctx.stat("source %s to %s" % (src, to))
                ctx.seen((to, hash(text)))
            ctx.sample({"to": to, "source": src, "head": text[:300]})
        return f
    ctx.cases("aster", ctx.n(110), one("ASTER"))
    ctx.cases("systus", ctx.n(60), one("SYSTUS"))
    ctx.cases("nastran", ctx.n(60), one("NASTRAN"))

    def trimmed(rng, i):
        src, d = source(rng, "NASTRAN")
        base = Out(ctx, d.text(Style(kind="free")), to="NASTRAN")
        text, _, _, files = variant(rng, d, True)
        out = Out(ctx, text, to="NASTRAN", check=False, files=files)
        df = None
        if out.r.rc == 0 and not out.r.crashed():
            df = first_diff(snapshot(base, "NASTRAN"), snapshot(out, "NASTRAN"))
        if df or out.r.rc != 0:
            raise out.tag(Violation("trimmed-row-before-plus", "%s" % df))
        ctx.stat("trimmed rows before + read well")
    ctx.cases("trimplus", ctx.n(6), trimmed)

    def smallafterlarge(rng, i):
        src, d = source(rng, "NASTRAN")
        base = Out(ctx, d.text(Style(kind="free")), to="NASTRAN")
        text, _, _, files = variant(rng, d, mixplus=True)
        out = Out(ctx, text, to="NASTRAN", check=False, files=files)
        df = None
        if out.r.rc == 0 and not out.r.crashed():
            df = first_diff(snapshot(base, "NASTRAN"), snapshot(out, "NASTRAN"))
        if df or out.r.rc != 0:
            raise out.tag(Violation("plus-row-after-large-fields", "%s" % df))
        ctx.stat("+ rows after rows of large fields read well")
    ctx.cases("mixplus", ctx.n(6), smallafterlarge)
