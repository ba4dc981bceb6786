"""Case control: every subcase becomes one analysis, of its own kind, on its own supports and loads, with its own request."""
from fem import *  # noqa
import re
from comm import lst, node, Concept
import kine
from checks.c15 import aster_nodal, nas_cases, nas_nodal

LEVEL = "exploration"
NAMES = {"static": ["101", "SESTATIC", "STATICS", "1"], "modes": ["103", "SEMODES", "MODES"], "buck": ["105", "SEBUCKL"],
         "nl": ["106", "NLSTATIC"], "opt": ["200", "DESOPT"]}
LABEL = {"static": ["STATICS", "STATIC"], "modes": ["MODES"]}


class M:
    pass


def style(rng):
    st = Style.random(rng)
    st.trim = st.tabs = False     # short rows before a continuation: C05's recorded finding, not judged again here
    return st


def build(rng, family, to="ASTER"):
    d = Deck(sol=None)
    m = M()
    d.exec = ["SOL " + rng.choice(NAMES[family])]
    nb = rng.randint(4, 8)
    nid = ids(rng, nb + 1)
    m.coords = {n: (round(1.2 * k + rng.uniform(-.2, .2), 3), dec(rng, -1, 1, 3), dec(rng, -1, 1, 3)) for k, n in enumerate(nid)}
    cards = [("GRID", [n, None] + list(m.coords[n])) for n in nid]
    cards += [("MAT1", [1, 2.1e11, None, .3, 7800.]), ("PBAR", [1, 1, .01, 1e-5, 1e-5, 2e-5])]
    for k in range(nb):
        cards.append(("CBAR", [k + 1, 1, nid[k], nid[k + 1], 0.1, 0.2, 1.]))
    # supports: every set fixes an end and one more thing of its own
    m.spc, m.load, m.method, m.nlparm = {}, {}, {}, {}
    for q, sid in enumerate(ids(rng, rng.randint(1, 3), hi=200)):
        other = nid[2 + q % (nb - 2)]
        c = "".join(sorted(rng.sample("123456", rng.randint(1, 5))))
        cards += [("SPC1", [sid, 123456, nid[0]]), ("SPC1", [sid, int(c), other])]
        m.spc[sid] = {(nid[0], k) for k in range(1, 7)} | {(other, int(k)) for k in c}
    for sid in ids(rng, rng.randint(1, 4), hi=300):
        n, k = rng.choice(nid[1:]), rng.randrange(3)
        f = dec(rng, 1, 50, 3)
        v = [0.] * 3
        v[k] = rng.choice([1., -1.])
        cards.append(("FORCE", [sid, n, None, f] + v))
        m.load[sid] = {n: [f * x for x in v] + [0.] * 3}
    m.lfreq = m.hfreq = None
    if family in ("modes", "opt") and rng.random() < .25:
        m.lfreq = dec(rng, .1, 5, 2)
        cards.append(("PARAM", ["LFREQ", m.lfreq]))
    if family in ("modes", "opt") and rng.random() < .25:
        m.hfreq = dec(rng, 500, 5000, 2)
        cards.append(("PARAM", ["HFREQ", m.hfreq]))
    for sid in ids(rng, rng.randint(1, 3), hi=400):
        t = rng.choice(["nd", "nd+v2", "v2", "band", "none"]) if family != "buck" else rng.choice(["nd", "none"])
        nd = rng.randint(1, 30) if t.startswith("nd") else None
        v1 = dec(rng, 1, 50, 3) if t == "band" else None
        v2 = dec(rng, 60, 900, 3) if "v2" in t or t == "band" else None
        nrm = rng.choice([None, "MASS", "MAX"])
        if family != "buck" and rng.random() < .4:
            cards.append(("EIGR", [sid, "LAN", v1, v2, rng.choice([None, 4]), nd, None, None, nrm]))
        else:
            cards.append(("EIGRL", [sid, v1, v2, nd, None, None, None, nrm]))
        m.method[sid] = (1 if t == "none" else nd, v1, v2, nrm or "MASS")
    for sid in ids(rng, rng.randint(1, 3), hi=500):
        n = rng.choice([None, rng.randint(2, 30)])
        cards.append(("NLPARM", [sid, n] + rng.choice([[], [None, "AUTO", 5, 25], [None, "ITER", 1]])))
        m.nlparm[sid] = n or 10
    # ---- case control
    pools = {"SPC": m.spc, "LOAD": m.load, "METHOD": m.method, "NLPARM": m.nlparm}
    glob = {}
    use = {"static": ["SPC", "LOAD"], "modes": ["SPC", "METHOD"], "buck": ["SPC"], "nl": ["SPC", "LOAD", "NLPARM"],
           "opt": ["SPC"]}[family]
    eq = rng.choice(["=", " = ", "= "])
    for k in use:
        if rng.random() < .5:
            glob[k] = rng.choice(list(pools[k]))
            d.case.append("%s%s%d" % (k, eq, glob[k]))
    if rng.random() < .3:
        d.case.insert(0, "TITLE = SUBCASE 77, LOAD=99")
    m.subs = []
    scid = 0
    nsub = rng.randint(1, 5)
    statics = []
    for q in range(nsub):
        scid += rng.randint(1, 4)
        kind = family
        if family == "buck":
            kind = "static" if q == 0 or rng.random() < .3 else "buck"
        if family == "opt":
            kind = rng.choice(["static", "modes"])
        need = {"static": ["SPC", "LOAD"], "modes": ["SPC", "METHOD"], "buck": ["SPC", "METHOD"], "nl": ["SPC", "LOAD", "NLPARM"]}[kind]
        d.case.append("%sSUBCASE%s%d" % (rng.choice(["", " "]), rng.choice([" ", "  ", "="]), scid))
        s = M()
        s.id, s.kind, s.sel = scid, kind, dict(glob)
        body = []
        if family == "opt":
            body.append("ANALYSIS%s%s" % (eq, rng.choice(LABEL[kind])))
        if rng.random() < .3:
            s.label = "case %d of LOAD" % scid
            body.append("LABEL = " + s.label)
        for k in need:
            if k not in glob or rng.random() < .5:
                s.sel[k] = rng.choice(list(pools[k]))
                body.append("%s%s%d" % (k, eq, s.sel[k]))
        s.static = None
        if kind == "buck":
            s.static = statics[-1].id
            if len(statics) > 1 or rng.random() < .5:
                s.static = rng.choice(statics).id
                body.append("STATSUB%s%s%d" % (rng.choice(["", "(BUCKLING)"]), eq, s.static))
        if kind == "static":
            statics.append(s)
        rng.shuffle(body)
        d.case += [rng.choice(["", "  "]) + b for b in body] or ["  ECHO = NONE"]
        s.sel = {k: v for k, v in s.sel.items() if k in need}
        m.subs.append(s)
    m.combos = []
    if family == "static" and to == "ASTER":
        for _ in range(rng.choice([0, 0, 1, 2])):
            scid += rng.randint(1, 4)
            k = rng.randint(1, nsub)
            co = [coef(rng, -3, 3, 2) for _ in range(k)]
            d.case.append("SUBCOM %d" % scid)
            d.case.append("  SUBSEQ%s%s" % (rng.choice(["=", " = ", " "]), rng.choice([",", ", "]).join(("%g" % c) + ("." if c == int(c) else "") for c in co)))
            m.combos.append((scid, dict(zip([s.id for s in m.subs][-k:], co))))
    rng.shuffle(cards)
    for n, f in cards:
        d.add(n, *f)
    return d, m


def bad(msg, *a):
    raise Violation("analysis", msg % a if a else msg)


def want_rows(m, s, have, used_what):
    got = set()
    for r, b in have:
        if len(r) != 1 or b != 0 or list(r.values()) != [1.]:
            bad("subcase %d has the constraint equation %s = %s", s.id, r, b)
        got.add(next(iter(r)))
    w = m.spc[s.sel["SPC"]]
    if got != w:
        bad("subcase %d (%s, SPC %d): %s are not fixed, %s should be free", s.id, s.kind, s.sel["SPC"], sorted(w - got)[:4], sorted(got - w)[:4])


def name(c):
    return c.name if isinstance(c, Concept) else c


def numbering_rows(m, comm, nm, groups, conceptname, s):
    ch = comm.charges()
    defs = {c.name: c for c in comm.calls if c.name}
    rows = []
    for g in lst(defs[conceptname].kw.get("CHARGE")):
        if g.name not in ch:
            bad("subcase %d assembles the charge %s", s.id, g.name)
        rows += kine.charge_rows(ch[g.name], nm.to_in, m.coords, groups)
    want_rows(m, s, rows, conceptname)


def modal_ok(m, s, comm, nm, med, c):
    defs = {x.name: x for x in comm.calls if x.name}
    groups = med.nodegroups
    k = c.kw["MATR_RIGI"]
    for mat, opt in (("MATR_RIGI", "RIGI_MECA"),) + ((("MATR_MASS", "MASS_MECA"),) if s.kind == "modes" else (("MATR_RIGI_GEOM", "RIGI_GEOM"),)):
        a = c.kw.get(mat)
        if a is None or a.cmd != "ASSE_MATRICE":
            bad("subcase %d: %s is %r", s.id, mat, a)
        e = a.kw["MATR_ELEM"]
        if e.kw["OPTION"] != opt:
            bad("subcase %d: %s assembles %s", s.id, mat, e.kw["OPTION"])
        numbering_rows(m, comm, nm, groups, a.kw["NUME_DDL"].name, s)
        if opt == "RIGI_MECA" or opt == "MASS_MECA":
            numbering_rows(m, comm, nm, groups, e.name, s)
        elif opt == "RIGI_GEOM":
            f = e.kw["SIEF_ELGA"]
            if f.cmd != "CREA_CHAMP":
                bad("subcase %d: prestress is %r", s.id, f)
            m.prestress[s.id] = f.kw["RESULTAT"]
    nd, v1, v2, nrm = m.method[s.sel["METHOD"]]
    o = c.kw.get("OPTION")
    suffix = "FREQ" if s.kind == "modes" else "CHAR_CRIT"
    q = dict(lst(c.kw.get("CALC_" + suffix))[0])
    if nd is not None:
        if o != "PLUS_PETITE" or int(q.get("NMAX_" + suffix, -1)) != nd:
            bad("subcase %d asks for %d modes (METHOD %d): %s %s", s.id, nd, s.sel["METHOD"], o, q)
    else:
        lo = v1 if v1 is not None else (m.lfreq or 0.)
        f = [float(x) for x in lst(q.get("FREQ"))]
        if o != "BANDE" or len(f) != 2 or not close(f[0], lo, 1e-5) or not close(f[1], v2, 1e-5):
            bad("subcase %d asks for the modes of [%s, %s] (METHOD %d): %s %s", s.id, lo, v2, s.sel["METHOD"], o, q)
    if s.kind == "modes":
        n = lst(c.kw.get("NORM_MODE"))[0]["NORME"]
        if n != {"MASS": "MASS_GENE", "MAX": "TRAN_ROTA"}[nrm]:
            bad("subcase %d normalizes its modes by %s: %s", s.id, nrm, n)
        ext = [e for e in comm.all("EXTR_MODE") for f in lst(e.kw.get("FILTRE_MODE")) if f["MODE"] is c]
        if len(ext) != 1:
            bad("subcase %d: %d extractions of its modes", s.id, len(ext))
        f = lst(ext[0].kw["FILTRE_MODE"])[0]
        if not close(float(f["FREQ_MIN"]), m.lfreq or 0., 1e-5) or (m.hfreq and not close(float(f["FREQ_MAX"]), m.hfreq, 1e-5)) or \
                (not m.hfreq and float(f["FREQ_MAX"]) < 1e20):
            bad("subcase %d keeps its modes of [%s, %s]", s.id, f["FREQ_MIN"], f["FREQ_MAX"])
        return ext[0]
    return c


def check_aster(ctx, out, m):
    comm, med = out.comm, out.med
    nm = NodeMap(m.coords, med_coords(med))
    groups = med.nodegroups
    main = [c for c in comm.all("MECA_STATIQUE", "STAT_NON_LINE", "CALC_MODES", "CREA_RESU", "DYNA_VIBRA") if c.kw.get("reuse") is None]
    cmd = {"static": "MECA_STATIQUE", "nl": "STAT_NON_LINE", "modes": "CALC_MODES", "buck": "CALC_MODES"}
    want = [cmd[s.kind] for s in m.subs] + ["CREA_RESU"] * len(m.combos)
    if [c.cmd for c in main] != want:
        bad("the subcases %s become %s", [(s.id, s.kind) for s in m.subs] + [c[0] for c in m.combos], [c.cmd for c in main])
    result, m.prestress = {}, {}
    prev = None
    for s, c in zip(m.subs, main):
        ctx.stat(s.kind + " analyses judged")
        if s.kind in ("static", "nl"):
            rows, used = kine.aster_rows(comm, c, nm, m.coords, groups)
            want_rows(m, s, rows, None)
            result[s.id] = c
        if s.kind == "static":
            have = aster_nodal(comm, c, nm, groups)
            same_load(have, m.load[s.sel["LOAD"]], s)
        elif s.kind == "nl":
            nonlinear_ok(m, s, prev, result, comm, nm, groups, c)
        elif s.kind in ("modes", "buck"):
            if (c.kw.get("TYPE_RESU") == "MODE_FLAMB") != (s.kind == "buck"):
                bad("subcase %d (%s) computes %s", s.id, s.kind, c.kw.get("TYPE_RESU"))
            result[s.id] = modal_ok(m, s, comm, nm, med, c)
            if s.kind == "buck" and m.prestress[s.id].name != result[s.static].name:
                bad("subcase %d buckles under %r instead of the result %r of subcase %d", s.id, m.prestress[s.id], result[s.static], s.static)
        prev = s
    for (cid, co), c in zip(m.combos, main[len(m.subs):]):
        ctx.stat("SUBCOM judged")
        field = lst(c.kw["AFFE"])[0]["CHAM_GD"]
        have = {}
        for a in lst(field.kw.get("ASSE")):
            r = a["CHAM_GD"].kw["RESULTAT"]
            if a.get("CUMUL") != "OUI":
                bad("SUBCOM %d overwrites instead of adding", cid)
            hit = [k for k, v in result.items() if v is r or v.name == r.name]
            have[hit[0]] = have.get(hit[0], 0.) + float(a["COEF_R"])
        if {k for k in set(have) | set(co) if not close(have.get(k, 0.), co.get(k, 0.), 1e-5)}:
            bad("SUBCOM %d combines %s instead of %s", cid, have, co)


def same_load(have, want, s, what="", rel=1e-5):
    big = max([abs(x) for v in want.values() for x in v] + [1e-3])
    for n in set(have) | set(want):
        a, b = have.get(n, [0.] * 6), want.get(n, [0.] * 6)
        if any(abs(x - y) > rel * big for x, y in zip(a, b)):
            bad("subcase %d (%s%s), node %s: %s instead of %s", s.id, s.kind, what, n, a, b)


def tab(f):
    v = [float(x) for x in f.kw["VALE"]]
    return list(zip(v[0::2], v[1::2]))


def nonlinear_ok(m, s, prev, result, comm, nm, groups, c):
    inst = lst(c.kw["INCREMENT"])[0]["LIST_INST"]
    li = lst(inst.kw["DEFI_LIST"])[0]["LIST_INST"]
    t0 = float(li.kw["DEBUT"])
    it = lst(li.kw["INTERVALLE"])
    if len(it) != 1:
        bad("subcase %d: %d intervals", s.id, len(it))
    t1, n = float(it[0]["JUSQU_A"]), int(it[0]["NOMBRE"])
    k = m.subs.index(s)
    if n != m.nlparm[s.sel["NLPARM"]]:
        bad("subcase %d has %d increments for NLPARM %d (%d)", s.id, n, s.sel["NLPARM"], m.nlparm[s.sel["NLPARM"]])
    if t0 != m.t1 if k else False:
        bad("subcase %d starts at %g when the previous one ends at %g", s.id, t0, m.t1)
    if not t1 > t0:
        bad("subcase %d goes from %g to %g", s.id, t0, t1)
    m.t1 = t1

    class Up:
        pass
    up, down, cst = Up(), Up(), Up()
    for q in (up, down):
        q.kw = {"EXCIT": []}
    for f in lst(c.kw["EXCIT"]):
        fm = f.get("FONC_MULT")
        has = "FORCE_NODALE" in comm.charges()[f["CHARGE"].name].kw
        if fm is None:
            if has:
                bad("subcase %d applies its loads at once", s.id)
            continue
        tt = tab(fm)
        if tt == [(t0, 0.), (t1, 1.)]:
            up.kw["EXCIT"].append({"CHARGE": f["CHARGE"]})
        elif tt == [(t0, 1.), (t1, 0.)]:
            down.kw["EXCIT"].append({"CHARGE": f["CHARGE"]})
        else:
            bad("subcase %d multiplies %s by %s over [%g, %g]", s.id, f["CHARGE"].name, tt, t0, t1)
    same_load(aster_nodal(comm, up, nm, groups), m.load[s.sel["LOAD"]], s, " rising")
    same_load(aster_nodal(comm, down, nm, groups), m.load[prev.sel["LOAD"]] if prev else {}, s, " vanishing")
    e = c.kw.get("ETAT_INIT")
    if (e is not None) != (prev is not None):
        bad("subcase %d: initial state %s", s.id, e)
    if e is not None and lst(e)[0]["EVOL_NOLI"].name != result[prev.id].name:
        bad("subcase %d starts from %r instead of %r", s.id, lst(e)[0]["EVOL_NOLI"], result[prev.id])


def check_systus(ctx, out, m):
    for k, s in enumerate(m.subs, 1):
        a = out.asc(k)
        dat = out.r.text("_SC%d.DAT" % k)
        if dat is None:
            bad("no DAT file for subcase %d", s.id)
        ctx.stat(s.kind + " analyses judged")
        fixed = {(n, b + 1) for n, v in a.nodes.items() for b in range(6) if v["iconst"] >> b & 1}
        w = m.spc[s.sel["SPC"]]
        if fixed != w:
            bad("subcase %d (%s, SPC %d): %s are not fixed, %s should be free", s.id, s.kind, s.sel["SPC"], sorted(w - fixed)[:4], sorted(fixed - w)[:4])
        nd, v1, v2, nrm = m.method[s.sel["METHOD"]]
        v = re.findall(r"^VECTOR (\d+)(?: STURM FREQUENCY (\S+))? ITER", dat, re.M)
        sh = re.findall(r"^MODE SUBSPACE BLOCK \d+(?: FREQUENCY (\S+))?", dat, re.M)
        if len(v) != 1 or len(sh) != 1:
            bad("subcase %d: %d modal requests", s.id, len(v))
        if nd is not None and int(v[0][0]) != nd:
            bad("subcase %d asks for %d modes (METHOD %d): %s", s.id, nd, s.sel["METHOD"], v[0][0])
        if v2 is not None:
            lo = v1 if v1 is not None else (m.lfreq or 0.)
            if not v[0][1] or not sh[0] or abs(float(sh[0]) - (lo + v2) / 2) > 1e-5 * v2 or abs(float(v[0][1]) - (v2 - lo) / 2) > 1e-5 * v2:
                bad("subcase %d asks for [%s, %s]: centre %r, radius %r", s.id, lo, v2, sh[0], v[0][1])
        elif v[0][1] or sh[0]:
            bad("subcase %d asks for no band: centre %r, radius %r", s.id, sh[0], v[0][1])
        if ("NORM MASS" in dat) != (nrm == "MASS"):
            bad("subcase %d normalizes its modes by %s: %s", s.id, nrm, re.findall("^VECTOR.*$", dat, re.M))
    if out.r.text("_SC%d_DATA1.ASC" % (len(m.subs) + 1)) is not None:
        bad("more files than subcases")


SOLS = {"static": ("1,1", "101"), "modes": ("1,3", "103"), "nl": ("1,6", "106")}


def check_nastran(modern):
    def chk(ctx, out, m):
        b = out.nas
        sol = [re.sub(r"\s", "", l[3:]) for l in out.r.text("_vg.nas").split("\n") if l.startswith("SOL")]
        want = SOLS[m.subs[0].kind][modern]
        ctx.stat("executive sections judged")
        if sol != [want]:
            bad("the deck is written for SOL %s instead of %s", sol, want)
        cases = nas_cases(b)
        if [i for i, _ in cases] != [s.id for s in m.subs]:
            bad("subcases %s for %s", [i for i, _ in cases], [s.id for s in m.subs])
        sets, adds = {}, {}
        for c in b.of("SPC1"):
            sets.setdefault(c.i(0), set()).update((int(f), int(k)) for f in c.f[2:] if f for k in c.get(1))
        for c in b.of("SPC"):
            for q in (1, 4):
                if c.get(q):
                    sets.setdefault(c.i(0), set()).update((c.i(q), int(k)) for k in c.get(q + 1))
        for c in b.of("SPCADD"):
            adds[c.i(0)] = [int(x) for x in c.f[1:] if x]
        for k, v in adds.items():
            sets[k] = set().union(*[sets.get(x, set()) for x in v])
        loads = nas_nodal(b)
        for (i, sel), s in zip(cases, m.subs):
            ctx.stat(s.kind + " analyses judged")
            have, w = sets.get(sel.get("SPC"), set()), m.spc[s.sel["SPC"]]
            if have != w:
                bad("subcase %d (SPC %d, written %s): %s are not fixed, %s should be free", i, s.sel["SPC"], sel.get("SPC"), sorted(w - have)[:4],
                    sorted(have - w)[:4])
            if "LOAD" in s.sel:
                same_load(loads.get(sel.get("LOAD"), {}), m.load[s.sel["LOAD"]], s, rel=1e-3)
            elif "LOAD" in sel:
                bad("subcase %d is written with LOAD=%s", i, sel["LOAD"])
    return chk


def run(ctx):
    ctx.rule = ("beam chains with 1-3 SPC sets, 1-4 load sets, 1-3 EIGR/EIGRL and NLPARM, selected above or inside 1-5 subcases of "
                "SOL 101 (with SUBCOM), 103, 105, 106 and 200; non-trivial: two subcases or more")

    def one(family, to, chk, **kw):
        def f(rng, i):
            d, m = build(rng, family, to)
            out = Out(ctx, d.text(style(rng) if i % 2 else None, rng), to=to, **kw)
            try:
                chk(ctx, out, m)
            except Violation as v:
                raise out.tag(v)
            ctx.seen((to, family, repr(d.case)) if len(m.subs) > 1 else None)
            ctx.sample({"to": to, "sol": d.exec, "case": d.case})
        return f
    for family, n in (("static", 70), ("modes", 80), ("buck", 60), ("nl", 70), ("opt", 60)):
        ctx.cases("aster-" + family, ctx.n(n), one(family, "ASTER", check_aster))
    for family in ("static", "modes", "nl"):
        ctx.cases("nastran-" + family, ctx.n(20), one(family, "NASTRAN", check_nastran(0)))
        ctx.cases("modern-" + family, ctx.n(20), one(family, "NASTRAN", check_nastran(1), opts=["--nastran.OutputDialect=modern"]))
    ctx.cases("systus-modes", ctx.n(60), one("modes", "SYSTUS", check_systus, opts=["--solver-version", "2017"]))
