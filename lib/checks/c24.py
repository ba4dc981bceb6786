"""Contact: gaps, sliding lines, contact surfaces and contact tables keep the pairs, openings, directions and friction of
the deck, in the analyses that select them, and leave the other constraints of the model as they are."""
import math

from fem import *  # noqa
from comm import lst

LEVEL = "exploration"


def build(rng, kind, nl=True):
    d = Deck("SOL 106" if nl else "SOL 101")
    coords = {}
    nid = iter(ids(rng, 80, hi=9000))
    eid = iter(ids(rng, 40, hi=6000))
    quads = {}
    layers = []
    for k in range(rng.randint(3, 4)):
        nx = rng.randint(1, 3)
        g = [[None] * 2 for _ in range(nx + 1)]
        for i in range(nx + 1):
            for j in range(2):
                n = next(nid)
                coords[n] = (round(1. * i + rng.uniform(-.2, .2), 3), round(j + rng.uniform(-.2, .2), 3), round(1.5 * k + rng.uniform(-.2, .2), 3))
                g[i][j] = n
        es = []
        for i in range(nx):
            e = next(eid)
            quads[e] = [g[i][0], g[i + 1][0], g[i + 1][1], g[i][1]]
            es.append(e)
        layers.append((g, es))
    for n, c in coords.items():
        d.add("GRID", n, None, *c)
    d.add("MAT1", 1, 2.1e5, None, .3)
    d.add("PSHELL", 1, 1, .1)
    for e, q in quads.items():
        d.add("CQUAD4", e, 1, *q)
    # the first layer is free, the others are held
    held = [n for g, _ in layers[1:] for r in g for n in r]
    free = [n for r in layers[0][0] for n in r]
    d.add("SPC1", 901, 123456, *held[:6])
    for n in held[6:]:
        d.add("SPC1", 901, 123456, n)
    m = dict(gaps=[], zones={}, slides=[], surfs=[], rigid=None, sel=[], free=free)
    if rng.random() < .4 and len(free) > 5:
        # a rigid link is in the same place of the model as the gaps
        a, b = free[0], free[-1]
        e = next(eid)
        d.add("RBE2", e, a, 123456, b)
        m["rigid"] = (a, b)
    if kind == "gap":
        pids = ids(rng, rng.randint(1, 3), hi=500)
        cards = []
        for p in pids:
            u = rng.choice([None, 0., dec(rng, .001, 2, 3)])
            cards.append(("PGAP", [p, u, rng.choice([None, 0.]), 1e7] + rng.choice([[], [1e5]])))
            for _ in range(rng.randint(1, 3)):
                a = rng.choice(free)
                if m["rigid"] and a == m["rigid"][1]:
                    continue
                b = rng.choice(held)
                v = sub(coords[b], coords[a])
                if rng.random() < .4:
                    # an opposite point in line with a direction of the frame
                    b = next(nid)
                    ax = rng.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (1, 1, 0), (0, 1, -1), (-1, 0, 1)])
                    s = rng.choice([.5, 1., 2.])
                    coords[b] = tuple(round(x + s * y, 3) for x, y in zip(coords[a], ax))
                    if any(n != b and norm(sub(c, coords[b])) < .05 for n, c in coords.items()):
                        del coords[b]
                        continue
                    cards.append(("GRID", [b, None] + list(coords[b])))
                    cards.append(("SPC1", [901, 123456, b]))
                    v = sub(coords[b], coords[a])
                if any(g[0] == a and vclose(g[2], unit(v), 1e-3) for g in m["gaps"]):
                    continue
                cards.append(("CGAP", [next(eid), p, a, b, 1., 0., 0.]))
                m["gaps"].append((a, u or 0., unit(v)))
        if rng.random() < .5:
            rng.shuffle(cards)
        for name, f in cards:
            d.add(name, *f)
    elif kind == "zone":
        body = {}
        bsurf = set()
        for k, (g, es) in enumerate(layers):
            b, s = ids(rng, 2, hi=300)
            while b in body:
                b += 1
            body[b] = es
            bs = s + 300 * k
            if rng.random() < .5:
                # a surface may bear the number of a body
                bs = rng.choice([b] + list(body))
                while bs in bsurf:
                    bs += 1
            bsurf.add(bs)
            d.add("BCBODY", b, None, None, bs)
            d.add("BSURF", bs, *es)
        bids = list(body)
        for t in ids(rng, rng.randint(1, 2), hi=99):
            z = []
            if rng.random() < .5:
                a, b = rng.sample(bids, 2)
                d.add("BCTABLE", t, a, b)
                z.append((body[a], body[b]))
            else:
                n = rng.randint(1, 3)
                f = [t, None, None, n, None, None, None, None]
                pairs = [tuple(rng.sample(bids, 2)) for _ in range(n)]
                for q, (a, b) in enumerate(pairs):
                    f += ["SLAVE", a] + [None] * 6 + ["MASTERS", b] + ([None] * 6 if q < n - 1 else [])
                    z.append((body[a], body[b]))
                d.add("BCTABLE", *f)
            m["zones"][t] = z
    elif kind == "slide":
        lid = iter(ids(rng, 20, hi=400))
        lines = []
        for g, _ in layers:
            s = next(lid)
            n = [r[0] for r in g] + ([r[1] for r in g[::-1]] if rng.random() < .5 else [])
            d.add("BLSEG", s, *n)
            lines.append((s, n))
        for q in range(rng.randint(1, 2)):
            (s, sn), (t, tn) = rng.sample(lines, 2)
            fid, fr = 700 + q, dec(rng, .05, .9, 2)
            d.add("BFRIC", fid, None, None, fr)
            d.add("BCONP", next(lid) + 1000, s, t, None, 1., fid, rng.choice([1, 2]), 0)
            m["slides"].append((sn, tn, fr))
    elif kind == "surf":
        lid = iter(ids(rng, 20, hi=400))
        surfs = []
        for g, es in layers:
            s, seg, f = next(lid), [], []
            for q, e in enumerate(es):
                c = quads[e]
                if rng.random() < .3:
                    c = c[:3]
                seg.append(tuple(c))
                f += c + ([0] if len(c) == 3 and (q < len(es) - 1 or rng.random() < .5) else [])
            d.add("BSSEG", s, *f)
            surfs.append((s, seg))
        for q in range(rng.randint(1, 2)):
            (s, sn), (t, tn) = rng.sample(surfs, 2)
            d.add("BSCONP", next(lid) + 1000, s, t)
            m["surfs"].append((sn, tn))
    d.add("NLPARM", 42, rng.randint(1, 5))
    d.add("FORCE", 902, free[1], None, 1., 1., 2., 3.)
    d.case.append("SPC=901")
    if nl:
        d.case.append("NLPARM=42")
    scid = 0
    glob = rng.choice(list(m["zones"])) if m["zones"] and rng.random() < .4 else None
    if glob:
        d.case.append("BCONTACT=%d" % glob)
    for k in range(rng.randint(1, 2)):
        scid += rng.randint(1, 4)
        d.case += ["SUBCASE %d" % scid, "  LOAD=902"]
        own = glob
        if m["zones"] and (not glob or rng.random() < .5):
            own = rng.choice(list(m["zones"]))
            d.case.append("  BCONTACT=%d" % own)
        m["sel"].append((scid, own))
    rng.shuffle(d.bulk)
    return d, m, coords, quads


def cells(out, nm, name):
    """the cells of a group, by the nodes of the deck"""
    r = []
    for t, i in sorted(out.med.members(name)):
        num, conn, fam = out.med.cells[(t, i)]
        r.append((t, tuple(nm.to_in[n] for n in conn)))
    return r


def number(v):
    return float(v.kw["VALE"]) if hasattr(v, "kw") else float(v)


def zones_of(out, c, m, coords, quads, own):
    nm = out.nm
    zz = lst(c.kw.get("ZONE"))
    form = c.kw.get("FORMULATION")
    if m["gaps"]:
        if form != "LIAISON_UNIL":
            raise Violation("formulation", "gaps are written with the formulation %s" % form)
        have = []
        for z in zz:
            comp, mult = lst(z["NOM_CMP"]), lst(z["COEF_MULT"])
            if len(comp) != len(mult):
                raise Violation("gap", "%d components and %d coefficients" % (len(comp), len(mult)))
            v = [0.] * 3
            for a, b in zip(comp, mult):
                v["DX DY DZ".split().index(a.strip())] += number(b)
            names = [nm.to_in[int(n[1:])] for n in lst(z["NOEUD"])]
            for n in names:
                have.append((n, number(z["COEF_IMPO"]), tuple(v)))
        left = list(have)
        for n, u, v in m["gaps"]:
            for h in left:
                if h[0] == n and abs(h[1] - u) < 1e-6 * (1 + u) and vclose(h[2], v, 1e-5):
                    left.remove(h)
                    break
            else:
                raise Violation("gap", "the gap of node %d, opening %g, direction %s is not among %s" % (n, u, v, [h for h in have if h[0] == n]))
        if left:
            raise Violation("gap", "unexpected gaps %s" % left)
        return len(have)
    if form not in (("CONTINUE",) if m["slides"] or m["surfs"] else (None, "DISCRETE", "CONTINUE")):
        raise Violation("formulation", "%s" % form)
    pairs = []
    for z in zz:
        side = []
        for k in ("GROUP_MA_ESCL", "GROUP_MA_MAIT"):
            side.append(sorted(x for g in lst(z[k]) for x in cells(out, nm, g)))
        pairs.append((side[0], side[1], z.get("COULOMB")))
    want = []

    def turn(c):
        k = c.index(min(c))
        return c[k:] + c[:k]

    def same_face(a, b):
        return a[0] == b[0] and (a[1] == b[1] or (a[0] == "SEG2" and a[1] == b[1][::-1]) or turn(a[1]) == turn(b[1]) or turn(a[1]) == turn(b[1][::-1]))
    if m["zones"]:
        want = [(sorted(("QUAD4", tuple(quads[e])) for e in a), sorted(("QUAD4", tuple(quads[e])) for e in b), None) for a, b in m["zones"][own]]
    for a, b, fr in m["slides"]:
        want.append(([("SEG2", p) for p in zip(a, a[1:])], [("SEG2", p) for p in zip(b, b[1:])], fr))
    for a, b in m["surfs"]:
        want.append(tuple([("TRI3" if len(f) == 3 else "QUAD4", f) for f in s] for s in (a, b)) + (None,))

    def same_side(a, b):
        return len(a) == len(b) and all(any(same_face(x, y) for y in b) for x in a)
    left = list(pairs)
    for a, b, fr in want:
        for h in left:
            if same_side(a, h[0]) and same_side(b, h[1]) and (fr is None or (h[2] is not None and abs(fr - number(h[2])) < 1e-9)):
                left.remove(h)
                break
        else:
            raise Violation("pair", "the pair %s / %s, friction %s is not among %s" % (a, b, fr, pairs))
    if left:
        raise Violation("pair", "unexpected pairs %s" % left)
    if m["slides"] and c.kw.get("FROTTEMENT") != "COULOMB":
        raise Violation("formulation", "FROTTEMENT=%s" % c.kw.get("FROTTEMENT"))
    return len(want)


def rigid_in(charges, m, out):
    """is the rigid link among these load concepts?"""
    a, b = m["rigid"]
    for c in charges:
        for k in ("LIAISON_SOLIDE", "LIAISON_ELEM", "LIAISON_MAIL", "LIAISON_DDL"):
            for q in lst(c.kw.get(k)):
                names = [n for n in lst(q.get("NOEUD")) + lst(q.get("NOEUD_ESCL")) + lst(q.get("NOEUD_MAIT"))]
                for g in lst(q.get("GROUP_NO")):
                    names += ["N%d" % n for n in out.med.nodegroups.get(g, ())]
                for g in lst(q.get("GROUP_MA")):
                    names += ["N%d" % n for t, i in out.med.members(g) for n in out.med.cells[(t, i)][1]]
                for g in lst(q.get("MAILLE")):
                    names += ["N%d" % n for (t, i), x in out.med.cells.items() if "M%d" % x[0] == g for n in x[1]]
                if {out.nm.to_in[int(n[1:])] for n in names} >= {a, b}:
                    return True
    return False


def check(out, m, coords, quads, nl):
    out.nm = NodeMap(coords, med_coords(out.med))
    res = [c for c in out.comm.all("STAT_NON_LINE" if nl else "MECA_STATIQUE")]
    if len(res) != len(m["sel"]):
        raise Violation("analyses", "%d analyses instead of %d" % (len(res), len(m["sel"])))
    n = 0
    for c, (scid, own) in zip(res, m["sel"]):
        charges = [x["CHARGE"] for x in lst(c.kw.get("EXCIT"))]
        for x in charges:
            if x.cmd not in ("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F"):
                raise Violation("excit", "subcase %d loads the structure with a %s" % (scid, x.cmd))
        if not any("DDL_IMPO" in x.kw for x in charges):
            raise Violation("constraint", "subcase %d lost its SPC set" % scid)
        if not any("FORCE_NODALE" in x.kw for x in charges):
            raise Violation("constraint", "subcase %d lost its forces" % scid)
        if m["rigid"] and not rigid_in(charges, m, out):
            raise Violation("constraint", "subcase %d lost the rigid link %s" % (scid, m["rigid"]))
        if not nl:
            continue
        k = lst(c.kw.get("CONTACT"))
        wanted = m["gaps"] or m["slides"] or m["surfs"] or own
        if len(k) != (1 if wanted else 0):
            raise Violation("contact", "subcase %d uses %d contacts" % (scid, len(k)))
        if wanted:
            n += zones_of(out, k[0], m, coords, quads, own)
    return n


HEXA_FACES = ((0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7))
TETRA_FACES = ((0, 1, 2), (0, 1, 3), (1, 2, 3), (0, 2, 3))


def build_solid(rng):
    """an Optistruct deck: bodies of solid elements, surfaces made of their faces, contacts between the surfaces"""
    d = Deck("SOL 101")

    coords = {}
    nid = iter(ids(rng, 200, hi=9000))
    eid = iter(ids(rng, 90, hi=6000))
    sid = iter(ids(rng, 20, hi=400))
    cid = iter(ids(rng, 20, hi=400))
    bodies = []
    solids = {}
    held, free = [], []
    for k in range(rng.randint(2, 4)):
        nx, kind = rng.randint(1, 3), rng.choice(["CHEXA", "CHEXA", "CTETRA"])
        g = {}
        for i in range(nx + 1):
            for j in range(2):
                for z in range(2):
                    n = g[i, j, z] = next(nid)
                    coords[n] = tuple(round(v + rng.uniform(-.15, .15), 3) for v in (i, j, 1.6 * k + z))
        es = []
        for i in range(nx):
            h = [g[i + a, b, c] for c in range(2) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
            for c in [h] if kind == "CHEXA" else [[h[q] for q in t] for t in ((0, 1, 3, 4), (1, 2, 3, 6), (1, 6, 3, 4), (1, 5, 6, 4), (3, 6, 7, 4))]:
                e = next(eid)
                solids[e] = c
                es.append(e)
        bodies.append(es)
        (free if k == 0 else held).extend(sorted(set(g.values())))
    d.add("MAT1", 1, 2.1e5, None, .3)
    d.add("PSOLID", 1, 1)
    for n, c in coords.items():
        d.add("GRID", n, None, *c)
    for e, c in solids.items():
        d.add("CHEXA" if len(c) == 8 else "CTETRA", e, 1, *c)
    surfs, cards = [], []
    for es in bodies:
        for _ in range(rng.randint(1, 2)):
            s, faces, f = next(sid), [], []
            for e in rng.sample(es, rng.randint(1, min(4, len(es)))):
                c = solids[e]
                q = rng.choice(HEXA_FACES if len(c) == 8 else TETRA_FACES)
                if len(c) == 8:
                    # two opposite corners
                    a, b = rng.choice([(q[0], q[2]), (q[1], q[3]), (q[2], q[0]), (q[3], q[1])])
                else:
                    # a corner and the node that is not on the face
                    a, b = rng.choice(q), 6 - sum(q)
                faces.append((e, tuple(c[x] for x in q)))
                f += ([None] * 4 if f else []) + [e, c[a], c[b]]
                f += rng.choice([[0], [1]])
            surfs.append((s, faces, es))
            cards.append(("SURF", [s, "ELFACE"] + [None] * 6 + f))
    m = dict(pairs=[], free=free)
    for _ in range(rng.randint(1, 2)):
        a, b = rng.sample(surfs, 2)
        if a[2] is b[2] or any({a[0], b[0]} == {x[0], y[0]} for x, y in m["pairs"]):
            continue
        cards.append(("CONTACT", [next(cid), "SLIDE", a[0], b[0]]))
        m["pairs"].append((a, b))
    for name, f in cards:
        d.add(name, *f)
    for n in held:
        d.add("SPC1", 901, 123456, n)
    d.add("FORCE", 902, free[1], None, 1., 1., 2., 3.)
    d.case.append("SPC=901")
    m["sel"] = []
    scid = 0
    for _ in range(rng.randint(1, 2)):
        scid += rng.randint(1, 4)
        d.case += ["SUBCASE %d" % scid, "  ANALYSIS STATICS", "  LOAD=902"]
        m["sel"].append(scid)
    rng.shuffle(d.bulk)
    return d, m, coords, solids


def check_solid(out, m, coords, solids):
    nm = out.nm = NodeMap(coords, med_coords(out.med))
    res = out.comm.all("MECA_STATIQUE")
    if len(res) != len(m["sel"]):
        raise Violation("analyses", "%d analyses instead of %d" % (len(res), len(m["sel"])))

    def skin(faces):
        return sorted(tuple(sorted(f)) for e, f in faces)

    def side(groups):
        return [x for g in lst(groups) for x in cells(out, nm, g)]
    want = sorted((skin(a[1]), sorted((tuple(solids[e]) for e, f in b[1]))) for a, b in m["pairs"])
    for c, scid in zip(res, m["sel"]):
        have = []
        for x in lst(c.kw.get("EXCIT")):
            for z in lst(x["CHARGE"].kw.get("LIAISON_MAIL")):
                if z.get("DDL_MAIT") != "DNOR" or z.get("DDL_ESCL") != "DNOR":
                    raise Violation("formulation", "a sliding contact ties %s to %s" % (z.get("DDL_ESCL"), z.get("DDL_MAIT")))
                s = side(z["GROUP_MA_ESCL"])
                for t, conn in s:
                    if t not in ("TRI3", "QUAD4"):
                        raise Violation("pair", "a slave cell is a %s" % t)
                have.append((sorted(tuple(sorted(conn)) for t, conn in s), sorted(set(frozenset(conn) for t, conn in side(z["GROUP_MA_MAIT"])), key=sorted)))
        if sorted((a, sorted(map(sorted, b))) for a, b in have) != sorted((a, sorted(map(sorted, set(map(frozenset, b))))) for a, b in want):
            raise Violation("pair", "subcase %d ties %s instead of %s" % (scid, have, want))
    # the normals of both sides are made consistent
    oriented = set()
    for c in out.comm.all("MODI_MAILLAGE"):
        for z in lst(c.kw.get("ORIE_PEAU_3D")):
            oriented |= {tuple(sorted(conn)) for t, conn in side(z["GROUP_MA"])}
    for a, b in m["pairs"]:
        for f in skin(a[1]) + skin(b[1]):
            if f not in oriented:
                raise Violation("orientation", "the face %s is not oriented" % (f,))
    return len(want)




def run(ctx):
    ctx.rule = ("non linear static decks with 1-3 PGAP of 1-3 CGAP each (any direction, several gaps on a node), 1-2 BCTABLE of "
                "1-3 pairs of bodies selected by BCONTACT, 1-2 BCONP with friction, 1-2 BSCONP of triangles and quadrangles, rigid "
                "links besides; and the same decks as linear ones; non-trivial: more than one pair or gap compared")

    def one(kind, nl=True):
        def f(rng, i):
            d, m, coords, quads = build(rng, kind, nl)
            st = Style.random(rng)
            st.trim = st.tabs = False
            try:
                text = d.text(st, rng)
            except ValueError:
                text = d.text(None, rng)
            out = Out(ctx, text, to="ASTER", fmt="NASTRAN")
            try:
                n = check(out, m, coords, quads, nl)
            except Violation as v:
                raise out.tag(v)
            ctx.stat("%s compared" % kind, n)
            ctx.stat("rigid links besides", bool(m["rigid"]))
            ctx.seen((kind, nl, repr(m)) if n > 1 or not nl else None)
            ctx.sample({"kind": kind, "case": d.case, "gaps": m["gaps"][:3]})
        return f
    for kind, n in (("gap", 60), ("zone", 50), ("slide", 40), ("surf", 40)):
        ctx.cases(kind, ctx.n(n), one(kind))

    def solid(rng, i):
        d, m, coords, solids = build_solid(rng)
        st = Style.random(rng)
        st.trim = st.tabs = False
        try:
            text = d.text(st, rng)
        except ValueError:
            text = d.text(None, rng)
        out = Out(ctx, text, to="ASTER", fmt="OPTISTRUCT")
        try:
            n = check_solid(out, m, coords, solids)
        except Violation as v:
            raise out.tag(v)
        ctx.stat("surfaces of solids compared", n)
        ctx.seen(("solid", repr(m)) if n else None)
    ctx.cases("solid", ctx.n(40), solid)
    for kind in ("gap", "slide"):
        ctx.cases("linear-" + kind, ctx.n(15), one(kind, False))
