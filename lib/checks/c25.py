"""No analysis of a study is left with free freedoms that nothing stiffens and that only the translation added: in every
analysis each of them is held, linked or loaded."""
from fem import *  # noqa
from comm import lst
import kine

LEVEL = "exploration"
K6 = range(1, 7)
FULL = {"POU_D_E", "POU_D_T", "POU_D_TG", "DIS_TR", "DKT", "DST", "COQUE_3D", "DKTG"}
STIFF = {"POU_D_E": 6, "POU_D_T": 6, "POU_D_TG": 6, "DKT": 6, "DST": 6, "DKTG": 6, "COQUE_3D": 6, "3D": 3, "3D_SI": 3}


def comp(rng, among="123456"):
    return "".join(sorted(rng.sample(among, rng.randint(1, len(among)))))


def build(rng, modal, lone=False):
    d = Deck("SOL 103" if modal else "SOL 101")
    coords = {}
    nid = iter(ids(rng, 90, hi=9000))
    eid = iter(ids(rng, 60, hi=6000))
    nz = rng.randint(1, 3)
    lay = []
    for k in range(nz + 1):
        q = []
        for x, y in ((0, 0), (1, 0), (1, 1), (0, 1)):
            n = next(nid)
            coords[n] = (round(x + rng.uniform(-.15, .15), 3), round(y + rng.uniform(-.15, .15), 3), round(1.2 * k + rng.uniform(-.1, .1), 3))
            q.append(n)
        lay.append(q)
    solid = [n for q in lay for n in q]
    cards = [("MAT1", [1, 2.1e5, None, .3, 7.8e-6]), ("PSOLID", [1, 1]), ("PBAR", [2, 1, 1., .1, .2, .3]), ("PSHELL", [3, 1, .1])]
    for a, b in zip(lay, lay[1:]):
        if rng.random() < .3:
            cards += [("CPENTA", [next(eid), 1, a[0], a[1], a[2], b[0], b[1], b[2]]), ("CPENTA", [next(eid), 1, a[0], a[2], a[3], b[0], b[2], b[3]])]
        else:
            cards.append(("CHEXA", [next(eid), 1] + a + b))
    feats = set()
    others = []
    if rng.random() < .5:
        # a bar holds to the solid
        p = rng.choice(lay[-1])
        for k in range(rng.randint(1, 2)):
            n = next(nid)
            coords[n] = (coords[p][0] + dec(rng, .5, 1, 3), coords[p][1] + .2, coords[p][2] + dec(rng, .3, 1, 3))
            cards.append(("CBAR", [next(eid), 2, p, n, 0., 1., 0.1]))
            others.append(n)
            p = n
        feats.add("bar")
    if rng.random() < .3:
        a, b = lay[0][0], lay[0][1]
        m, n = next(nid), next(nid)
        coords[m] = (coords[b][0], coords[b][1] - 1.1, coords[b][2])
        coords[n] = (coords[a][0], coords[a][1] - 1.2, coords[a][2])
        cards.append(("CQUAD4", [next(eid), 3, a, b, m, n]))
        others += [m, n]
        feats.add("shell")
    dm = []
    if rng.random() < .4:
        # a matrix between nodes, of translations or with some rotations
        for k in range(rng.randint(1, 2)):
            n = next(nid)
            coords[n] = (round(3 + 1.3 * k, 3), dec(rng, 1, 2, 3), dec(rng, .1, 2, 3))
            dm.append(n)
        if rng.random() < .5:
            dm.append(rng.choice(solid))
        rot = rng.random() < .6
        cards.append(("DMIG", ["KAA", 0, 6, 1, 0]))
        for k, n in enumerate(dm):
            for c in sorted(set(comp(rng, "123") + (comp(rng, "456") if rot else ""))):
                row = [n, int(c), dec(rng, 10, 90, 3), None]
                if k:
                    cards.append(("DMIG", ["KAA", n, int(c), None] + row))
                    row = [dm[k - 1], int(c), dec(rng, 1, 9, 3), None]
                cards.append(("DMIG", ["KAA", n, int(c), None] + row))
        d.case.append("K2GG=KAA")
        feats.add("DMIG with rotations" if rot else "DMIG")
    if rng.random() < .4:
        # scalar springs between nodes of the model, or to the ground
        for k in range(rng.randint(1, 2)):
            a, b = rng.sample(solid + others, 2)
            c = rng.randint(1, 3) if {a, b} & set(solid) else rng.randint(1, 6)
            cards.append(("CELAS2", [next(eid), dec(rng, 10, 90, 3), a, c] + rng.choice([[], [b, c]])))
        feats.add("CELAS2")
    if rng.random() < .3:
        a, b = rng.sample(solid + others, 2)
        e = next(eid)
        # on nodes of solids all the stiffnesses: Nastran itself holds what a spring leaves free there (AUTOSPC)
        kk = [dec(rng, 10, 90, 3) if {a, b} & set(solid) or rng.random() < .5 else None for q in range(6)]
        kk[rng.randint(0, 2)] = 50.
        cards += [("PBUSH", [60, "K"] + kk), ("CBUSH", [e, 60, a, b, 0.3, 1., 0.2])]
        feats.add("CBUSH")
    if rng.random() < .3:
        cards.append(("CONM2", [next(eid), rng.choice(solid + others), None, dec(rng, 1, 9, 3)] ))
        feats.add("CONM2")
    if rng.random() < .3:
        a, b = rng.sample(solid, 2)
        cards.append(("RBE2", [next(eid), a, "123456", b]))
        feats.add("RBE2")
    lones = []
    for k in range(rng.randint(1, 2) if lone else 0):
        n = next(nid)       # in no element
        coords[n] = (round(5 + 1.3 * k, 3), dec(rng, 1, 2, 3), dec(rng, .1, 2, 3))
        lones.append(n)
    # sets of constraints
    alln = solid + others + dm + lones
    sids = ids(rng, 4, hi=400)
    sets = []
    for s in sids[:rng.randint(1, 4)]:
        for _ in range(rng.randint(1, 3)):
            nn = rng.sample(alln, rng.randint(1, min(5, len(alln))))
            if rng.random() < .7:
                nn += [n for n in lones if n not in nn]
            cards.append(("SPC1", [s, comp(rng)] + nn))
        sets.append(s)
    mid = ids(rng, 2, hi=300)
    msets = []
    for s in mid[:rng.randint(0, 2)]:
        a, b = rng.sample(alln, 2)
        cards.append(("MPC", [s, a, rng.randint(1, 6), 1., b, rng.randint(1, 6), -1.]))
        msets.append(s)
    lids = ids(rng, 3, hi=200)
    loads = {}
    for s in lids:
        n = rng.choice(alln)
        v = [rng.choice([0., dec(rng, 1, 9, 2)]) for _ in range(3)]
        if not any(v):
            v[0] = 1.
        m = rng.random() < .35
        cards.append(("MOMENT" if m else "FORCE", [s, n, None, 2.] + v))
        loads[s] = {(n, k + (4 if m else 1)) for k in range(3) if v[k]}
    for n, c in list(coords.items()):
        c = coords[n] = tuple(round(x, 3) for x in c)
        ps = comp(rng) if rng.random() < .06 else None
        if ps:
            feats.add("PS")
        cards.append(("GRID", [n, None] + list(c) + [None, ps]))
    rng.shuffle(cards)
    cards.sort(key=lambda c: not (c[0] == "DMIG" and c[1][1] == 0))
    for name, f in cards:
        d.add(name, *f)
    if modal:
        d.add("EIGRL", 77, None, None, 4)
    scid = 0
    loaded = []
    for k in range(rng.randint(1, 4)):
        scid += rng.randint(1, 4)
        d.case += ["SUBCASE %d" % scid]
        l = None
        if modal:
            d.case.append("  METHOD=77")
        else:
            l = rng.choice(lids)
            d.case.append("  LOAD=%d" % l)
        if rng.random() < .85:
            d.case.append("  SPC=%d" % rng.choice(sets))
        if msets and rng.random() < .6:
            d.case.append("  MPC=%d" % rng.choice(msets))
            feats.add("MPC")
        loaded.append(loads.get(l, set()))
    if lone:
        feats.add("nodes without elements")
    return d, coords, loaded, feats, lones


def modelled(comm, med, nm):
    """the freedoms of the model, and those that its bars, shells and solids stiffen"""
    exist, stiff = set(), set()
    last = {}
    for a in lst(comm.one("AFFE_MODELE").kw.get("AFFE")):
        for g in lst(a.get("GROUP_MA")):
            for c in med.cellgroups.get(g, ()):
                last[c] = lst(a["MODELISATION"])
    for c, mod in last.items():
        for n in med.cells[c][1]:
            n = nm.to_in.get(n, -n)
            exist |= {(n, k) for k in K6 if k <= 3 or set(mod) & FULL}
            for m in mod:
                stiff |= {(n, k) for k in K6 if k <= STIFF.get(m, 0)}
    return exist, stiff


def discretes(out, nm):
    """freedoms with a stiffness in a discrete element"""
    st = set()
    for groups, f in out.comm.cara("DISCRET"):
        cara = f["CARA"].split("_")
        kind, tr, diag = cara[0], cara[1], "D" in cara[2:]
        if kind != "K":
            continue
        vals = [float(x) for x in lst(f["VALE"])]
        nc = 6 if tr == "TR" else 3
        for g in groups:
            for c in out.med.members(g):
                cn = [nm.to_in.get(n, -n) for n in out.med.cells[c][1]]
                fr = [(n, k) for n in cn for k in range(1, nc + 1)]
                if diag:
                    st |= {f for q, f in enumerate(fr) if vals[q % nc]}
                else:
                    p = 0
                    for j in range(len(fr)):
                        for i in range(j + 1):
                            if vals[p]:
                                st |= {fr[i], fr[j]}
                            p += 1
    return st


def check(out, coords, loaded, lones=()):
    nm = NodeMap(coords, med_coords(out.med))
    exist, stiff = modelled(out.comm, out.med, nm)
    stiff |= discretes(out, nm)
    an = out.comm.analyses()
    if len(an) != len(loaded):
        raise Violation("analysis-count", "%d analyses for %d subcases" % (len(an), len(loaded)))
    weak = exist - stiff
    rot = kine.aster_rotational(out.comm, out.med, nm)
    n = 0
    rest = []
    somewhere = set().union(*loaded)
    for i, ((oid, c), ld) in enumerate(zip(an, loaded)):
        if c.cmd == "MECA_STATIQUE":
            rows, used = kine.aster_rows(out.comm, c, nm, coords, out.med.nodegroups, rot)
        else:
            rows = []
            mat = c.kw["MATR_RIGI"]
            for el in lst(mat.kw["MATR_ELEM"]) if mat.cmd == "ASSE_MATRICE" else []:
                for ch in lst(el.kw.get("CHARGE")):
                    rows += kine.charge_rows(ch, nm.to_in, coords, out.med.nodegroups, rot)
        held = {f for r, b in rows for f in r}
        somewhere |= held
        rest += [(oid, f) for f in sorted(weak - held - ld) if f[0] in lones]
        free = sorted(f for f in weak - held - ld if f[0] not in lones)
        if free:
            raise Violation("free", "in analysis %s, nothing stiffens, links or holds freedom %d of node %d (and %d others)" %
                            (oid, free[0][1], free[0][0], len(free) - 1))
        gone = sorted(f for f in held if len(f) == 2 and not isinstance(f[0], tuple) and f not in exist)
        if gone:
            raise Violation("absent", "in analysis %s, freedom %d of node %d is held but not in the model" % (oid, gone[0][1], gone[0][0]))
        n += len(weak)
    for oid, f in sorted(rest, key=lambda x: x[1] in somewhere):
        # a node without elements keeps free, where an analysis does not use them, the freedoms that another one uses
        raise Violation("free-lone" if f in somewhere else "free", "in analysis %s, nothing stiffens, links or holds freedom %d of node %d, in no element" % (oid, f[1], f[0]))
    return n


def run(ctx):
    ctx.rule = ("solids with bars, shells, stiffness matrices (DMIG), RBE2 and SPC1, PS, MPC, FORCE and MOMENT on any freedoms of any nodes, "
                "1-4 subcases of SOL 101; non-trivial: some freedom of the written model has no stiffness of its own")

    def one(modal, lone=False):
        def f(rng, i):
            d, coords, loaded, feats, lones = build(rng, modal, lone)
            out = Out(ctx, d.text(), to="ASTER")
            try:
                n = check(out, coords, loaded, lones)
            except Violation as v:
                raise out.tag(v)
            for x in feats:
                ctx.stat(x)
            ctx.stat("weak freedoms of analyses observed", n)
            ctx.seen((modal, repr(d.bulk)) if n else None)
            ctx.sample({"case": d.case, "features": sorted(feats)})
        return f
    ctx.cases("static", ctx.n(200), one(False))
    ctx.cases("lone", ctx.n(60), one(False, True))
    ctx.cases("modal", ctx.n(100), one(True))
