"""Nodal loads: the force and moment every analysis applies to every node are those its subcase selects."""
from fem import *  # noqa
import cs as CSM
import re
from comm import lst, node

LEVEL = "exploration"
FC = ("FX", "FY", "FZ", "MX", "MY", "MZ")


def vec(rng):
    while True:
        v = tuple(dec(rng, -2, 2, 3) if rng.random() < .75 else 0. for _ in range(3))
        if norm(v) > .1:
            return v


def build(rng, to):
    d = Deck()
    nb = rng.randint(3, 9)
    nid = ids(rng, nb + 1)
    coords = {}
    for k, n in enumerate(nid):
        coords[n] = (round(1.5 * k + rng.uniform(-.3, .3), 3), dec(rng, -2, 2, 3), dec(rng, -2, 2, 3))
    cards = [("GRID", [n, None] + list(coords[n])) for n in nid]
    cards.append(("MAT1", [1, 2.1e11, None, .3]))
    cards.append(("PBAR", [1, 1, 2., .4, .3, .5]))
    for k in range(nb):
        cards.append(("CBAR", [k + 1, 1, nid[k], nid[k + 1], 0.1, 0.2, 1.]))
    # coordinate systems, the second level defined in a rectangular one
    systems = {0: CSM.BASIC}
    for cid in ids(rng, rng.randint(1, 4), hi=90):
        kind = rng.choice("RC")
        a, b, c = CSM.rand_points(rng)
        rid = 0
        base = [k for k, s in systems.items() if s.kind == "R"]
        if rng.random() < .4:
            rid = rng.choice(base)
        r = systems[rid]
        if kind == "C" and not rid and rng.random() < .5:
            # an axis that passes close to a node
            p = coords[rng.choice(nid)]
            t = [p[q] + rng.choice([-1, 1]) * rng.uniform(.004, .09) - a[q] for q in range(3)]
            a, b, c = [tuple(round(x + y, 4) for x, y in zip(w, t)) for w in (a, b, c)]
            if norm(cross(unit(sub(b, a)), unit(sub(c, a)))) < .05:
                continue
        systems[cid] = CSM.from_points(kind, r.point(a), r.point(b), r.point(c))
        cards.append(("CORD2" + kind, [cid, rid or None] + list(a) + list(b) + list(c)))
    feats = set()
    sets = {}

    def usable(cid, n):
        s = systems[cid]
        if s.kind == "R":
            return True
        dd = sub(coords[n], s.o)
        return math.hypot(dot(dd, s.ex), dot(dd, s.ey)) > .003
    sids = ids(rng, 8, hi=300)
    for sid in sids[:rng.randint(1, 4)]:
        sets[sid] = {}
        for _ in range(rng.randint(1, 6)):
            n = rng.choice(nid)
            t = rng.random()
            if t < .65:
                kind = "FORCE" if t < .4 else "MOMENT"
                cid = rng.choice([0, 0] + list(systems))
                if not usable(cid, n):
                    continue
                f, v = dec(rng, -20, 20, 3), vec(rng)
                if abs(f) < .1:
                    continue
                cards.append((kind, [sid, n, cid if cid or rng.random() < .5 else None, f] + [x if x or rng.random() < .5 else None for x in v]))
                g = mul(systems[cid].vec_at(coords[n], v), f)
                feats.add(kind + "-" + systems[cid].kind)
            elif t < .85:
                kind = "FORCE"
                a, b = rng.sample(nid, 2)
                f = dec(rng, 1, 20, 3)
                cards.append(("FORCE1", [sid, n, f, a, b]))
                g = mul(unit(sub(coords[b], coords[a])), f)
                feats.add("FORCE1")
            else:
                kind = "FORCE"
                if len(nid) < 4:
                    continue
                a, b, c, e = rng.sample(nid, 4)
                if rng.random() < .4:
                    c = a
                f = dec(rng, 1, 20, 3)
                w = cross(sub(coords[b], coords[a]), sub(coords[e], coords[c]))
                if norm(w) < .05:
                    continue
                cards.append(("FORCE2", [sid, n, f, a, b, c, e]))
                g = mul(unit(w), f)
                feats.add("FORCE2")
            o = 0 if kind == "FORCE" else 3
            acc = sets[sid].setdefault(n, [0.] * 6)
            for k in range(3):
                acc[o + k] += g[k]
        if not sets[sid]:
            n = nid[-1]
            cards.append(("FORCE", [sid, n, None, 5., 1., 0., 0.]))
            sets[sid][n] = [5., 0, 0, 0, 0, 0]
    plain = list(sets)
    for sid in sids[4:4 + rng.randint(0, 2)]:
        s0 = coef(rng, -3, 3)
        f = [sid, s0]
        tot = {}
        for m in rng.sample(plain, rng.randint(1, len(plain))):
            k = coef(rng, -3, 3)
            if rng.random() < .15:
                k = rng.choice([1., -1.]) / s0
                k = k if float("%.4g" % k) == k else 1.
            f += [k, m]
            for n, v in sets[m].items():
                a = tot.setdefault(n, [0.] * 6)
                for q in range(6):
                    a[q] += s0 * k * v[q]
        cards.append(("LOAD", f))
        sets[sid] = tot
        feats.add("LOAD%d" % min(3, (len(f) - 2) // 2))
    cards.append(("SPC1", [901, 123456, nid[0]]))
    d.case.append("SPC=901")
    glob = rng.choice(list(sets)) if rng.random() < .5 else None
    if glob:
        d.case.append("LOAD=%d" % glob)
    want, scids = [], []
    scid = 0
    for k in range(rng.randint(1, 4)):
        scid += rng.randint(1, 3)
        own = rng.choice(list(sets)) if not glob or rng.random() < .7 else None
        d.case.append("SUBCASE %d" % scid)
        if own:
            d.case.append("  LOAD=%d" % own)
        else:
            d.case.append("  TITLE=inherits")
        want.append(sets[own or glob])
        scids.append(scid)
    rng.shuffle(cards)
    for name, f in cards:
        d.add(name, *f)
    return d, coords, want, scids, feats


def compare(have, want, what, rel=1e-6):
    big = max([abs(x) for v in want.values() for x in v] + [1e-3])
    for n in set(have) | set(want):
        a, b = have.get(n, [0.] * 6), want.get(n, [0.] * 6)
        if any(abs(x - y) > rel * big for x, y in zip(a, b)):
            raise Violation("nodal-load", "%s, node %s: (%s) instead of (%s)" % (
                what, n, ", ".join("%g" % x for x in a), ", ".join("%g" % x for x in b)))


def aster_nodal(comm, concept, nm, nodegroups):
    """resultant of the FORCE_NODALE of an analysis"""
    ch = comm.charges()
    have = {}
    for f in lst(concept.kw.get("EXCIT")):
        c = f["CHARGE"]
        if c.name not in ch:
            raise Violation("charge-undefined", "analysis uses charge %s" % c.name)
        k = float(f.get("COEF_MULT", 1.))
        for g in lst(ch[c.name].kw.get("FORCE_NODALE")):
            if set(g) - set(FC) - {"NOEUD", "GROUP_NO"}:
                raise Violation("nodal-load", "FORCE_NODALE with %s" % sorted(g))
            nn = [node(x) for x in lst(g.get("NOEUD"))]
            for x in lst(g.get("GROUP_NO")):
                nn += sorted(nodegroups[x])
            for n in nn:
                a = have.setdefault(nm.to_in.get(n, -n), [0.] * 6)
                for q, name in enumerate(FC):
                    a[q] += k * float(g.get(name, 0.))
    return have


def check_aster(out, coords, want, scids):
    nm = NodeMap(coords, med_coords(out.med))
    an = out.comm.analyses()
    if [a for a, _ in an] != scids:
        raise Violation("analysis-count", "analyses %s for subcases %s" % ([a for a, _ in an], scids))
    for (oid, c), w in zip(an, want):
        compare(aster_nodal(out.comm, c, nm, out.med.nodegroups), w, "subcase %d" % oid)


def systus_nodal(a):
    """{load number: {node: six components}}"""
    have = {}
    for n, v in a.nodes.items():
        if not v["isol"]:
            continue
        for load, vecn in a.lists[v["isol"]]:
            x = a.vectors[vecn]
            if len(x) < 6 or any(x[:6]):
                raise Violation("nodal-load", "node %d uses the vector %s" % (n, x))
            x = (x[6:] + [0.] * 6)[:6]
            acc = have.setdefault(load, {}).setdefault(n, [0.] * 6)
            for q in range(6):
                acc[q] += x[q]
    return have


def check_systus(out, coords, want, scids):
    done = set()
    k = 1
    while out.r.text("_SC%d_DATA1.ASC" % k) is not None:
        a = out.asc(k)
        k += 1
        per = systus_nodal(a)
        tot = {}
        for l, v in a.loads.items():
            m = re.match(r"Analysis_(\d+)_", v["name"])
            if not m:
                raise Violation("analysis-count", "load %r of no analysis" % v["name"])
            t = tot.setdefault(int(m.group(1)), {})
            for n, x in per.get(l, {}).items():
                acc = t.setdefault(n, [0.] * 6)
                for q in range(6):
                    acc[q] += x[q]
        if set(per) - set(a.loads):
            raise Violation("nodal-load", "lists mention the loads %s, which do not exist" % sorted(set(per) - set(a.loads)))
        for c, t in tot.items():
            if c not in scids or c in done:
                raise Violation("analysis-count", "loads of analysis %d" % c)
            done.add(c)
            compare(t, want[scids.index(c)], "subcase %d" % c)
    if done != set(scids):
        raise Violation("analysis-count", "subcases %s have no load in any file" % sorted(set(scids) - done))


def nas_cases(b):
    subs, cur, glob = [], None, {}
    for l in b.case:
        m = re.match(r"\s*SUBCASE\s+(\d+)", l)
        if m:
            cur = dict(glob)
            subs.append((int(m.group(1)), cur))
        m = re.match(r"\s*(SPC|MPC|LOAD)\s*=\s*(\d+)", l)
        if m:
            (glob if cur is None else cur)[m.group(1)] = int(m.group(2))
    return subs


def nas_nodal(b):
    sets = {}
    for c in b.of("FORCE", "MOMENT"):
        if c.i(2, 0) != 0:
            raise Violation("nodal-load", "%r in a local system" % c)
        acc = sets.setdefault(c.i(0), {}).setdefault(c.i(1), [0.] * 6)
        for q in range(3):
            acc[q + (3 if c.name == "MOMENT" else 0)] += c.r(3) * c.r(4 + q, 0.)
    for c in b.of("LOAD"):
        t = sets.setdefault(c.i(0), {})
        for k in range(2, len(c.f), 2):
            for n, v in sets.get(c.i(k + 1), {}).items():
                acc = t.setdefault(n, [0.] * 6)
                for q in range(6):
                    acc[q] += c.r(1) * c.r(k) * v[q]
    return sets


def check_nastran(out, coords, want, scids):
    b = out.nas
    subs = nas_cases(b)
    if len(subs) != len(want):
        raise Violation("analysis-count", "%d subcases written for %d" % (len(subs), len(want)))
    sets = nas_nodal(b)
    for (sid, s), w in zip(subs, want):
        compare(sets.get(s.get("LOAD"), {}), w, "subcase %d" % sid, 2e-3)


def run(ctx):
    ctx.rule = ("beam chains with 1-6 load sets of FORCE and MOMENT (basic, rectangular, cylindrical, chained systems), FORCE1, "
                "FORCE2, LOAD combinations, selected above or in 1-4 subcases; non-trivial: two kinds of load or more")

    def one(to, chk):
        def f(rng, i):
            d, coords, want, scids, feats = build(rng, to)
            out = Out(ctx, d.text(), to=to)
            try:
                chk(out, coords, want, scids)
            except Violation as v:
                raise out.tag(v)
            for x in feats:
                ctx.stat(to + " " + x)
            ctx.stat("node resultants compared", sum(len(w) for w in want))
            ctx.seen((to, repr(want)) if len(feats) > 1 else None)
            ctx.sample({"to": to, "case": d.case, "features": sorted(feats)})
        return f
    ctx.cases("aster", ctx.n(220), one("ASTER", check_aster))
    ctx.cases("systus", ctx.n(150), one("SYSTUS", check_systus))
    ctx.cases("nastran", ctx.n(100), one("NASTRAN", check_nastran))
