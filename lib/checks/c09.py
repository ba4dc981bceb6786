"""Node positions: every grid point is written at the basic-frame position its coordinates and
coordinate system define, by every writer."""
from fem import *  # noqa
from cs import BASIC, from_points, rand_points

LEVEL = "exploration"
KINDS = "RRCC"


def build(rng, kinds, curved=False):
    d = Deck()
    d.case = ["SPC=1", "LOAD=2"]
    systems = {0: BASIC}
    nid = ids(rng, 60)
    ni = iter(nid)
    coords = {}
    used = []
    order = []
    cids = ids(rng, 5, hi=300)

    def grid(p, cp, where):
        n = next(ni)
        order.append(("GRID", [n, cp if cp or rng.random() < .5 else None] + list(p)))
        coords[n] = where
        return n
    # a few basic points first, distinct positions
    for _ in range(rng.randint(4, 7)):
        p = tuple(dec(rng, -9, 9, 4) for _ in range(3))
        grid(p, 0, p)
    for cid in cids[:rng.randint(1, 5)]:
        kind = rng.choice(kinds)
        if rng.random() < .15:
            kind = "R"
            pts = rand_points(rng)
            # points known in basic coordinates
            g = [grid(q, 0, q) for q in pts]
            order.append(("CORD1R", [cid] + g))
            systems[cid] = from_points("R", *pts)
            used.append("CORD1R")
        else:
            rid = rng.choice([0] + [k for k in systems if k and (curved or systems[k].kind == "R")]) \
                if rng.random() < (.9 if curved else .5) else 0
            ref = systems[rid]
            while True:
                a, b, c = rand_points(rng)
                if ref.kind != "R":
                    # cylindrical reference: give points with a positive radius
                    a, b, c = [(q4(abs(q[0]) + .5), dec(rng, -170, 170, 3), q[2]) for q in (a, b, c)]
                    if ref.kind == "S":
                        a, b, c = [(q[0], q4(abs(q[1]) % 170 + 5), dec(rng, -170, 170, 3)) for q in (a, b, c)]
                A, B, C = [ref.point(q) for q in (a, b, c)]
                z, x = sub(B, A), sub(C, A)
                if norm(z) > .5 and norm(x) > .5 and norm(cross(unit(z), unit(x))) > .3:
                    break
            order.append(("CORD2" + kind, [cid, rid if rid or rng.random() < .5 else None] + list(a) + list(b) + list(c)))
            systems[cid] = from_points(kind, A, B, C)
            used.append("CORD2" + kind + ("/rid" if rid else ""))
            if ref.kind != "R":
                used.append("curved-reference")
        cs = systems[cid]
        for _ in range(rng.randint(1, 5)):
            if cs.kind == "R":
                p = tuple(dec(rng, -5, 5, 4) for _ in range(3))
            elif cs.kind == "C":
                p = (dec(rng, .1, 5, 4), dec(rng, -350, 350, 4), dec(rng, -5, 5, 4))
            else:
                p = (dec(rng, .1, 5, 4), dec(rng, 1, 179, 4), dec(rng, -350, 350, 4))
            grid(p, cid, cs.point(p))
    if rng.random() < .3:
        # origin of coordinates of a local system: a legal grid position
        cid = rng.choice([k for k in systems])
        z = (0., 0., dec(rng, .5, 3, 3)) if systems[cid].kind != "S" else (dec(rng, .5, 3, 3), 0., 0.)
        grid(z, cid, systems[cid].point(z))
        used.append("axis")
    # drop accidental near coincidences: identity is by position
    pos = {}
    for n, p in coords.items():
        k = tuple(round(x, 2) for x in p)
        pos.setdefault(k, []).append(n)
    if any(len(v) > 1 for v in pos.values()):
        return None
    plain = [k for k in systems if k and systems[k].kind != "S"]
    if plain and rng.random() < .3:
        # the default system of the grid points whose own field is blank
        dflt = rng.choice(plain)
        for name, f in order:
            if name == "GRID":
                if not f[1]:
                    f[1] = 0
                elif f[1] == dflt and rng.random() < .8:
                    f[1] = None
        order.insert(rng.choice((0, rng.randint(0, len(order)))), ("GRDSET", [None, dflt]))
        used.append("GRDSET")
    if rng.random() < .5:
        rng.shuffle(order)
        used.append("forward")
    for name, f in order:
        d.add(name, *f)
    ns = sorted(coords)
    # all nodes are used by elements, so that no clean-up may drop them
    d.add("MAT1", 1, 2.e11, None, .3)
    d.add("PROD", 1, 1, 1.5)
    e = 0
    chain = list(coords)
    rng.shuffle(chain)
    for a, b in zip(chain, chain[1:]):
        e += 1
        d.add("CROD", e, 1, a, b)
    d.add("SPC1", 1, 123456, ns[0])
    d.add("FORCE", 2, ns[-1], None, 10., 0., 0., 1.)
    return d, coords, used


def check(out, to, coords):
    try:
        if to == "ASTER":
            NodeMap(coords, med_coords(out.med))
            if len(out.med.coords) - 1 != len(coords):
                raise Violation("node-count", "%d nodes in the mesh for %d grid points" %
                                (len(out.med.coords) - 1, len(coords)))
        elif to == "SYSTUS":
            a = out.asc()
            if set(a.nodes) != set(coords):
                raise Violation("node-ids", "Systus nodes %s instead of %s" % (sorted(a.nodes), sorted(coords)))
            for n, p in coords.items():
                # Systus files carry 5-6 significant digits at least
                if not vclose(a.nodes[n]["xyz"], p, 2e-5, 1e-7):
                    raise Violation("node-position", "Systus node %d at %s, defined at %s" % (n, a.nodes[n]["xyz"], p))
        else:
            b = out.nas
            got = {}
            for c in b.of("GRID"):
                if c.i(1, 0) != 0:
                    raise Violation("node-system", "GRID written with CP=%s" % c.get(1))
                got[c.i(0)] = tuple(c.r(k, 0.) for k in (2, 3, 4))
            if set(got) != set(coords):
                raise Violation("node-ids", "Nastran nodes %s instead of %s" % (sorted(got), sorted(coords)))
            for n, p in coords.items():
                if not vclose(got[n], p, 1e-3, 1e-6):
                    raise Violation("node-position", "Nastran node %d at %s, defined at %s" % (n, got[n], p))
    except Violation as v:
        raise out.tag(v)


def run(ctx):
    ctx.rule = ("random decks of grid points in chains of rectangular, cylindrical (and spherical) systems defined on "
                "one another, before or after use; non-trivial: at least one point in a non-basic system")

    def one(kinds, to, curved=False):
        def f(rng, i):
            b = None
            while b is None:
                b = build(rng, kinds, curved)
            d, coords, used = b
            try:
                out = Out(ctx, d.text(), to=to)
                check(out, to, coords)
            except Violation as v:
                if "curved-reference" in used and v.key in ("node-position", "not-translated"):
                    v.key = "curved-reference-system"
                raise
            for u in used:
                ctx.stat(u)
            ctx.seen((to, tuple(used), tuple(sorted(coords.items()))) if used else None)
            ctx.sample({"to": to, "systems": used, "deck": out.deck_text[:600]})
        return f
    for to, q in (("ASTER", 150), ("SYSTUS", 80), ("NASTRAN", 60)):
        ctx.cases("rc-" + to, ctx.n(q), one("RRCC", to))
        ctx.cases("sph-" + to, ctx.n(q // 3), one("RCS", to))
    ctx.cases("curved", ctx.n(12), one("RC", "ASTER", True))
