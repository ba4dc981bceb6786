"""Element axes: every bar, beam and bush keeps the element frame its orientation vector, orientation node or
coordinate system defines."""
import math

from fem import *  # noqa
from cs import BASIC, from_points, rand_points

LEVEL = "exploration"
SIN = .1


def axis(rng):
    r = rng.random()
    if r < .35:
        v = [0., 0., 0.]
        v[rng.randrange(3)] = rng.choice([1., -1.])
        return tuple(v)
    if r < .5:
        v = [rng.choice([1., -1.]), rng.choice([1., -1.]), 0.]
        rng.shuffle(v)
        return tuple(v)
    while True:
        v = tuple(rng.uniform(-1, 1) for _ in range(3))
        if norm(v) > .2:
            return v


def ydir(x, v):
    """unit vector of the plane (x, v), normal to x"""
    y = sub(v, mul(x, dot(v, x)))
    return unit(y)


def build(rng, to, aster_bush=False):
    d = Deck()
    d.case = ["SPC=1", "LOAD=2"]
    used = set()
    systems = {0: BASIC}
    for cid in ids(rng, rng.choice([0, 1, 2, 3]), hi=90):
        k = rng.choice("RRCS" if to == "NASTRAN" else "RRC")
        rid = rng.choice([c for c in systems if systems[c].kind == "R"])
        while True:
            p = rand_points(rng)
            q = [systems[rid].point(t) for t in p]
            if norm(cross(unit(sub(q[1], q[0])), unit(sub(q[2], q[0])))) > .3:
                break
        d.add("CORD2" + k, cid, rid or None, *(list(p[0]) + list(p[1]) + list(p[2])))
        systems[cid] = from_points(k, *q)
        if rid:
            used.add("chained")
    nid = iter(ids(rng, 120, hi=8000))
    eid = iter(ids(rng, 40, hi=5000))
    pid = iter(ids(rng, 20, hi=900))
    coords, frame, rows = {}, {}, []

    def grid(p, cd=0):
        n = next(nid)
        p = tuple(round(t, 4) for t in p)
        coords[n], frame[n] = p, cd
        rows.append(("GRID", [n, rng.choice([None, 0])] + list(p) + [cd or None]))
        return n
    d.add("MAT1", 1, 2.e11, None, .3, 7800.)
    kinds = ["PBAR", "PBARL"] + (["PBEAM"] if to != "NASTRAN" else [])
    props = []
    for _ in range(rng.randint(1, 3)):
        p, k = next(pid), rng.choice(kinds)
        if k == "PBAR":
            d.add("PBAR", p, 1, .01, 2e-5, 1e-5, 3e-5)
        elif k == "PBARL":
            d.add("PBARL", p, 1, None, "BAR", None, None, None, None, .1, .2)
        else:
            d.add("PBEAM", p, 1, .01, 2e-5, 1e-5, None, 3e-5)
        props.append((p, k))
    bush = []
    if aster_bush or (to != "ASTER" and rng.random() < .7):
        for _ in range(rng.randint(1, 2)):
            p = next(pid)
            d.add("PBUSH", p, "K", *[float(rng.randint(1, 99) * 1000) for _ in range(6)])
            bush.append((p, "PBUSH"))
    elems = {}
    recent = []      # orientation fields which may serve several elements
    for k in range(rng.randint(2, 9)):
        p, kind = rng.choice(props + bush * 2)
        x = axis(rng)
        # fully separate nodes (two coordinates identify one), a star of beams, or a second element on the same pair
        o = (10. * k + dec(rng, 0, 3, 3), dec(rng, -4, 4, 3), dec(rng, -4, 4, 3))
        cd = 0
        if rng.random() < .35:
            cd = rng.choice([c for c in systems if systems[c].kind != "S"])
        # (cells of one property are told apart by their ends)
        re = [e for e in elems.values() if all(o["p"] != p for o in elems.values() if set(o["n"]) == set(e["n"]))] \
            if rng.random() < .25 else []
        if re:
            e0 = rng.choice(re)
            ga, gb = e0["n"] if rng.random() < .6 else e0["n"][::-1]
            used.add("shared-pair")
        else:
            ga = rng.choice(elems[rng.choice(list(elems))]["n"]) if elems and rng.random() < .3 else None
            if ga is None:
                ga = grid(o, cd)
            gb = grid(add(coords[ga], mul(unit(x), dec(rng, .5, 4, 3))), rng.choice([0, cd]))
        x = unit(sub(coords[gb], coords[ga]))
        base = systems[frame[ga]]
        sin = .004 if to != "NASTRAN" and rng.random() < .4 else SIN
        tilted = sin < SIN
        while True:
            form = rng.choice(["vec", "vec", "node"])
            if kind == "PBUSH":
                form = rng.choice(["vec", "node", "cid", "cid"])
            if form == "cid":
                # (a cylindrical one would be taken at the first end)
                c = rng.choice([c for c in systems if systems[c].kind == "R"])
                of, want = [None, None, None], systems[c]
                break
            if form == "vec":
                if recent and rng.random() < .35:
                    of = list(rng.choice(recent))
                else:
                    of = list(mul(axis(rng), rng.choice([1., 1., 2.5, .01, 100.])))
                    of = [float("%.4g" % t) for t in of]
                if base.kind == "C" and norm(cross(sub(coords[ga], base.o), base.ez)) < .02:
                    continue
                v = base.vec_at(coords[ga], of)
                g0 = None
            else:
                v = axis(rng)
                v = tuple(round(t * rng.choice([1., 3.]), 3) for t in v)
            if tilted and form == "vec" and not recent and base.kind == "R":
                # nearly along the element
                w = cross(x, axis(rng))
                if norm(w) < .05:
                    continue
                v = add(mul(x, rng.choice([-1, 1])), mul(unit(w), rng.choice([.006, .02, .05])))
                of = [float("%.5f" % dot(v, w)) for w in (base.ex, base.ey, base.ez)]
                v = base.vec_at(coords[ga], of)
                used.add("nearly-parallel")
            if norm(v) < 1e-9 or norm(cross(x, unit(v))) < sin:
                continue
            if form == "node":
                far = [n for n in coords if n not in (ga, gb)]
                g0 = None
                if far and rng.random() < .4:
                    g0 = rng.choice(far)
                    v = sub(coords[g0], coords[ga])
                    if norm(v) < .1 or norm(cross(x, unit(v))) < SIN:
                        continue
                if g0 is None:
                    g0 = grid(add(coords[ga], v))
                    v = sub(coords[g0], coords[ga])
                    if norm(cross(x, unit(v))) < SIN:
                        continue
                of = [g0, None, None]
            break
        if form != "cid":
            y = ydir(x, v)
            want = (x, y, cross(x, y))
            if form == "vec":
                recent.append(list(of))
                if 0. in of and rng.random() < .3:
                    # a blank component is zero
                    of = [t if t else rng.choice([None, 0.]) for t in of]
                    used.add("blank")
                if frame[ga] and base.kind:
                    used.add("cd-" + base.kind)
        else:
            want = (want.ex, want.ey, want.ez)
        e = next(eid)
        f = [e, p, ga, gb] + of
        if kind == "PBUSH":
            rows.append(("CBUSH", f + ([c] if form == "cid" else [])))
        else:
            rows.append(("CBEAM" if kind == "PBEAM" else "CBAR", f + rng.choice([[], [], ["GGG"]])))
        elems[e] = dict(p=p, kind=kind, n=[ga, gb], axes=want, form=form, of=of, cid=c if form == "cid" else None)
        used.add(kind + "-" + form)
    # the orientation nodes lie on no element: tie them so that no clean-up removes anything an oracle needs
    if rng.random() < .4:
        rng.shuffle(rows)
    for name, f in rows:
        d.add(name, *f)
    free = [n for n in coords if not frame[n] and any(n in e["n"] for e in elems.values())]
    g = rng.choice(free) if free else next(n for e in elems.values() for n in e["n"])
    d.add("SPC1", 1, 123456, g)
    d.add("FORCE", 2, g, None, 1., 0., 0., 1.)
    d.add("GRAV", 2, None, 9.81, 0., 0., -1.)
    for n, c in frame.items():
        if systems[c].kind == "C":
            r = sub(coords[n], systems[c].o)
            if norm(cross(r, systems[c].ez)) < .2:
                return build(rng, to, aster_bush)        # no radial direction there
    return d, coords, elems, used, {n: systems[c].axes_at(coords[n]) for n, c in frame.items() if c}, systems


def same(what, got, want, e, tol=2e-4):
    for k, (g, w) in enumerate(zip(got, want)):
        if norm(sub(g, w)) > tol:
            raise Violation(what, "%s: axis %s along %s instead of %s" % (
                e if isinstance(e, str) else "element %d" % e, "xyz"[k], tuple("%.5f" % t for t in g), tuple("%.5f" % t for t in w)))


def rot(psi, theta, phi):
    """columns = axes of the frame turned by psi about z, then theta about y, then phi about x"""
    c, s = math.cos, math.sin
    ex = (c(psi) * c(theta), s(psi) * c(theta), -s(theta))
    ey = (c(psi) * s(theta) * s(phi) - s(psi) * c(phi), s(psi) * s(theta) * s(phi) + c(psi) * c(phi), c(theta) * s(phi))
    return ex, ey, cross(ex, ey)


def check_systus(out, coords, elems, node_axes, systems):
    a = out.asc()
    n = 0
    used = {x for el in elems.values() for x in el["n"]}
    for g, want in node_axes.items():
        if g not in used:
            continue
        k = a.nodes[g]["iangl"]
        if not k:
            raise Violation("node-axes", "node %d has no displacement frame" % g)
        v = a.vectors.get(k)
        if v is None or len(v) < 9:
            raise Violation("node-axes", "node %d has the frame %d: %s" % (g, k, v))
        same("node-axes", rot(*v[-3:]), want, "node %d" % g)
        n += 1
    for g in coords:
        if g not in node_axes and g in a.nodes and a.nodes[g]["iangl"]:
            raise Violation("node-axes", "node %d has a displacement frame" % g)
    for e, el in elems.items():
        if e not in a.elements:
            raise Violation("element-missing", "element %d is not in the Systus file" % e)
        g = a.elements[e]
        nodes = a.element_nodes(e)
        rest = g["rest"]
        na = int(rest[2])
        ang = [float(t) for t in rest[3:3 + na]]
        if len(rest) != 3 + na + g["nn"]:
            raise Violation("systus-angles", "element line %r does not hold %d angles" % (g["line"], na))
        if nodes != el["n"]:
            raise Violation("ends", "element %d between %s instead of %s" % (e, nodes, el["n"]))
        if el["kind"] == "PBUSH":
            f = rot(*ang) if na else rot(0, 0, 0)
            same("bush-axes", f, el["axes"], e)
        else:
            x = el["axes"][0]
            y0 = (0., 1., 0.) if math.hypot(x[0], x[1]) < 1e-9 else unit(cross((0., 0., 1.), x))
            z0 = cross(x, y0)
            if na not in (0, 3) or (na and (ang[0] or ang[1])):
                raise Violation("systus-angles", "angles %s of bar %d" % (ang, e))
            phi = ang[2] if na else 0.
            y = add(mul(y0, math.cos(phi)), mul(z0, math.sin(phi)))
            same("beam-axes", (x, y), el["axes"], e)
        n += 1
    return n


def check_nastran(out, coords, elems, node_axes, systems):
    b = out.nas
    frames = {0: BASIC}
    for c in b.of("CORD2R", "CORD2C", "CORD2S"):
        frames[c.i(0)] = (c.name[-1], c.i(1, 0), [c.r(k, 0.) for k in range(2, 11)])

    def frame(k):
        f = frames.get(k)
        if f is None:
            raise Violation("bush-axes", "coordinate system %s is not defined" % k)
        if isinstance(f, tuple):
            r = frame(f[1])
            v = f[2]
            frames[k] = f = from_points(f[0], *[r.point(v[t:t + 3]) for t in (0, 3, 6)])
        return f
    for k, s in systems.items():
        f = frame(k)
        if f.kind != s.kind:
            raise Violation("frames", "coordinate system %d has the kind %s instead of %s" % (k, f.kind, s.kind))
        same("frames", (f.ex, f.ey, f.ez), (s.ex, s.ey, s.ez), "system %d" % k, 2e-3)
        if norm(sub(f.o, s.o)) > 2e-3:
            raise Violation("frames", "coordinate system %d at %s instead of %s" % (k, f.o, s.o))
    xyz = {c.i(0): tuple(c.r(k, 0.) for k in (2, 3, 4)) for c in b.of("GRID")}
    cards = {c.i(0): c for c in b.of("CBAR", "CBEAM", "CBUSH")}
    n = 0
    for e, el in elems.items():
        c = cards.get(e)
        if c is None:
            raise Violation("element-missing", "element %d is not in the Nastran file" % e)
        ga, gb = c.i(2), c.i(3)
        if [ga, gb] != el["n"]:
            raise Violation("ends", "element %d between %s instead of %s" % (e, [ga, gb], el["n"]))
        x = unit(sub(xyz[gb], xyz[ga]))
        what = "bush-axes" if el["kind"] == "PBUSH" else "beam-axes"
        if el["kind"] == "PBUSH" and c.i(7) is not None:
            f = frame(c.i(7))
            same(what, (f.ex, f.ey, f.ez), el["axes"], e, 2e-3)
        else:
            v = tuple(c.r(k, 0.) for k in (4, 5, 6))
            if norm(v) < 1e-9 or norm(cross(x, unit(v))) < .002:
                raise Violation(what, "element %d has the orientation vector %s for the axis %s" % (e, v, x))
            same(what, (x, ydir(x, v)), el["axes"], e, 2e-3)
        n += 1
    return n


def cells_of(med, p):
    for name in ("PROP_%d" % p, "CGVEGA_%d" % p):
        if med.members(name) is not None:
            return med.members(name)
    raise Violation("group-missing", "property %d has no group in the mesh" % p)


def check_aster(out, coords, elems, node_axes, systems):
    med = out.med
    nm = NodeMap(coords, med_coords(med))
    seen = {}
    groups = {}
    for names, g in out.comm.cara("ORIENTATION"):
        for name in names:
            for c in med.members(name) or ():
                groups.setdefault(c, []).append(g)
    local = set()
    for names, g in out.comm.cara("DISCRET"):
        if g["CARA"].startswith("K_") and g.get("REPERE") == "LOCAL":
            for name in names:
                local |= set(med.members(name) or ())
    n = 0
    for e, el in elems.items():
        cells = []
        for c in cells_of(med, el["p"]):
            conn = [nm.to_in[t] for t in med.cells[c][1]]
            if conn == el["n"]:
                cells.append(c)
        twins = [k for k, o in elems.items() if o["p"] == el["p"] and o["n"] == el["n"]]
        if len(cells) != len(twins):
            raise Violation("ends", "%d cells for the %d elements between %s" % (len(cells), len(twins), el["n"]))
        for c in cells:
            if el["kind"] == "PBUSH":
                if c in local:
                    f = None
                else:
                    f = BASIC.ex, BASIC.ey, BASIC.ez
            else:
                f = None
            what = "bush-axes" if el["kind"] == "PBUSH" else "beam-axes"
            if f is None:
                gs = groups.get(c, [])
                if not gs:
                    raise Violation(what, "element %d has no orientation" % e)
                x = el["axes"][0]
                if len({str(g) for g in gs}) > 1:
                    raise Violation(what, "element %d has %d orientations" % (e, len(gs)))
                g = gs[-1]
                if g["CARA"] != "VECT_Y":
                    raise Violation(what, "element %d: orientation by %s" % (e, g["CARA"]))
                v = tuple(float(t) for t in g["VALE"])
                if norm(v) < 1e-9 or norm(cross(x, unit(v))) < .002:
                    raise Violation(what, "element %d has the orientation vector %s for the axis %s" % (e, v, x))
                f = x, ydir(x, v)
            if what == "bush-axes":
                try:
                    same(what, f, el["axes"], e)
                except Violation as v:
                    # the DISCRET entry acts in the global frame, whatever the frame of the element
                    v.key = "bush-global-" + el["form"] if c not in local else what
                    raise
            else:
                same(what, f, el["axes"], e)
            n += 1
    return n


CHECK = dict(ASTER=check_aster, SYSTUS=check_systus, NASTRAN=check_nastran)


def run(ctx):
    ctx.rule = ("random frames of bars, beams and bushes (vectors in basic and displacement frames, blank components, "
                "orientation nodes, coordinate systems); non-trivial: at least one element frame compared")

    def one(to, bush=False, opts=()):
        def f(rng, i):
            d, coords, elems, used, node_axes, systems = build(rng, to, bush)
            st = Style.random(rng)
            st.trim = st.tabs = False
            try:
                text = d.text(st, rng)
            except ValueError:
                text = d.text(None, rng)
            out = Out(ctx, text, to=to, opts=list(opts), fmt="NASTRAN")
            try:
                n = CHECK[to](out, coords, elems, node_axes, systems)
            except Violation as v:
                raise out.tag(v)
            for u in used:
                ctx.stat(u)
            ctx.stat("element frames compared", n)
            ctx.seen((to, tuple(sorted(used)), str(sorted(elems.items()))) if n else None)
            ctx.sample({"to": to, "used": sorted(used), "deck": text[:600]})
        return f
    ctx.cases("beams-ASTER", ctx.n(80), one("ASTER"))
    ctx.cases("frames-SYSTUS", ctx.n(80), one("SYSTUS"))
    ctx.cases("frames-NASTRAN", ctx.n(50), one("NASTRAN"))
    ctx.cases("frames-modern", ctx.n(40), one("NASTRAN", False, ["--nastran.OutputDialect=modern"]))
    ctx.cases("bush-ASTER", ctx.n(12), one("ASTER", True))
