"""Surface, line and body loads: the traction on every face, the force along every beam, the gravity and
the rotation every analysis applies are those of the load set its subcase selects."""
from fem import *  # noqa
from checks.c15 import nas_cases
import re
from comm import lst, node

LEVEL = "exploration"
TAU = 2 * math.pi

# faces of the solids by local corner (1-based)
FACES = {
    "CHEXA": [(1, 2, 3, 4), (5, 6, 7, 8), (1, 2, 6, 5), (2, 3, 7, 6), (3, 4, 8, 7), (4, 1, 5, 8)],
    "CPENTA": [(1, 2, 3), (4, 5, 6), (1, 2, 5, 4), (2, 3, 6, 5), (3, 1, 4, 6)],
    "CTETRA": [(1, 2, 3), (1, 2, 4), (2, 3, 4), (3, 1, 4)],
}
KINDS = [("CQUAD4", 0), ("CTRIA3", 0), ("CQUAD8", 1), ("CTRIA6", 1), ("CHEXA", 0), ("CHEXA", 1), ("CPENTA", 0),
         ("CPENTA", 1), ("CTETRA", 0), ("CTETRA", 1)]


def face_normal(pts):
    if len(pts) == 4:
        return unit(cross(sub(pts[2], pts[0]), sub(pts[3], pts[1])))
    return unit(cross(sub(pts[1], pts[0]), sub(pts[2], pts[0])))


def corners(kind):
    return len(REF[kind][0])


class Loads:
    """what one load set does"""

    def __init__(self):
        self.face = {}      # frozenset of corner nodes -> traction
        self.line = {}      # (frozenset of ends, component) -> {parameter from the first node: value}
        self.nodal = {}     # node -> force
        self.grav = [0., 0., 0.]
        self.rot = []       # (centre, angular velocity vector, factor)

    def addto(self, other, k):
        for f, t in self.face.items():
            a = other.face.setdefault(f, [0.] * 3)
            for q in range(3):
                a[q] += k * t[q]
        for f, t in self.line.items():
            a = other.line.setdefault(f, [0.] * 3)
            for q in range(3):
                a[q] += k * t[q]
        for f, t in self.nodal.items():
            a = other.nodal.setdefault(f, [0.] * 3)
            for q in range(3):
                a[q] += k * t[q]
        for q in range(3):
            other.grav[q] += k * self.grav[q]
        other.rot += [(c, w, f * k) for c, w, f in self.rot]


def middles(elems):
    """edge (its two corners) -> middle node"""
    r = {}
    for kind, nn in elems.values():
        n = corners(kind)
        for (a, b), m in zip(REF[kind][1] if len(nn) > n else [], nn[n:]):
            r[frozenset((nn[a - 1], nn[b - 1]))] = m
    return r


def check_middles(mid, ff, have):
    """the loaded face has the middle nodes of the element it lies on, edge by edge"""
    want = [mid.get(frozenset((a, b))) for a, b in zip(ff, ff[1:] + ff[:1])]
    if list(have) != [m for m in want if m is not None]:
        raise Violation("face-middles", "the face %s has the middle nodes %s instead of %s" % (ff, list(have), want))


def centroid(pts):
    return tuple(sum(p[q] for p in pts) / len(pts) for q in range(3))


def solid_face(kind, nodes, coords, g1, g34):
    """-> (corner nodes of the loaded face, outward normal)"""
    c = nodes[:corners(kind)]
    for f in FACES[kind]:
        ff = [c[k - 1] for k in f]
        if kind == "CTETRA":
            okf = g1 in ff and g34 not in ff
        elif kind == "CPENTA" and g34 is None:
            okf = len(ff) == 3 and g1 in ff
        else:
            okf = len(ff) == 4 and g1 in ff and g34 in ff and abs(ff.index(g1) - ff.index(g34)) == 2
        if okf:
            n = face_normal([coords[k] for k in ff])
            if dot(n, sub(centroid([coords[k] for k in ff]), centroid([coords[k] for k in c]))) < 0:
                n = mul(n, -1)
            return ff, n
    raise Violation("face", "no face of %s %s with nodes %s and %s" % (kind, c, g1, g34))


def add_face(load, nodes, t):
    a = load.face.setdefault(frozenset(nodes), [0.] * 3)
    for q in range(3):
        a[q] += t[q]


def pload4(load, elems, coords, eids, p, g1, g34, v):
    for e in eids:
        kind, nodes = elems[e]
        if kind in FACES:
            ff, n = solid_face(kind, nodes, coords, g1, g34)
            n = mul(n, -1)
        else:
            ff = nodes[:corners(kind)]
            n = face_normal([coords[k] for k in ff])
        add_face(load, ff, mul(unit(v) if v else n, p))


def pload_nodal(load, coords, p, g):
    """a pressure on three or four grid points, as forces on them"""
    def tri(a, b, c, q):
        f = mul(cross(sub(coords[b], coords[a]), sub(coords[c], coords[a])), q / 6.)
        for k in (a, b, c):
            acc = load.nodal.setdefault(k, [0.] * 3)
            for i in range(3):
                acc[i] += f[i]
    if len(g) == 3:
        tri(*g, p)
    else:
        a, b, c, d = g
        for t in ((a, b, c), (a, c, d), (a, b, d), (b, c, d)):
            tri(*t, p / 2)


def build(rng, to):
    d = Deck()
    coords, elems, beams = {}, {}, {}
    nel = rng.randint(2, 7)
    nid = iter(ids(rng, 21 * nel + 40))
    eid = ids(rng, nel + 4, hi=3000)
    d.add("MAT1", 1, 2.1e11, None, .3, 7800.)
    d.add("PSHELL", 1, 1, .01)
    d.add("PSOLID", 2, 1)
    d.add("PBAR", 3, 1, 2., .4, .3, .5)
    for k in range(nel):
        kind, quad = rng.choice(KINDS)
        pts = solid_nodes(kind, quad, (4. * k, rng.uniform(-1, 1), .5), 1.5, rng, .12)
        if kind in ("CQUAD4", "CTRIA3", "CQUAD8", "CTRIA6") and rng.random() < .6:
            q = rng.randrange(3)
            pts = [tuple(p[(j + q) % 3] + (4. * k if j == 0 else 0) for j in range(3)) for p in pts]
        nn = [next(nid) for _ in pts]
        for n, c in zip(nn, pts):
            coords[n] = tuple(float("%.5f" % x) for x in c)
        elems[eid[k]] = (kind, nn)
        d.add(kind, eid[k], 2 if kind in FACES else 1, *nn)
    length = {}
    for k in range(rng.randint(0, 2)):
        a, b = next(nid), next(nid)
        coords[a] = (round(4. * k, 3), -9., dec(rng, -1, 1, 3))
        coords[b] = (round(4. * k + rng.choice([-1, 1]) * rng.uniform(.5, 1.5), 3), round(-9 + rng.uniform(-.5, .5), 3), dec(rng, -1, 1, 3))
        if rng.random() < .6:
            # a bar whose length is a decimal number
            u = rng.choice([(1, 2, 2), (2, 1, 2), (2, -2, 1), (-1, 2, -2), (-2, 1, 2), (3, 0, 0), (-3, 0, 0)])
            q = rng.choice([.2, .3, .4, .5])
            coords[b] = tuple(round(x + q * y, 5) for x, y in zip(coords[a], u))
            length[eid[nel + k]] = round(3 * q, 3)
        beams[eid[nel + k]] = (a, b)
        d.add("CBAR", eid[nel + k], 3, a, b, 0.1, 0.2, 1.)
    plate = [next(nid) for _ in range(4)]
    sk, ex, ey = rng.uniform(-.5, .5), (rng.uniform(.5, 2), rng.uniform(-.3, .3), rng.uniform(-.3, .3)), (rng.uniform(-.3, .3), rng.uniform(.5, 2), rng.uniform(-.5, .5))
    for n, (a, b) in zip(plate, ((0, 0), (1, 0), (1 + sk, 1), (sk, 1))):
        coords[n] = tuple(float("%.6f" % (o + a * x + b * y)) for o, x, y in zip((0, 20., 0), ex, ey))
    d.add("CQUAD4", eid[nel + 2], 1, *plate)
    elems[eid[nel + 2]] = ("CQUAD4", plate)
    anchor = plate[0]
    for n in coords:
        d.add("GRID", n, None, *coords[n])
    shells = [e for e, (k, _) in elems.items() if k not in FACES]
    solids = [e for e, (k, _) in elems.items() if k in FACES]
    feats, sets = set(), {}
    sids = ids(rng, 8, hi=300)
    for sid in sids[:rng.randint(1, 3)]:
        L = sets[sid] = Loads()
        used_rot = False
        for _ in range(rng.randint(1, 5)):
            t = rng.random()
            p = float("%.6g" % (dec(rng, .5, 50, 3) * rng.choice([1, 1, -1, 1000])))
            if t < .25:
                ids_ = [rng.choice(shells)]
                e2 = None
                if rng.random() < .35:
                    # every element of the range exists
                    lo = rng.choice(shells)
                    span = [lo]
                    while span[-1] + 1 in shells and rng.random() < .8:
                        span.append(span[-1] + 1)
                    if len(span) > 1:
                        ids_ = span
                        e2 = max(span)
                v = None
                tail = []
                if to != "ASTER" and rng.random() < .4:
                    v = tuple(dec(rng, -2, 2, 3) or .5 for _ in range(3))
                    tail = [rng.choice([None, 0])] + list(v)
                pp = rng.choice([[None] * 3, [p] * 3, [p, None, None]])
                f = [sid, min(ids_), p] + pp
                if e2:
                    f += ["THRU", e2]
                    feats.add("PLOAD4-THRU%s" % ("-gaps" if e2 - min(ids_) + 1 > len(ids_) else ""))
                elif tail:
                    f += [None, None]
                d.add("PLOAD4", *(f + tail))
                pload4(L, elems, coords, ids_, p, None, None, v)
                feats.add("PLOAD4-shell%s" % ("-vector" if v else ""))
            elif t < .6 and solids:
                e = rng.choice(solids)
                kind, nn = elems[e]
                ff = rng.choice(FACES[kind])
                c = nn[:corners(kind)]
                k = rng.randrange(len(ff))
                g1 = c[ff[k] - 1]
                if kind == "CTETRA":
                    g34 = [c[q - 1] for q in range(1, 5) if q not in ff][0]
                elif len(ff) == 3:
                    g34 = None
                else:
                    g34 = c[ff[(k + 2) % 4] - 1]
                v = tuple(dec(rng, -2, 2, 3) or .5 for _ in range(3)) if rng.random() < .35 else None
                pp = rng.choice([[None] * 3, [p] * 3, [p, None, None]])
                tail = [rng.choice([None, 0])] + list(v) if v else []
                d.add("PLOAD4", sid, e, p, *pp, g1, g34, *tail)
                pload4(L, elems, coords, [e], p, g1, g34, v)
                feats.add("PLOAD4-%s%d%s" % (kind, len(nn), "-vector" if v else ""))
            elif t < .7:
                k = rng.sample(shells, rng.randint(1, min(6, len(shells))))
                d.add("PLOAD2", sid, p, *k)
                pload4(L, elems, coords, k, p, None, None, None)
                feats.add("PLOAD2")
            elif t < .8:
                a = dec(rng, .5, 20, 3)
                g = tuple(dec(rng, -1, 1, 3) if rng.random() < .6 else 0. for _ in range(3))
                if L.grav == [0., 0., 0.] and any(g):
                    d.add("GRAV", sid, rng.choice([None, 0]), a, *[x if x or rng.random() < .5 else None for x in g])
                    L.grav = [a * x for x in g]
                    feats.add("GRAV")
            elif t < .87 and to == "ASTER" and not used_rot:
                used_rot = True
                n = rng.choice(list(coords))
                a = dec(rng, .5, 20, 3)
                g = tuple(dec(rng, -2, 2, 3) for _ in range(3))
                if norm(g) > .1:
                    d.add("RFORCE", sid, n, rng.choice([None, 0]), a, *g)
                    L.rot.append((coords[n], mul(g, TAU * a), 1.))
                    feats.add("RFORCE")
            elif t < .93 and beams:
                e = rng.choice(list(beams))
                c = rng.choice(["FX", "FY", "FZ", "FX", "FY", "FZ", "MX", "MY", "MZ"])
                key = (beams[e], c)
                if any(k[:2] == key for k in L.line):
                    continue
                p2 = p if to == "SYSTUS" or rng.random() < .4 else dec(rng, .5, 50, 3)
                scale = rng.choice(["FR", "FRPR"] + (["LE", "LEPR"] if e in length else []))
                if c[0] == "M":
                    scale = scale[:2]
                    feats.add("PLOAD1-moment")
                x0, x1 = 0., 1.
                if to == "NASTRAN" and rng.random() < .4:
                    x0, x1 = rng.choice([(0., .5), (.25, .75), (.5, 1.)])
                z = length[e] if scale[:2] == "LE" else 1.
                d.add("PLOAD1", sid, e, c, scale, round(x0 * z, 5), p, round(x1 * z, 5), p2)
                # PR: the force is given by length of the bar seen along the direction of the force
                t = sub(coords[beams[e][1]], coords[beams[e][0]])
                q = norm(cross(t, tuple(1. if c[1] == x else 0. for x in "XYZ"))) / norm(t) if scale[2:] else 1.
                if (x0, x1) != (0., 1.):
                    key += (x0, x1)
                L.line[key] = [p * q, (p + p2) * q / 2, p2 * q]
                feats.add("PLOAD1-%s" % scale)
            else:
                q = rng.randrange(4)
                g = plate[q:] + plate[:q]
                if rng.random() < .5:
                    g = g[::-1]
                if rng.random() < .5:
                    g = g[:3]
                d.add("PLOAD", sid, p, *g)
                pload_nodal(L, coords, p, g)
                feats.add("PLOAD%d" % len(g))
        n = rng.choice(list(coords))
        d.add("FORCE", sid, n, None, 1., 5., 0., 0.)
        a = L.nodal.setdefault(n, [0.] * 3)
        a[0] += 5.
    plain = list(sets)
    for sid in sids[4:4 + rng.randint(0, 2)]:
        s0 = coef(rng, -3, 3)
        f = [sid, s0]
        tot = Loads()
        grav = False
        for m in rng.sample(plain, rng.randint(1, len(plain))):
            k = coef(rng, -3, 3)
            if sets[m].rot:
                k = abs(k) if s0 > 0 else -abs(k)
            if any(sets[m].grav):
                if grav:
                    continue
                grav = True
            f += [k, m]
            sets[m].addto(tot, s0 * k)
        if len(f) > 2:
            d.add("LOAD", *f)
            sets[sid] = tot
            feats.add("LOAD%d" % min(3, (len(f) - 2) // 2))
    d.add("SPC1", 901, 123456, anchor)
    d.case.append("SPC=901")
    glob = rng.choice(list(sets)) if rng.random() < .5 else None
    if glob:
        d.case.append("LOAD=%d" % glob)
    want, scids, scid = [], [], 0
    for k in range(rng.randint(1, 3)):
        scid += rng.randint(1, 3)
        own = rng.choice(list(sets)) if not glob or rng.random() < .7 else None
        d.case.append("SUBCASE %d" % scid)
        d.case.append("  LOAD=%d" % own if own else "  TITLE=inherits")
        want.append(sets[own or glob])
        scids.append(scid)
    rng.shuffle(d.bulk)
    return d, coords, elems, beams, want, scids, feats


def differ(a, b, big, rel):
    return any(abs(x - y) > rel * big for x, y in zip(a, b))


def compare(have, want, what, rel=1e-6):
    for kind, hm, wm in (("face", have.face, want.face), ("line", have.line, want.line), ("nodal", have.nodal, want.nodal)):
        big = max([abs(x) for v in wm.values() for x in v] + [1e-3])
        for k in sorted(set(hm) | set(wm), key=repr):
            a, b = hm.get(k, [0.] * 3), wm.get(k, [0.] * 3)
            if differ(a, b, max(abs(x) for x in list(b) + [big * 1e-3]) if kind != "nodal" else big, rel):
                raise Violation(kind + "-load", "%s, %s %s: %s instead of %s" % (
                    what, kind, sorted(k) if kind == "face" else k, [float("%g" % x) for x in a], [float("%g" % x) for x in b]))
    big = max(abs(x) for x in list(want.grav) + [1e-9])
    if differ(have.grav, want.grav, big, rel):
        raise Violation("gravity", "%s: %s instead of %s" % (what, have.grav, want.grav))
    hr, wr = list(have.rot), list(want.rot)
    for c, w, k in wr:
        for q in hr:
            cc, ww, kk = q
            # the load goes with the square of the speed, and only the axis line matters
            if vclose(mul(ww, math.sqrt(kk)), mul(w, math.sqrt(k)), 1e-6) or vclose(mul(ww, -math.sqrt(kk)), mul(w, math.sqrt(k)), 1e-6):
                if norm(cross(sub(cc, c), unit(w))) < 1e-6 * (1 + norm(c)):
                    hr.remove(q)
                    break
        else:
            raise Violation("rotation", "%s: %s instead of %s" % (what, have.rot, want.rot))
    if hr:
        raise Violation("rotation", "%s: %s instead of %s" % (what, have.rot, want.rot))


ORDER = {"TRI": 3, "QUAD": 4}


def check_aster(out, coords, elems, beams, want, scids):
    med, comm = out.med, out.comm
    nm = NodeMap(coords, med_coords(med))
    an = comm.analyses()
    if [a for a, _ in an] != scids:
        raise Violation("analysis-count", "analyses %s for subcases %s" % ([a for a, _ in an], scids))
    ch = comm.charges()
    mid = middles(elems)
    ends = {frozenset(v): v for v in beams.values()}

    def cells(f):
        names = lst(f.get("GROUP_MA")) + lst(f.get("MAILLE"))
        r = []
        for g in names:
            m = med.members(g)
            if m is None:
                raise Violation("group-missing", "%s is loaded and not in the mesh" % g)
            r += list(m)
        if f.get("TOUT"):
            raise Violation("face-load", "a surface load on the whole model")
        return [(k[0], [nm.to_in[c] for c in med.cells[k][1]]) for k in r]

    def face(t, conn):
        n = {"TRI": 3, "QUA": 4}.get(t[:3])
        if n is None:
            raise Violation("face-load", "a surface load on a %s" % t)
        check_middles(mid, conn[:n], conn[n:])
        return conn[:n]
    for (oid, c), w in zip(an, want):
        L = Loads()
        for f in lst(c.kw.get("EXCIT")):
            k = float(f.get("COEF_MULT", 1.))
            q = ch.get(f["CHARGE"].name)
            if q is None:
                raise Violation("charge-undefined", "analysis uses charge %s" % f["CHARGE"].name)
            for key, sgn in (("PRES_REP", -1), ("FORCE_COQUE", -1)):
                for g in lst(q.kw.get(key)):
                    for t, conn in cells(g):
                        ff = face(t, conn)
                        tr = [0.] * 3
                        if "PRES" in g:
                            tr = mul(face_normal([coords[n] for n in ff]), sgn * k * float(g["PRES"]))
                        tr = [tr[q2] + k * float(g.get(x, 0.)) for q2, x in enumerate(("FX", "FY", "FZ"))]
                        add_face(L, ff, tr)
            for g in lst(q.kw.get("FORCE_FACE")):
                for t, conn in cells(g):
                    add_face(L, face(t, conn), [k * float(g.get(x, 0.)) for x in ("FX", "FY", "FZ")])
            for g in lst(q.kw.get("FORCE_POUTRE")):
                for t, conn in cells(g):
                    if frozenset(conn) not in ends:
                        raise Violation("line-load", "a line load on %s %s" % (t, conn))
                    a, b = ends[frozenset(conn)]
                    for x in ("FX", "FY", "FZ", "MX", "MY", "MZ"):
                        if x in g:
                            acc = L.line.setdefault(((a, b), x), [0.] * 3)
                            for j, s in enumerate((1e-9, .5, 1 - 1e-9)):
                                acc[j] += k * value(g[x], coords[a], coords[b], s)
            for g in lst(q.kw.get("FORCE_NODALE")):
                for n in [node(x) for x in lst(g.get("NOEUD"))]:
                    acc = L.nodal.setdefault(nm.to_in[n], [0.] * 3)
                    for j, x in enumerate(("FX", "FY", "FZ")):
                        acc[j] += k * float(g.get(x, 0.))
            for g in lst(q.kw.get("PESANTEUR")):
                u = unit(g["DIRECTION"])
                for j in range(3):
                    L.grav[j] += k * float(g["GRAVITE"]) * u[j]
            for g in lst(q.kw.get("ROTATION")):
                L.rot.append((tuple(g["CENTRE"]), mul(unit(g["AXE"]), float(g["VITESSE"])), k))
        compare(L, w, "subcase %d" % oid)


def value(f, a, b, s):
    """a number or a function at the point s of the segment a-b"""
    if isinstance(f, (int, float)):
        return float(f)
    if f.cmd != "DEFI_FONCTION":
        raise Violation("line-load", "%s" % f)
    v = f.kw["VALE"]
    xs, ys = list(v[0::2]), list(v[1::2])
    if any(x1 <= x0 for x0, x1 in zip(xs, xs[1:])):
        raise Violation("function", "abscissas %s are not increasing" % xs)
    p = f.kw["NOM_PARA"]
    if p not in ("X", "Y", "Z"):
        raise Violation("line-load", "function of %s" % p)
    j = "XYZ".index(p)
    x = a[j] * (1 - s) + b[j] * s
    for x0, x1, y0, y1 in zip(xs, xs[1:], ys, ys[1:]):
        if x0 <= x <= x1:
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    raise Violation("line-load", "function not defined at %s: %s" % (x, xs))


def check_systus(out, coords, elems, beams, want, scids):
    done = set()
    mid = middles(elems)
    ends = {frozenset(v): v for v in beams.values()}
    k = 1
    while out.r.text("_SC%d_DATA1.ASC" % k) is not None:
        a = out.asc(k)
        k += 1
        per = {l: Loads() for l in a.loads}
        for n, v in a.nodes.items():
            if not v["isol"]:
                continue
            for load, vecn in a.lists[v["isol"]]:
                x = a.vectors[vecn]
                if any(x[:6]):
                    raise Violation("nodal-load", "node %d uses the vector %s" % (n, x))
                acc = per[load].nodal.setdefault(n, [0.] * 3)
                for q in range(3):
                    acc[q] += x[6 + q]
        for e, v in a.elements.items():
            lid = int(v["rest"][1])
            if not lid:
                continue
            conn = a.element_nodes(e)
            for load, vecn in a.lists[lid]:
                x = a.vectors[vecn]
                if x[0] != 1:
                    raise Violation("face-load", "element %d uses the vector %s" % (e, x))
                if v["dim"] == 1:
                    key = ends.get(frozenset(conn))
                    if key is None or any(x[1:6]):
                        raise Violation("line-load", "element %d %s uses the vector %s" % (e, conn, x))
                    for j, c in enumerate(("FX", "FY", "FZ", "MX", "MY", "MZ")[:len(x) - 6]):
                        if x[6 + j]:
                            acc = per[load].line.setdefault((key, c), [0.] * 3)
                            for q in range(3):
                                acc[q] += x[6 + j]
                elif v["dim"] == 2:
                    # quadratic faces list corners and middles in turn
                    ff = conn if len(conn) < 5 else conn[::2]
                    check_middles(mid, ff, [] if len(conn) < 5 else conn[1::2])
                    if any(x[3:6]) or x[1] or x[2] not in (0, 1) or any(x[9:]):
                        raise Violation("face-load", "element %d uses the vector %s" % (e, x))
                    if x[2] == 1:
                        tr = mul(face_normal([coords[n] for n in ff]), x[8])
                        if x[6] or x[7]:
                            raise Violation("face-load", "element %d uses the vector %s" % (e, x))
                    else:
                        tr = x[6:9]
                    add_face(per[load], ff, tr)
                else:
                    raise Violation("face-load", "a %d-dimensional element is loaded by %s" % (v["dim"], x))
        tot = {}
        for l, v in a.loads.items():
            m = re.match(r"Analysis_(\d+)_", v["name"])
            if not m:
                raise Violation("analysis-count", "load %r of no analysis" % v["name"])
            g = int(v["rest"][1])
            if g:
                x = a.vectors[g]
                if x[0] != 6:
                    raise Violation("gravity", "load %d uses the vector %s" % (l, x))
                for j in range(3):
                    per[l].grav[j] += x[6 + 2 * j]
            per[l].addto(tot.setdefault(int(m.group(1)), Loads()), 1.)
        for c, t in tot.items():
            if c not in scids or c in done:
                raise Violation("analysis-count", "loads of analysis %d" % c)
            done.add(c)
            compare(t, want[scids.index(c)], "subcase %d" % c)
    if done != set(scids):
        raise Violation("analysis-count", "subcases %s have no load in any file" % sorted(set(scids) - done))


def check_nastran(out, coords, elems, beams, want, scids):
    b = out.nas
    subs = nas_cases(b)
    if len(subs) != len(want):
        raise Violation("analysis-count", "%d subcases written for %d" % (len(subs), len(want)))
    oe, oc = {}, {}
    for c in b.of("GRID"):
        oc[c.i(0)] = (c.r(2, 0.), c.r(3, 0.), c.r(4, 0.))
    for c in b.cards:
        kind = {"CIHEX1": "CHEXA", "CIHEX2": "CHEXA"}.get(c.name, c.name)
        if kind in REF and c.i(0) in elems:
            nn = [c.i(2 + k) for k in range(len(elems[c.i(0)][1]))]
            oe[c.i(0)] = (kind, nn)
    sets = {}

    def S(c):
        return sets.setdefault(c.i(0), Loads())
    for c in b.cards:
        if c.name == "PLOAD4":
            e = [c.i(1)]
            g1, g34 = c.get(6), c.get(7)
            if g1 == "THRU":
                e = [k for k in oe if c.i(1) <= k <= c.i(7)]
                g1 = g34 = ""
            for k in (3, 4, 5):
                if c.get(k) not in ("",) and c.r(k) != c.r(2):
                    raise Violation("face-load", "%r" % c)
            v = tuple(c.r(k, 0.) for k in (9, 10, 11))
            for k in e:
                if k not in oe:
                    raise Violation("face-load", "%r loads no element" % c)
            pload4(S(c), oe, coords, e, c.r(2), int(g1) if g1 else None, int(g34) if g34 else None, v if any(v) else None)
        elif c.name == "PLOAD2":
            for k in range(2, len(c.f)):
                if c.i(k) not in oe or oe[c.i(k)][0] in FACES:
                    raise Violation("face-load", "%r" % c)
            pload4(S(c), oe, coords, [c.i(k) for k in range(2, len(c.f))], c.r(1), None, None, None)
        elif c.name == "GRAV":
            for j in range(3):
                S(c).grav[j] += c.r(2) * c.r(3 + j, 0.)
            if c.i(1, 0):
                raise Violation("gravity", "%r" % c)
        elif c.name == "PLOAD":
            pload_nodal(S(c), coords, c.r(1), [c.i(k) for k in range(2, len(c.f)) if c.get(k)])
        elif c.name == "FORCE":
            acc = S(c).nodal.setdefault(c.i(1), [0.] * 3)
            for j in range(3):
                acc[j] += c.r(3) * c.r(4 + j, 0.)
        elif c.name == "PLOAD1":
            key = (beams.get(c.i(1)), c.get(2))
            if key[0] is None or c.get(3) != "FR":
                raise Violation("line-load", "%r" % c)
            if (c.r(4), c.r(6)) != (0., 1.):
                key += (round(c.r(4), 3), round(c.r(6), 3))
            acc = S(c).line.setdefault(key, [0.] * 3)
            for j, x in enumerate((c.r(5), (c.r(5) + c.r(7)) / 2, c.r(7))):
                acc[j] += x
    for c in b.of("LOAD"):
        t = S(c)
        for k in range(2, len(c.f), 2):
            if c.i(k + 1) in sets:
                sets[c.i(k + 1)].addto(t, c.r(1) * c.r(k))
    for (sid, s), w in zip(subs, want):
        compare(sets.get(s.get("LOAD"), Loads()), w, "subcase %d" % sid, 3e-3)


def run(ctx):
    ctx.rule = ("meshes of shells and solids (linear and quadratic) and beams, 1-3 load sets of PLOAD4 (shells, solid faces, "
                "directions, THRU), PLOAD2, PLOAD, PLOAD1, GRAV, RFORCE, LOAD combinations, 1-3 subcases; non-trivial: two kinds of load")

    def one(to, chk, opts=()):
        def f(rng, i):
            d, coords, elems, beams, want, scids, feats = build(rng, to)
            out = Out(ctx, d.text(), to=to, opts=list(opts))
            try:
                chk(out, coords, elems, beams, want, scids)
            except Violation as v:
                raise out.tag(v)
            for x in feats:
                ctx.stat(to + " " + x)
            ctx.stat("faces compared", sum(len(w.face) for w in want))
            ctx.seen((to, repr([(sorted((sorted(k), v) for k, v in w.face.items()), w.grav, w.rot) for w in want])) if len(feats) > 1 else None)
            ctx.sample({"to": to, "case": d.case, "features": sorted(feats)})
        return f
    ctx.cases("aster", ctx.n(200), one("ASTER", check_aster))
    ctx.cases("systus", ctx.n(130), one("SYSTUS", check_systus))
    ctx.cases("nastran", ctx.n(90), one("NASTRAN", check_nastran, ("--nastran.OutputDialect=modern",)))

    def negative(rng, i):
        """a centrifugal load goes with the square of the speed: a negative multiple of one has no speed"""
        s, k = coef(rng, .3, 3), coef(rng, .3, 3)
        if rng.random() < .5:
            s = -abs(s)
            k = abs(k)
        else:
            s = abs(s)
            k = -abs(k)
        other = rng.random() < .5
        d = Deck()
        d.case += ["SPC=1", "SUBCASE 1", "  LOAD=5"]
        for n, c in enumerate([(0., 0., 0.), (1., 0., 0.), (1., 1., 0.), (0., 1., 0.)]):
            d.add("GRID", n + 1, None, *c)
        d.add("MAT1", 1, 2.1e5, None, .3, 1e-3)
        d.add("PSHELL", 1, 1, .1)
        d.add("CQUAD4", 1, 1, 1, 2, 3, 4)
        d.add("SPC1", 1, 123456, 1, 2)
        d.add("RFORCE", 2, 1, None, dec(rng, .5, 20, 3), 0., 0., 1.)
        d.add("PLOAD2", 3, 7., 1)
        d.add("LOAD", 5, s, k, 2, *([1., 3] if other else []))
        rng.shuffle(d.bulk)
        out = Out(ctx, d.text(), to="ASTER", check=False)
        r = out.r
        if r.san or r.timeout or r.crashed():
            raise out.tag(Violation("crash", "a negative multiple of an RFORCE: status %s %s" % (r.rc, r.san)))
        ctx.seen(("negative", s, k, other))
        if r.rc == 0 and not re.search(r"(?i)centrifug|rotation|RFORCE", r.console):
            raise out.tag(Violation("negative-rotation", "RFORCE times %g was written without a message" % (s * k)))
        ctx.stat("negative multiples of RFORCE refused")
    ctx.cases("negative-rotation", ctx.n(8, 80), negative)
