"""Multi-point constraints and rigid elements: the linear relations of each analysis are those of its subcase."""
from fem import *  # noqa
import lineq
import kine
import re
from comm import lst, node

LEVEL = "exploration"


def comp(rng, k=None):
    k = k or rng.randint(1, 6)
    return "".join(sorted(rng.sample("123456", k)))


def build(rng, to, partial=False):
    """beam chain carrying masters, dangling nodes carrying dependent freedoms"""
    d = Deck()
    nb = rng.randint(3, 8)
    nfree = rng.randint(2, 12)
    nid = ids(rng, nb + 1 + nfree)
    chain, free = nid[:nb + 1], nid[nb + 1:]
    coords = {}
    for k, n in enumerate(nid):
        coords[n] = (round(1.5 * k + rng.uniform(-.3, .3), 3), dec(rng, -2, 2, 3), dec(rng, -2, 2, 3))
    cards = [("GRID", [n, None] + list(coords[n])) for n in nid]
    cards.append(("MAT1", [1, 2.1e11, None, .3]))
    cards.append(("PBAR", [1, 1, 2., .4, .3, .5]))
    eid = iter(ids(rng, 60, hi=3000))
    for k in range(nb):
        cards.append(("CBAR", [next(eid), 1, chain[k], chain[k + 1], 0.1, 0.2, 1.]))
    # every free node carries a beam too, so that it has six freedoms
    for n in free:
        cards.append(("CBAR", [next(eid), 1, n, rng.choice(chain), 0.1, 0.2, 1.]))
    rng.shuffle(free)
    common, rbe3 = [], []       # rows, structural
    feats = set()
    kinds = ["RBE2", "RBAR", "RBE3", "RBAR1", "CRIGD1"]
    if to != "SYSTUS":
        kinds += ["RBE2p"]
    if to == "NASTRAN" and not partial:
        # RBAR and partial RBE2 are written as MPC of a set nothing selects (recorded finding)
        kinds = ["RBE2", "RBE3"]
    fr = list(free)
    nmpc_free = rng.randint(0, len(fr))
    mpcfree = fr[:nmpc_free]
    fr = fr[nmpc_free:]
    while fr and rng.random() < .85:
        k = rng.choice(kinds)
        if k in ("RBE2", "RBE2p"):
            c = "123456" if k == "RBE2" else comp(rng, rng.randint(1, 5))
            s = [fr.pop() for _ in range(min(len(fr), rng.randint(1, 5)))]
            m = rng.choice(chain)
            cards.append(("RBE2", [next(eid), m, c] + s))
            for x in s:
                common += kine.rigid_rows(m, x, coords[m], coords[x], [int(q) for q in c])
        elif k == "RBAR":
            m, s = rng.choice(chain), fr.pop()
            f = [next(eid), m, s, "123456"]
            if rng.random() < .3:
                f = [next(eid), s, m, None, "123456"]
            elif rng.random() < .3:
                f = f[:3]       # no freedom given: GA carries all of them
            cards.append(("RBAR", f))
            common += kine.rigid_rows(m, s, coords[m], coords[s], range(1, 7))
        elif k == "CRIGD1":
            m, q = rng.choice(chain), [fr.pop() for _ in range(min(len(fr), rng.randint(1, 4)))]
            cards.append(("CRIGD1", [next(eid), None, m] + q))
            for x in q:
                common += kine.rigid_rows(m, x, coords[m], coords[x], range(1, 7))
        elif k == "RBAR1":
            # the freedoms CB of GB follow GA, all of them when none is given
            m, s = rng.choice(chain), fr.pop()
            c = "123456" if to == "SYSTUS" or rng.random() < .6 else comp(rng, rng.randint(1, 5))
            cards.append(("RBAR1", [next(eid), m, s] + ([c] if c != "123456" or rng.random() < .5 else [])))
            common += kine.rigid_rows(m, s, coords[m], coords[s], [int(q) for q in c])
        else:
            m = fr.pop()
            refc = comp(rng)
            f = [next(eid), None, m, refc]
            slaves = {}
            pool = rng.sample(chain, rng.randint(2, min(len(chain), 7)))
            while pool:
                k2 = rng.randint(1, len(pool))
                w = rng.choice([1., .5, 2.5, dec(rng, .1, 5, 3)])
                c = rng.choice(["123", "123", "123456", comp(rng)])
                f += [w, c] + pool[:k2]
                for x in pool[:k2]:
                    slaves[x] = (tuple(int(q) for q in c), w)
                pool = pool[k2:]
            cards.append(("RBE3", f))
            rbe3.append((m, tuple(int(q) for q in refc), slaves))
            k = "RBE3x%d" % (len(set(slaves.values())) > 1)
        feats.add(k)
    # MPC sets
    sets = {}
    dep = {}
    for sid in ids(rng, rng.randint(0, 3), hi=500):
        sets[sid] = []
        pool = [(n, k) for n in (mpcfree or chain[:1]) for k in range(1, 7)]
        rng.shuffle(pool)
        style = rng.random()
        npair = rng.randint(1, 8)
        if style < .35 and mpcfree:
            # several relations between the same nodes (they share a Systus element)
            n = rng.choice(mpcfree)
            others = rng.sample(chain, rng.randint(1, min(3, len(chain))))
            rel = [((n, k), [(o, rng.randint(1, 6)) for o in others]) for k in rng.sample(range(1, 7), rng.randint(2, 6))]
            if rng.random() < .4 and len(mpcfree) > 1:
                # more than six between the same nodes
                m2 = rng.choice([x for x in mpcfree if x != n])
                rel = [((a, k), [(b, kb) for b, kb in [(m2 if a == n else n, 0)][:0]] + [(o, rng.randint(1, 6)) for o in others])
                       for a in (n, m2) for k in rng.sample(range(1, 7), rng.randint(3, 6))]
                rel = [(a, t + [((m2 if a[0] == n else n), None)]) for a, t in rel]
                used = {a for a, _ in rel}
                rel2 = []
                for a, t in rel:
                    o, _ = t[-1]
                    fk = [k for k in range(1, 7) if (o, k) not in used]
                    t = t[:-1] + ([(o, rng.choice(fk))] if fk else [])
                    rel2.append((a, t))
                rel = rel2
            feats.add("MPC-same-nodes")
        else:
            rel = []
            for a in pool[:npair]:
                o = rng.sample(chain, rng.randint(1, min(len(chain), 7)))
                rel.append((a, [(x, rng.randint(1, 6)) for x in o if x != a[0]]))
                if rng.random() < .2 and o[0] != a[0]:
                    # two components of one node in a relation
                    x, kx = rel[-1][1][0]
                    rel[-1][1].append((x, kx % 6 + 1))
        for a, terms in rel:
            if not terms:
                continue
            row = {a: dec(rng, .2, 3, 3) * rng.choice([1, -1])}
            f = [sid, a[0], a[1], row[a]]
            k = 1
            for x in terms:
                if x in row:
                    continue
                row[x] = dec(rng, .2, 3, 3) * rng.choice([1, -1])
                if k % 2 == 0:
                    f += [None, None]
                f += [x[0], x[1], row[x]]
                k += 1
            cards.append(("MPC", f))
            sets[sid].append((row, 0.))
            feats.add("MPC%d" % min(len(row), 5))
        if not sets[sid]:
            del sets[sid]
    cards.append(("SPC1", [1, 123456, chain[0]]))
    cards.append(("FORCE", [2, chain[-1], None, 5., 1., 0., 0.]))
    cards.append(("FORCE", [3, chain[-1], None, 5., 0., 1., 0.]))
    d.case.append("SPC=1")
    glob = rng.choice(list(sets)) if sets and rng.random() < .5 else None
    if glob:
        d.case.append("MPC=%d" % glob)
    want = []
    for k in range(rng.randint(1, 3)):
        own = rng.choice(list(sets)) if sets and rng.random() < .6 else None
        d.case.append("SUBCASE %d" % (k + 1))
        body = ["  LOAD=%d" % (2 + k % 2)]
        if own:
            body.append("  MPC=%d" % own)
        if sets and rng.random() < .3:
            # a request of forces selects nodes, not constraints
            body.append("  MPCFORCES%s=%s" % (rng.choice(("", "(PRINT)")), rng.choice((rng.choice(list(sets)), "ALL"))))
        rng.shuffle(body)
        d.case += body
        want.append(sets.get(own or glob, []))
    if not common and not rbe3 and not any(want):
        cards.append(("RBE2", [next(eid), chain[0], "123456", free[0]]))
        common += kine.rigid_rows(chain[0], free[0], coords[chain[0]], coords[free[0]], range(1, 7))
    rng.shuffle(cards)
    for name, f in cards:
        d.add(name, *f)
    spc = [({(chain[0], k): 1.}, 0.) for k in range(1, 7)]
    return d, coords, [w + common + spc for w in want], rbe3, feats


def build_solid(rng, to, hinge=False):
    """solids (nodes without rotations) carrying rigid spiders whose masters are free or solid nodes"""
    d = Deck()
    nx, ny, nz = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 2)
    key = [(x, y, z) for x in range(nx + 1) for y in range(ny + 1) for z in range(nz + 1)]
    nextra = rng.randint(1, 4)
    nid = ids(rng, len(key) + nextra)
    at = dict(zip(key, nid))
    h = rng.choice([1., 1., .5, 2.])
    jit = rng.choice([0., 0., .1])
    coords = {at[k]: tuple(round(h * c + rng.uniform(-jit, jit), 3) for c in k) for k in key}
    extra = nid[len(key):]
    for n in extra:
        while True:
            p = tuple(h * rng.choice([-1., 0., 1., 2., 3., .5]) for _ in range(3)) if rng.random() < .7 else \
                tuple(dec(rng, -3, 5, 3) for _ in range(3))
            if all(norm(sub(p, q)) > .2 for q in coords.values()):
                break
        coords[n] = p
    cards = [("GRID", [n, None] + list(c)) for n, c in coords.items()]
    cards += [("MAT1", [1, 2.1e11, None, .3]), ("PSOLID", [1, 1])]
    eid = iter(ids(rng, 60, hi=3000))
    for x in range(nx):
        for y in range(ny):
            for z in range(nz):
                cards.append(("CHEXA", [next(eid), 1] + [at[(x + a, y + b, z + c)] for c in (0, 1) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]))
    solid = [at[k] for k in key]
    pool = list(solid)
    rng.shuffle(pool)
    rows, rbe3, feats, phys = [], [], set(), {(n, k) for n in solid for k in (1, 2, 3)}
    fixed = pool.pop()
    for m in extra:
        if not pool:
            break
        r = rng.random()
        if r < .65 or len(pool) < 3:
            comp_ = rng.choice(["123456", "123456", "123"] + ([comp(rng, 2)] if to == "ASTER" else []))
            if to != "ASTER":
                comp_ = "123456"
            master = m if rng.random() < .8 or len(pool) < 2 else pool.pop()
            s = []
            mode = rng.random()
            if mode < .5:      # slaves on one axis of the master, as far as there are some
                ax = rng.randrange(3)
                s = [n for n in pool if sum(abs(coords[n][q] - coords[master][q]) > 1e-9 for q in range(3) if q != ax) == 0]
            s = (s or rng.sample(pool, min(len(pool), rng.randint(1, 4))))[:4]
            for n in s:
                pool.remove(n)
            m = master
            cards.append(("RBE2", [next(eid), master, comp_] + s))
            for n in s:
                rows += kine.rigid_rows(master, n, coords[master], coords[n], [int(q) for q in comp_])
            def spread(ss):
                return sum(any(abs(coords[n][q] - coords[master][q]) > 1e-9 for n in ss) for q in range(3))
            if pool and rng.random() < (.9 if hinge else .25):
                # another body on the same master; an Aster body on one axis of a shared master is a recorded finding
                al = [n for n in pool if spread([n]) <= 1]
                n = rng.choice(al) if hinge and al else pool[-1]
                pool.remove(n)
                if to == "ASTER" and (hinge == (min(spread(s), spread([n])) > 1)):
                    pool.append(n)
                    n = None
            else:
                n = None
            if n is not None:
                cards.append(("RBE2", [next(eid), master, comp_, n]))
                rows += kine.rigid_rows(master, n, coords[master], coords[n], [int(q) for q in comp_])
                s.append(n)
                feats.add("spider-shared-master")
            feats.add("spider-%s-spread%d" % ("full" if comp_ == "123456" else "part", spread(s)))
        else:
            k = rng.randint(3, min(5, len(pool)))
            s = rng.sample(pool, k)
            refc = rng.choice(["123", "123456"])
            w = coef(rng, .1, 5)
            cards.append(("RBE3", [next(eid), None, m, refc, w, "123"] + s))
            rbe3.append((m, tuple(int(q) for q in refc), {n: ((1, 2, 3), w) for n in s}))
            feats.add("RBE3")
        if rng.random() < .5:
            cards.append(("FORCE", [2, m, None, 5.] + rng.choice([[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]])))
            phys |= {(m, k) for k in (1, 2, 3)}
    cards.append(("SPC1", [1, 123, fixed]))
    cards.append(("FORCE", [2, solid[-1], None, 5., 1., 0., 0.]))
    d.case += ["SPC=1", "SUBCASE 1", "  LOAD=2"]
    rng.shuffle(cards)
    for name, f in cards:
        d.add(name, *f)
    spc = [({(fixed, k): 1.}, 0.) for k in (1, 2, 3)]
    return d, coords, [rows + spc], rbe3, feats, phys


def fmt(r):
    return " + ".join("%g*N%s.%d" % (v, n, k) for (n, k), v in r.items())


def norm3(m, refc, slaves):
    mx = max(w for _, w in slaves.values())
    return (m, tuple(sorted(refc)), tuple(sorted((s, tuple(sorted(c)), float("%.3g" % (w / mx))) for s, (c, w) in slaves.items())))


def cmp3(want, have):
    a = sorted(norm3(*x) for x in want)
    b = sorted(norm3(*x) for x in have)
    if a != b:
        raise Violation("rbe3", "averages %s instead of %s" % ([x for x in b if x not in a][:2], [x for x in a if x not in b][:2]))


def cmp_rows(want, have, phys, tol=None):
    if phys is not None:
        want, have = (lineq.project(x, lambda q: q in phys) for x in (want, have))
    return lineq.compare(want, have, fmt, **({"tol": tol} if tol else {}))


def check_aster(out, coords, want, rbe3, phys=None):
    nm = NodeMap(coords, med_coords(out.med))
    an = out.comm.analyses()
    rot = kine.aster_rotational(out.comm, out.med, nm) if phys is not None else None
    if len(an) != len(want):
        raise Violation("analysis-count", "%d analyses for %d subcases" % (len(an), len(want)))
    for i, ((oid, c), w) in enumerate(zip(an, want)):
        rows, used = kine.aster_rows(out.comm, c, nm, coords, out.med.nodegroups, rot)
        x = cmp_rows(w, rows, phys)
        if x:
            raise Violation("relations", "subcase number %d: %s" % (i + 1, x))
        have = []
        for ch, _ in used:
            for f in lst(out.comm.charges()[ch.name].kw.get("LIAISON_RBE3")):
                m = nm.to_in.get(node(lst(f["NOEUD_MAIT"])[0]))
                s = [nm.to_in.get(node(x)) for x in lst(f["NOEUD_ESCL"])]
                dd = lst(f["DDL_ESCL"])
                cc = lst(f["COEF_ESCL"])
                if not len(s) == len(dd) == len(cc):
                    raise Violation("rbe3", "LIAISON_RBE3 lists of %d, %d, %d entries" % (len(s), len(dd), len(cc)))
                have.append((m, tuple(kine.DDL[x] for x in lst(f["DDL_MAIT"])),
                             {a: (tuple(kine.DDL[q] for q in b.split("-")), float(k)) for a, b, k in zip(s, dd, cc)}))
        cmp3(rbe3, have)


def bits(v):
    v = int(v)
    return tuple(k + 1 for k in range(6) if v >> k & 1)


def stiff(mat, e, opts, coords):
    """the penalty (or multiplier scale) of a rigid element or relation: option or coefficient times stiffness"""
    o = dict(x.split("=") for x in opts)
    have = mat.get(5)
    lag = o.get("--systus.RBE2TranslationMode") == "lagrangian"
    coef = float(o.get("--systus.RBECoefficient", 1000. if lag else 10.))
    if mat.get(61) != (19 if lag else 9):
        raise Violation("rigid-formulation", "element %d has the shape %s with %s" % (e, mat.get(61), opts))
    if lag or "--systus.RBEStiffness" in o:
        w = coef * (1. if lag else float(o["--systus.RBEStiffness"]))
        if have is None or not close(have, w, 1e-4):
            raise Violation("rigid-stiffness", "element %d: %s instead of %g (%s)" % (e, have, w, opts))
        return
    # automatic: Young modulus times a characteristic length of the mesh
    c = list(coords.values())
    big = max(math.dist(c[0], x) for x in c) * 2
    if have is None or not 0 < have <= 1.0001 * coef * 2.1e11 * max(big, 1.) or have < coef * 2.1e11 * 1e-4:
        raise Violation("rigid-stiffness", "element %d: %s, %g times the elastic modulus, in a mesh of size %g (%s)" %
                        (e, have, (have or 0) / 2.1e11, big, opts))


def check_systus(out, coords, want, rbe3, ncase, phys=None, opts=()):
    seen = set()
    k = 1
    while out.r.text("_SC%d_DATA1.ASC" % k) is not None:
        a = out.asc(k)
        k += 1
        cases = {int(m.group(1)) for v in a.loads.values() for m in [re.match(r"Analysis_(\d+)", v["name"])] if m}
        if not cases or not cases <= set(range(1, ncase + 1)):
            raise Violation("analysis-count", "file %d is for the analyses %s" % (k - 1, sorted(cases)))
        tables = {}
        for l in a.sections.get("TABLES", []):
            t = l.split()
            tables[int(t[0])] = [float(x) for x in t[2:]]
        rows = []
        for n, v in a.nodes.items():
            for q in bits(v["iconst"]):
                rows.append(({(n, q): 1.}, 0.))
        avg = {}
        lagr = set()
        for e, el in a.elements.items():
            if el["nature"] != 9:
                continue
            nn = a.element_nodes(e)
            mat = a.materials[int(el["rest"][0])]
            rot = None
            if a.header["option"] == 4 and mat.get(197) != 0:
                # continuous option: a node of its own carries the rotations of the master
                rot = nn.pop(2)
                if rot in coords or tuple(a.nodes[rot]["xyz"]) != tuple(a.nodes[nn[0]]["xyz"]):
                    raise Violation("rotation-node", "rotation node %d of element %d is not at its master" % (rot, e))
            if mat.get(197) in (0, 1):
                stiff(mat, e, opts, coords)
            if mat.get(61) == 19 and mat.get(197) in (0, 1):
                x = nn.pop()
                if x in coords or x in lagr:
                    raise Violation("lagrange-node", "element %d shares or borrows its extra node %d" % (e, x))
                lagr.add(x)
                mat = dict(mat)
                mat[61] = 9
            if mat.get(61) == 9 and mat.get(197) == 1:
                for s in nn[1:]:
                    rr = kine.rigid_rows(nn[0], s, coords[nn[0]], coords[s], range(1, 4 if rot else 7))
                    if rot:
                        rr = [({((rot, k - 3) if (n, k) in [(nn[0], 4), (nn[0], 5), (nn[0], 6)] else (n, k)): v
                               for (n, k), v in r.items()}, b) for r, b in rr]
                    rows += rr
            elif mat.get(61) == 9 and mat.get(197) == 0:
                t = tables[int(mat[26])]
                if not t or len(t) % (6 * len(nn)):
                    raise Violation("relations", "table of %d values for %d nodes" % (len(t), len(nn)))
                w = 6 * len(nn)
                for q in range(0, len(t), w):
                    row = {}
                    for j, n in enumerate(nn):
                        for f in range(6):
                            if t[q + 6 * j + f]:
                                row[(n, f + 1)] = t[q + 6 * j + f]
                    if row:
                        rows.append((row, 0.))
            elif mat.get(61) == 19:
                if rot:
                    m, s, x, xr = nn
                    if xr in coords or xr == x:
                        raise Violation("rbe3", "extra rotation node %d of the average" % xr)
                else:
                    m, s, x = nn
                dofs = tuple(q + 1 for q, key in enumerate((31, 32, 33, 14, 15, 16)) if mat.get(key))
                if x in coords or tuple(a.nodes[x]["xyz"]) != tuple(a.nodes[m]["xyz"]):
                    raise Violation("rbe3", "extra node %d of the average at node %d" % (x, m))
                avg.setdefault((m, x, dofs), {})[s] = (bits(mat.get(184, 0)), mat[56])
            else:
                raise Violation("relations", "element %d of unknown rigid kind: %s" % (e, mat))
        cmp3(rbe3, [(m, c, s) for (m, x, c), s in avg.items()])
        for c in cases:
            d = cmp_rows(want[c - 1], rows, phys)
            if d:
                raise Violation("relations", "subcase number %d: %s" % (c, d))
            if c in seen:
                raise Violation("analysis-count", "subcase %d in two files" % c)
            seen.add(c)
    if len(seen) != ncase:
        raise Violation("analysis-count", "only the subcases %s were written" % sorted(seen))


def check_nastran(out, coords, want, rbe3, phys=None):
    b = out.nas
    subs, cur, glob = [], None, {}
    for l in b.case:
        m = re.match(r"\s*SUBCASE\s+(\d+)", l)
        if m:
            cur = dict(glob)
            subs.append(cur)
        m = re.match(r"\s*(SPC|MPC)\s*=\s*(\d+)", l)
        if m:
            (glob if cur is None else cur)[m.group(1)] = int(m.group(2))
    if len(subs) != len(want):
        raise Violation("analysis-count", "%d subcases written for %d" % (len(subs), len(want)))
    common = []
    for c in b.of("RBE2"):
        for s in c.f[3:]:
            if s:
                common += kine.rigid_rows(c.i(1), int(s), coords[c.i(1)], coords[int(s)], [int(q) for q in c.get(2)])
    for c in b.of("RBAR"):
        common += kine.rigid_rows(c.i(1), c.i(2), coords[c.i(1)], coords[c.i(2)], range(1, 7))
    mpc = {}
    for c in b.of("MPC"):
        row = {}
        k = 1
        while k < len(c.f):
            if c.f[k]:
                row[(c.i(k), c.i(k + 1))] = c.r(k + 2)
            k += 3 if (k % 8) != 4 else 5
        mpc.setdefault(c.i(0), []).append((row, 0.))
    spc = {}
    for c in b.of("SPC1"):
        for f in c.f[2:]:
            if f:
                spc.setdefault(c.i(0), []).extend(({(int(f), int(k)): 1.}, 0.) for k in c.get(1))
    for c in b.of("SPC"):
        for k0 in (1, 4):
            if c.get(k0):
                spc.setdefault(c.i(0), []).extend(({(c.i(k0), int(k)): 1.}, c.r(k0 + 2, 0.)) for k in c.get(k0 + 1))
    adds = {c.i(0): [int(x) for x in c.f[1:] if x] for c in b.of("SPCADD", "MPCADD")}
    for i, (s, w) in enumerate(zip(subs, want)):
        rows = list(common)
        for kind, table in (("SPC", spc), ("MPC", mpc)):
            if kind in s:
                for q in adds.get(s[kind], [s[kind]]):
                    rows += table.get(q, [])
        x = cmp_rows(w, rows, phys, None if phys is not None else 2e-3)
        if x:
            raise Violation("relations", "subcase number %d: %s" % (i + 1, x))
    have = []
    for c in b.of("RBE3"):
        s = {}
        w = comp_ = None
        k = 4
        while k < len(c.f):
            if c.f[k] == "":
                k += 1
                continue
            if "." in c.f[k]:
                w, comp_ = c.r(k), tuple(int(q) for q in c.get(k + 1))
                k += 2
            else:
                s[int(c.f[k])] = (comp_, w)
                k += 1
        have.append((c.i(2), tuple(int(q) for q in c.get(3)), s))
    cmp3(rbe3, have)


def run(ctx):
    ctx.rule = ("beam frames with 0-3 MPC sets (2-8 terms, several between the same nodes), RBE2 (all or some components), "
                "RBAR, RBAR1, CRIGD1, RBE3 (several weights), MPC selected above or in 1-3 subcases; non-trivial: two kinds of relation or more")

    def one(to, partial=False, solid=False, hinge=False):
        def f(rng, i):
            phys = None
            if solid:
                d, coords, want, rbe3, feats, phys = build_solid(rng, to, hinge)
            else:
                d, coords, want, rbe3, feats = build(rng, to, partial)
            opts = []
            if to == "ASTER":
                opts = rng.choice([[], [], ["--convertCompletelyRigidsIntoMPCs=false"], ["--convertCompletelyRigidsIntoMPCs=true"]])
            elif to == "SYSTUS":
                opts = rng.choice([[], [], ["--systus.RBE2TranslationMode=lagrangian"]])
                if rng.random() < .4:
                    opts = opts + ["--systus.RBECoefficient=%g" % dec(rng, 1, 500, 2)]
                if rng.random() < .3:
                    opts = opts + ["--systus.RBEStiffness=%g" % dec(rng, 1e3, 1e9, 2)]
            for o in opts:
                ctx.stat(to + " " + (o if "RBEC" not in o and "RBES" not in o else o.split("=")[0]))
            out = Out(ctx, d.text(), to=to, opts=opts)
            try:
                if to == "ASTER":
                    check_aster(out, coords, want, rbe3, phys)
                elif to == "SYSTUS":
                    check_systus(out, coords, want, rbe3, len(want), phys, opts)
                else:
                    check_nastran(out, coords, want, rbe3, phys)
            except Violation as v:
                if partial and v.key == "relations":
                    v.key = "nastran-partial-rigid"
                if hinge and v.key == "relations" and "spider-shared-master" in feats:
                    v.key = "aster-axis-body-on-shared-master"
                raise out.tag(v)
            for x in feats:
                ctx.stat(to + " " + x)
            ctx.stat("relations compared", sum(len(w) for w in want))
            ctx.seen((to, repr(want), repr(rbe3)) if len(feats) > 1 else None)
            ctx.sample({"to": to, "case": d.case, "features": sorted(feats)})
        return f
    ctx.cases("aster", ctx.n(200), one("ASTER"))
    ctx.cases("systus", ctx.n(150), one("SYSTUS"))
    ctx.cases("nastran", ctx.n(80), one("NASTRAN"))
    ctx.cases("nastran-partial", ctx.n(8), one("NASTRAN", True))
    ctx.cases("aster-solid", ctx.n(100), one("ASTER", solid=True))
    ctx.cases("systus-solid", ctx.n(80), one("SYSTUS", solid=True))
    ctx.cases("nastran-solid", ctx.n(40), one("NASTRAN", solid=True))
    ctx.cases("aster-shared", ctx.n(30), one("ASTER", solid=True, hinge=True))
