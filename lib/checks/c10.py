"""Element topology: every element reaches the output once, with its own nodes in the order the target's
convention gives to that shape, and in the group of its own property (and no other)."""
from fem import *  # noqa

LEVEL = "exploration"

# Systus convention: nodes listed ring by ring with the mid-side nodes between the corners
SYSTUS_ORDER = {
    ("CHEXA", 8): list(range(8)), ("CPENTA", 6): list(range(6)), ("CTETRA", 4): list(range(4)),
    ("CHEXA", 20): [0, 8, 1, 9, 2, 10, 3, 11, 12, 13, 14, 15, 4, 16, 5, 17, 6, 18, 7, 19],
    ("CPENTA", 15): [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14],
    ("CTETRA", 10): [0, 4, 1, 5, 2, 6, 7, 8, 9, 3],
    ("CQUAD4", 4): [0, 1, 2, 3], ("CTRIA3", 3): [0, 1, 2],
    ("CQUAD8", 8): [0, 4, 1, 5, 2, 6, 3, 7], ("CTRIA6", 6): [0, 3, 1, 4, 2, 5],
    ("CBAR", 2): [0, 1], ("CROD", 2): [0, 1], ("CBEAM", 2): [0, 1],
}
SYSTUS_TYPE = {"CHEXA": 3000, "CPENTA": 3000, "CTETRA": 3000, "CQUAD4": 2400, "CTRIA3": 2400, "CQUAD8": 2400,
               "CTRIA6": 2400, "CBAR": 1000, "CBEAM": 1000, "CROD": 1900}
NAS_NAMES = {"CHEXA": {"CHEXA", "CIHEX1", "CIHEX2"}, "CPENTA": {"CPENTA"}, "CTETRA": {"CTETRA"}, "CPYRA": {"CPYRA"},
             "CQUAD4": {"CQUAD4"}, "CQUAD8": {"CQUAD8"}, "CTRIA3": {"CTRIA3"}, "CTRIA6": {"CTRIA6"},
             "CBAR": {"CBAR", "CBEAM"}, "CBEAM": {"CBAR", "CBEAM"}, "CROD": {"CROD"}}
ALIAS = {"CQUAD4": ["CQUAD4", "CQUAD4", "CQUADR"], "CTRIA3": ["CTRIA3", "CTRIA3", "CTRIAR"], "CPYRA": ["CPYRA", "CPYRAM"]}
SHAPES = [("CHEXA", 0), ("CHEXA", 1), ("CPENTA", 0), ("CPENTA", 1), ("CTETRA", 0), ("CTETRA", 1), ("CPYRA", 0),
          ("CPYRA", 1), ("CQUAD4", 0), ("CQUAD8", 1), ("CTRIA3", 0), ("CTRIA6", 1), ("CBAR", 0), ("CROD", 0),
          ("CBEAM", 0)]


def build(rng, to):
    d = Deck()
    d.case = ["SPC=1", "LOAD=2"]
    shapes = [s for s in SHAPES if not (to == "SYSTUS" and s[0] == "CPYRA") and not (to != "ASTER" and s[0] == "CBEAM")]
    n_el = rng.randint(3, 16)
    nid = iter(ids(rng, 20 * n_el))
    eid = ids(rng, n_el, hi=5000)
    coords, elems, cards = {}, {}, []
    shared = []
    pools = {"solid": [], "shell": [], "CBAR": [], "CBEAM": [], "CROD": []}
    pid = iter(ids(rng, 40, hi=800))
    mats = ids(rng, 3, hi=500)

    def prop(kind):
        p = next(pid)
        m = rng.choice(mats)
        if kind == "solid":
            cards.append(("PSOLID", [p, m]))
        elif kind == "shell":
            cards.append(("PSHELL", [p, m, dec(rng, .01, .5, 3)]))
        elif kind == "CBAR":
            cards.append(("PBAR", [p, m, 2., .4, .3, .5]))
        elif kind == "CBEAM":
            cards.append(("PBEAM", [p, m, 2., .4, .3, None, .5]))
        else:
            cards.append(("PROD", [p, m, 1.5]))
        pools[kind].append(p)
        return p
    for m in mats:
        cards.append(("MAT1", [m, 2.1e11, None, .3, 7800.]))
    for k, e in enumerate(eid):
        kind, quad = rng.choice(shapes)
        if kind in ("CBAR", "CBEAM", "CROD"):
            pts = [(0, 0, 0), (round(rng.uniform(.5, 1), 3), round(rng.uniform(-.3, .3), 3), .2)]
            org = (4.0 * k, 10., 1.5)
            pts = [tuple(round(a + b, 4) for a, b in zip(p, org)) for p in pts]
        else:
            pts = solid_nodes(kind, quad, (4.0 * k, 0.25, 0.5), 2.0, rng)
        nn = []
        for p in pts:
            n = None
            # share a corner now and then with an earlier element of any kind
            if shared and rng.random() < .12 and kind in ("CBAR", "CBEAM", "CROD"):
                n = rng.choice(shared)
                if n in nn:
                    n = None
            if n is None:
                n = next(nid)
                coords[n] = p
            nn.append(n)
        shared += nn[:3]
        cat = kind if kind in pools else ("shell" if kind in ("CQUAD4", "CQUAD8", "CTRIA3", "CTRIA6") else "solid")
        p = rng.choice(pools[cat]) if pools[cat] and rng.random() < .6 else prop(cat)
        elems[e] = (kind, nn, p)
        f = [e, p] + nn
        if kind in ("CBAR", "CBEAM"):
            f += [.1, .2, 1.]
        # other names of the same shapes
        cards.append((rng.choice(ALIAS.get(kind, [kind])), f))
    # CQUAD8/CTRIA6 may leave mid-side nodes out only in real Nastran; all are given here
    cards += [("GRID", [n, None] + list(c)) for n, c in coords.items()]
    rng.shuffle(cards)
    for name, f in cards:
        d.add(name, *f)
    first = next(iter(coords))
    d.add("SPC1", 1, 123456, first)
    lastn = rng.choice(list(coords))
    d.add("FORCE", 2, lastn, None, 3., 1., 0., 0.)
    return d, coords, elems


def check_aster(out, coords, elems):
    med = out.med
    nm = NodeMap(coords, med_coords(med))
    got = {}
    for key, (num, conn, fam) in med.cells.items():
        got.setdefault((key[0], tuple(conn)), []).append(key)
    claimed = set()
    cell_of = {}
    for e, (kind, nn, p) in elems.items():
        t = MED_TYPE[(kind, len(nn))]
        conn = tuple(nm.to_out[nn[k]] for k in MED_ORDER[t])
        hits = [k for k in got.get((t, conn), [])]
        if not hits:
            near = [[nm.to_in.get(x) for x in c] for (tt, c) in got if tt == t and set(c) == set(conn)]
            raise Violation("element-missing", "%s %d %s: no %s with that connectivity in the mesh (same nodes: %s)" %
                            (kind, e, nn, t, near))
        free = [k for k in hits if k not in claimed]
        if len(hits) != 1:
            raise Violation("element-twice", "%s %d is %d times in the mesh" % (kind, e, len(hits)))
        cell_of[e] = free[0]
        claimed.add(free[0])
    extra = [k for k in med.cells if k not in claimed and k[0] != "POINT1"]
    if extra:
        raise Violation("element-extra", "%d cells of no element: %s" % (len(extra), extra[:5]))
    # every element in exactly one group the model uses, shared by exactly the elements of its property
    mod = {g for g in out.comm.modelisation() if med.cellgroups.get(g, set()) & claimed}
    mat = out.comm.material_of()
    for g in out.comm.modelisation():
        if not med.cellgroups.get(g):
            raise Violation("group-empty", "AFFE_MODELE uses the group %s, which the mesh does not have" % g)
    partition({e: [g for g in mod if cell_of[e] in med.cellgroups[g]] for e in elems}, elems)
    for g in mod:
        if len(mat.get(g, [])) != 1:
            raise Violation("group-unused", "%s has material %s" % (g, mat.get(g)))


def partition(groups_of, elems):
    of = {}
    for e, (kind, nn, p) in elems.items():
        if len(groups_of[e]) != 1:
            raise Violation("element-group", "%s %d of property %d is in the groups %s" % (kind, e, p, groups_of[e]))
        if of.setdefault(p, groups_of[e][0]) != groups_of[e][0]:
            raise Violation("element-group", "elements of property %d are in %s and %s" % (p, of[p], groups_of[e][0]))
    if len(set(of.values())) != len(of):
        raise Violation("element-group", "properties share a group: %s" % of)


def check_systus(out, coords, elems):
    a = out.asc()
    for e, (kind, nn, p) in elems.items():
        if e not in a.elements:
            raise Violation("element-missing", "%s %d is not in the Systus file" % (kind, e))
        el = a.elements[e]
        want = [nn[k] for k in SYSTUS_ORDER[(kind, len(nn))]]
        if el["nn"] != len(nn) or a.element_nodes(e) != want:
            raise Violation("element-nodes", "%s %d is %r instead of nodes %s" % (kind, e, el["line"], want))
        if el["dim"] != SYSTUS_TYPE[kind] // 1000 or (kind != "CROD" and el["type"] // 100 * 100 != SYSTUS_TYPE[kind]):
            raise Violation("element-type", "%s %d written with Systus type %d" % (kind, e, el["type"]))
    if set(a.elements) != set(elems):
        raise Violation("element-extra", "elements %s are of no card" % sorted(set(a.elements) - set(elems)))
    gs = [g for g in a.groups.values() if g["kind"] == 2]
    for g in gs:
        if len(set(g["items"])) != len(g["items"]) or not set(g["items"]) <= set(elems):
            raise Violation("element-group", "group %s holds %s" % (g["name"], g["items"]))
    partition({e: [g["name"] for g in gs if e in g["items"]] for e in elems}, elems)


def check_nastran(out, coords, elems):
    b = out.nas
    props = {}
    for c in b.cards:
        if c.name.startswith("P") and c.name not in ("PLOAD4", "PARAM"):
            props[c.i(0)] = c
    got = {}
    for c in b.cards:
        if c.name.startswith("C") and not c.name.startswith("CORD") and not c.name.startswith("CON"):
            if c.i(0) in got:
                raise Violation("element-twice", "element %d twice" % c.i(0))
            got[c.i(0)] = c
    for e, (kind, nn, p) in elems.items():
        c = got.get(e)
        if c is None:
            raise Violation("element-missing", "%s %d is not in the Nastran file" % (kind, e))
        if c.name not in NAS_NAMES[kind]:
            raise Violation("element-type", "%s %d written as %s" % (kind, e, c.name))
        have = [c.i(2 + k) for k in range(len(nn))]
        if have != nn:
            raise Violation("element-nodes", "%s %d written with nodes %s instead of %s" % (kind, e, have, nn))
    if set(got) != set(elems):
        raise Violation("element-extra", "elements %s are of no card" % sorted(set(got) - set(elems)))
    # same property <=> same property
    m = {}
    for e, (kind, nn, p) in elems.items():
        if kind == "CTETRA":
            continue          # the default dialect gives these a material instead
        q = got[e].i(1)
        if m.setdefault(p, q) != q or q not in props:
            raise Violation("element-group", "elements of property %d are written with property %s" % (p, q))
    if len(set(m.values())) != len(m):
        raise Violation("element-group", "properties merged: %s" % m)


def run(ctx):
    ctx.rule = ("random meshes of 3-16 elements of 15 shapes with sparse or dense ids, shuffled cards, several "
                "properties and materials; each counts as non-trivial (>= 3 elements), distinct by shapes and ids")

    def one(to, chk):
        def f(rng, i):
            d, coords, elems = build(rng, to)
            out = Out(ctx, d.text(), to=to)
            try:
                chk(out, coords, elems)
            except Violation as v:
                raise out.tag(v)
            for e, (kind, nn, p) in elems.items():
                ctx.stat("%s %s%d" % (to, kind, len(nn)))
            ctx.seen((to, tuple(sorted((e, x[0], len(x[1]), x[2]) for e, x in elems.items()))))
            ctx.sample({"to": to, "elements": [[e, x[0], x[1], x[2]] for e, x in elems.items()][:4]})
        return f
    ctx.cases("aster", ctx.n(150), one("ASTER", check_aster))
    ctx.cases("systus", ctx.n(120), one("SYSTUS", check_systus))
    ctx.cases("nastran", ctx.n(90), one("NASTRAN", check_nastran))
