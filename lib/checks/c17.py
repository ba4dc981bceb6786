"""Springs, dampers, concentrated masses and direct matrices: the stiffness, damping and mass matrices the
discrete elements of the written study assemble are those the elements of the deck assemble."""
from fem import *  # noqa
from comm import lst
import os
import re
import studystate

LEVEL = "exploration"
DOF = ["DX", "DY", "DZ", "DRX", "DRY", "DRZ"]


class Mat(dict):
    """a symmetric matrix, keyed by ordered pairs of (node, component)"""

    def put(self, a, b, v):
        self[(a, b)] = self.get((a, b), 0.) + v
        if a != b:
            self[(b, a)] = self.get((b, a), 0.) + v

    def spring(self, a, b, v):
        """a scalar element between two freedoms; b None when grounded"""
        self.put(a, a, v)
        if b is not None:
            self.put(b, b, v)
            self.put(a, b, -v)


def skew(e):
    """du_q / dr_p of a point rigidly held at the offset e: u = t + r x e"""
    return [[0., e[2], -e[1]], [-e[2], 0., e[0]], [e[1], -e[0], 0.]]


def build(rng, to):
    aster = to == "ASTER"
    d = Deck("SOL 103" if rng.random() < .3 else "SOL 101")
    K, B, M = Mat(), Mat(), Mat()
    nid = ids(rng, 40)
    eids = ids(rng, 60, hi=5000)
    eid = iter(eids)
    # properties and elements have separate numberings
    pid = iter(rng.sample(sorted({x for x in eids if x > 1} | set(rng.sample(range(10, 900), 10))), 30))
    coords = {}
    shell, free = nid[:4], nid[4:4 + rng.randint(3, 9)]
    for n, c in zip(shell, ((0., 0., .2), (1., 0., .1), (1.1, 1., 0.), (0., 1., .05))):
        coords[n] = c
    for k, n in enumerate(free):
        coords[n] = (2.5 + 1.25 * k, dec(rng, -2, 2, 3), dec(rng, -2, 2, 3))
    for n in coords:
        d.add("GRID", n, None, *coords[n])
    d.add("MAT1", 1, 2.1e11, None, .3, 7800.)
    d.add("PSHELL", 1, 1, .01)
    d.add("CQUAD4", next(eid), 1, *shell)
    d.add("SPC1", 7, 123456, *shell[:2])
    nodes = list(free) + shell[2:]
    sp = []
    for k in range(rng.choice([0, 0, 2, 3]) if aster else 0):
        sp.append(nid[30 + k])
    if sp:
        d.add("SPOINT", *sp)
    wt = 1.
    if rng.random() < .4:
        wt = logdec(rng, .001, 2., 3)
        d.add("PARAM", "WTMASS", wt)
    kinds = []
    shared = {}

    def two(same=False, scal=False):
        a, b = rng.sample(nodes, 2)
        i = rng.randrange(6)
        j = i if same or rng.random() < .6 else rng.randrange(6)
        return (a, i), (b, j)

    def comp(f):
        return f[1] + 1

    def real(lo=1., hi=1e6):
        return logdec(rng, lo, hi, 4)

    for _ in range(rng.randint(1, 9)):
        k = rng.choice(["CELAS1", "CELAS2", "CDAMP1", "CBUSH", "CONM2", "CONM2", "CMASS2"] +
                       (["CONM1", "CELAS4"] if aster else ["CELAS2"]))
        if to == "NASTRAN" and k == "CMASS2":  # VEGA says that it does not write it
            k = "CONM1"
        if k == "CELAS4" and len(sp) < 2:
            k = "CELAS2"
        kinds.append(k)
        gnd = rng.random() < .25 and k in ("CELAS1", "CELAS2", "CDAMP1", "CMASS2", "CBUSH")
        a, b = two()
        if k in ("CELAS1", "CDAMP1"):
            prop = "PELAS" if k == "CELAS1" else "PDAMP"
            same = shared.setdefault(k, {})
            if same and rng.random() < .5:
                p = rng.choice(sorted(same))
            else:
                p = next(pid)
                same[p] = real()
            v = same[p]
            f = [next(eid), p, a[0], comp(a)]
            if gnd:
                f += rng.choice([[], [0, 0]])
            else:
                f += [b[0], comp(b)]
            d.add(k, *f)
            # the mode of a Systus scalar spring with different freedoms has no damping: reported by VEGA
            if k == "CDAMP1" and to == "SYSTUS":
                if gnd or a[1] == b[1]:
                    shared.setdefault("mute", []).append(1)
                else:
                    B.spring(a, b, v)
            else:
                (K if k == "CELAS1" else B).spring(a, None if gnd else b, v)
        elif k == "CELAS2":
            v = real()
            f = [next(eid), v, a[0], comp(a)]
            if gnd:
                f += rng.choice([[], [0, 0]])
            else:
                f += [b[0], comp(b)]
            d.add(k, *f)
            K.spring(a, None if gnd else b, v)
        elif k == "CELAS4":
            v = real()
            x, y = rng.sample(sp, 2)
            d.add(k, next(eid), v, x, y)
            K.spring((x, 0), (y, 0), v)
        elif k == "CBUSH":
            p = next(pid)
            ks = [real() if rng.random() < .7 else 0. for _ in range(6)]
            bs = [real(.1, 100.) if rng.random() < .5 else 0. for _ in range(6)]
            if not any(ks):
                ks[rng.randrange(6)] = 10.
            damp = rng.random() < .4 and to != "SYSTUS"
            f = [p, "K"] + [x if x else None for x in ks]
            if damp:
                f += [None, "B"] + [x if x else None for x in bs]
            d.add("PBUSH", *f)
            pairs = [(a[0], b[0])]
            if rng.random() < .4:
                x, y = rng.sample(nodes, 2)
                pairs.append((x, y))
            for i, (x, y) in enumerate(pairs):
                g = gnd and i == 0
                d.add("CBUSH", next(eid), p, x, None if g else y, None, None, None, 0)
                for q in range(6):
                    K.spring((x, q), None if g else (y, q), ks[q])
                    if damp:
                        B.spring((x, q), None if g else (y, q), bs[q])
        elif k == "CMASS2":
            v = real(.1, 50.)
            f = [next(eid), v, a[0], comp(a)]
            if gnd:
                f += rng.choice([[], [0, 0]])
            else:
                f += [b[0], comp(b)]
            d.add(k, *f)
            M.spring(a, None if gnd else b, v)
        elif k == "CONM1":
            f = [next(eid), a[0], None]
            full = rng.random() < .5
            for r in range(6):
                for c in range(r + 1):
                    v = real(.1, 10.) * rng.choice([1, 1, -1]) if full or rng.random() < (.5 if r == c else .2) else None
                    if v and r == c:
                        v = abs(v)
                    f.append(v)
                    if v:
                        M.put((a[0], r), (a[0], c), v)
            if not any(f[3:]):
                f[3] = 2.
                M.put((a[0], 0), (a[0], 0), 2.)
            d.add(k, *f)
        elif k == "CONM2":
            m = real(.1, 50.)
            f = [next(eid), a[0], None, m]
            off = [0., 0., 0.]
            i = {}
            if rng.random() < .6:
                if rng.random() < .5 and to != "SYSTUS":
                    off = [dec(rng, -1, 1, 3) for _ in range(3)]
                f += [x if x or rng.random() < .5 else None for x in off] + [None]
                for q, n in enumerate(((0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2))):
                    v = None
                    if n[0] == n[1] and rng.random() < .7:
                        v = real(.1, 20.)
                    elif n[0] != n[1] and rng.random() < .4 and to != "SYSTUS":
                        v = dec(rng, -2, 2, 3)
                    f.append(v)
                    if v:
                        i[n] = v
            d.add(k, *f)
            n = a[0]
            e = off
            for q in range(3):
                M.put((n, q), (n, q), m * wt)
            for (r, c), v in i.items():
                M.put((n, 3 + r), (n, 3 + c), (v if r == c else -v) * wt)
            # the mass is rigidly held at the offset: u = t + r x e
            sk = skew(e)
            for q in range(3):
                for p in range(3):
                    if sk[q][p]:
                        M.put((n, q), (n, 3 + p), m * wt * sk[q][p])
            for p in range(3):
                for p2 in range(p + 1):
                    v = sum(sk[q][p] * sk[q][p2] for q in range(3))
                    if v:
                        M.put((n, 3 + p), (n, 3 + p2), m * wt * v)
    for k in ("CELAS1", "CDAMP1"):
        if rng.random() < .1:
            shared.setdefault(k, {})[next(pid)] = real()    # a property nothing uses
    for name, p in shared.get("CELAS1", {}).items():
        d.add("PELAS", name, p)
    for name, p in shared.get("CDAMP1", {}).items():
        d.add("PDAMP", name, p)
    # direct matrices
    dm = []
    for w, mat in (("K2GG", K), ("M2GG", M), ("B2GG", B)):
        if rng.random() > .3 or (w == "B2GG" and not aster) or to == "NASTRAN":
            continue
        name = {"K2GG": "STIF", "M2GG": "MASSE", "B2GG": "AMOR"}[w] + str(rng.randint(1, 9))
        dm.append((w, name))
        kinds.append(w)
        d.add("DMIG", name, 0, 6, rng.choice([1, 2]), 0)
        on = rng.sample(nodes, rng.randint(1, min(4, len(nodes))))
        tr = rng.random() < .4
        fr = [(n, q) for n in on for q in (range(3) if tr else range(6))]
        cols = {}
        for x in range(len(fr)):
            for y in range(x, len(fr)):
                if rng.random() < (.7 if x == y else .12):
                    v = real(1., 1e5) * (1 if x == y else rng.choice([-1, 1]))
                    r, c = (fr[x], fr[y]) if rng.random() < .5 else (fr[y], fr[x])
                    cols.setdefault(c, []).append((r, v))
                    mat.put(fr[x], fr[y], v)
        for c, rows in cols.items():
            f = [name, c[0], c[1] + 1, None]
            for r, v in rows:
                f += [r[0], r[1] + 1, v, None]
            d.add("DMIG", *f)
    d.case = ["%s=%s" % x for x in dm]
    if d.exec[0] == "SOL 103":
        d.case += ["METHOD=5", "SPC=7"]
        d.add("EIGRL", 5, None, None, 3)
    else:
        d.case += ["SPC=7", "LOAD=8"]
        d.add("FORCE", 8, shell[3], None, 1., 0., 0., -1.)
    rng.shuffle(d.bulk)
    # the header of a direct matrix comes before its columns
    head = [c for c in d.bulk if c[0] == "DMIG" and c[1][1] == 0]
    d.bulk = head + [c for c in d.bulk if not (c[0] == "DMIG" and c[1][1] == 0)]
    st = Style.random(rng)
    st.trim = st.tabs = False
    try:
        text = d.text(st, rng)
    except ValueError:
        text = d.text(None, rng)
    info = dict(K=K, B=B, M=M, coords=coords, spc=shell[:2], shell=shell, sp=sp, kinds=kinds, wt=wt, shared=shared)
    return text, info


# ------------------------------------------------------------------ Code_Aster

def put(m, a, b, v):
    if a is not None and b is not None and v:
        m.put(a, b, v)


def rel(m, a, b, v):
    """one stiffness between two freedoms"""
    put(m, a, a, v)
    put(m, b, b, v)
    put(m, a, b, -v)


def mass_diag(m, fr, vals, rot, what):
    if len(vals) != (10 if rot else 1):
        raise Violation("discrete-size", "%s with %d values" % (what, len(vals)))
    for q in range(3):
        put(m, fr[q], fr[q], vals[0])
    if not rot:
        return
    mm, ixx, iyy, izz, ixy, iyz, ixz, ex, ey, ez = vals
    for (r, c), v in {(0, 0): ixx, (1, 1): iyy, (2, 2): izz, (1, 0): ixy, (2, 1): iyz, (2, 0): ixz}.items():
        put(m, fr[3 + r], fr[3 + c], v)
    sk = skew((ex, ey, ez))
    for q in range(3):
        for p in range(3):
            put(m, fr[q], fr[3 + p], mm * sk[q][p])
    for p in range(3):
        for p2 in range(p + 1):
            put(m, fr[3 + p], fr[3 + p2], mm * sum(sk[q][p] * sk[q][p2] for q in range(3)))


def full(m, fr, t, what):
    if len(t) != len(fr) * (len(fr) + 1) // 2:
        raise Violation("discrete-size", "%s with %d values" % (what, len(t)))
    k = 0
    for c in range(len(fr)):
        for r in range(c + 1):
            put(m, fr[r], fr[c], t[k])
            k += 1


def aster_matrices(out, name):
    """the matrices of every DISCRET entry, on the freedoms name(node, q) gives (None: no such freedom)"""
    mats = {"K": Mat(), "A": Mat(), "M": Mat()}
    num = 0
    seen = {}
    for groups, f in out.comm.cara("DISCRET"):
        what = f["CARA"]
        cara = what.split("_")
        kind, rot, diag = cara[0], cara[1] == "TR", cara[2] == "D"
        vals = [float(x) for x in lst(f["VALE"])]
        if f.get("SYME") == "NON":
            raise Violation("unsymmetric", "unsymmetric matrix from a symmetric deck: %s" % f)
        if f.get("REPERE", "GLOBAL") != "GLOBAL":
            raise Violation("frame", "DISCRET in a local frame from a deck in the basic one: %s" % f)
        nc = 6 if rot else 3
        for g in groups:
            cells = out.med.members(g)
            if cells is None:
                raise Violation("group-missing", "DISCRET on %s, which is not in the mesh" % g)
            for c in sorted(cells):
                cn = out.med.cells[c][1]
                if len(cn) != (2 if cara[-1] == "L" else 1):
                    raise Violation("discrete-shape", "%s on a cell of %d nodes" % (what, len(cn)))
                # a later entry for the same cell and kind of matrix replaces the former
                seen[(c, kind)] = (what, cn, nc, diag, rot, vals)
    for (c, kind), (what, cn, nc, diag, rot, vals) in seen.items():
        num += 1
        fr = [name(n, q) for n in cn for q in range(nc)]
        m = mats[kind]
        if not diag:
            full(m, fr, vals, what)
        elif kind == "M" and len(cn) == 1:
            mass_diag(m, fr, vals, rot, what)
        else:
            if len(vals) != nc:
                raise Violation("discrete-size", "%s with %d values" % (what, len(vals)))
            for q in range(nc):
                if len(cn) == 1:
                    put(m, fr[q], fr[q], vals[q])
                else:
                    rel(m, fr[q], fr[nc + q], vals[q])
    return mats, num


def used_charges(comm):
    """the charges an analysis mentions"""
    out = {}

    def walk(x):
        if hasattr(x, "cmd"):
            if x.cmd.startswith("AFFE_CHAR"):
                out[id(x)] = x
        elif isinstance(x, dict):
            for v in x.values():
                walk(v)
        elif isinstance(x, (list, tuple)):
            for v in x:
                walk(v)
    for c in comm.calls:
        if not c.cmd.startswith("AFFE_CHAR") and c.cmd != "DETRUIRE":
            walk(c.kw)
    return list(out.values())


def compare(what, want, have, tol=2e-5):
    for k in sorted(set(want) | set(have), key=repr):
        a, b = want.get(k, 0.), have.get(k, 0.)
        ref = max(abs(want.get((k[0], k[0]), 0.)), abs(want.get((k[1], k[1]), 0.)))
        if not close(a, b, tol, (1e-6 if tol < 1e-4 else tol) * ref + 1e-9):
            raise Violation("matrix-" + what, "%s term %s-%s is %.8g, the deck gives %.8g" %
                            ({"K": "stiffness", "B": "damping", "M": "mass"}[what], k[0], k[1], b, a))


def label_scalars(mats, unknown, want, sp):
    """scalar points have no place: name the nodes of the study after the elements on them"""
    def sig(m, n):
        return tuple(sorted("%.6g" % v for (a, b), v in m.items() if a[0] == n))
    a = sorted((sig(want, n), n) for n in sp)
    b = sorted((sig(mats, n), n) for n in unknown)
    return {y: x for (s, x), (t, y) in zip([q for q in a if q[0]], [q for q in b if q[0]])}


def check_aster(ctx, out, info):
    med = out.med
    mc = med_coords(med)
    origin = {n for n, c in mc.items() if c == (0., 0., 0.)}
    nm = NodeMap(info["coords"], {n: c for n, c in mc.items() if n not in origin})
    groups = med.nodegroups
    blocked = set()
    for c in used_charges(out.comm):
        for f in lst(c.kw.get("DDL_IMPO")):
            nn = [int(n[1:]) for n in lst(f.get("NOEUD"))]
            for g in lst(f.get("GROUP_NO")):
                nn += sorted(groups[g])
            for n in nn:
                for q, k in enumerate(DOF):
                    if k in f:
                        if f[k] != 0:
                            raise Violation("ground", "freedom %s of node %d is held at %s" % (k, n, f[k]))
                        blocked.add((n, q))
    held = {(nm.to_in[n], q) for n, q in blocked if n in nm.to_in}

    def name(n, q):
        if n in origin:
            if (n, q) in blocked and q < 6:
                return None
            return (("origin", n), q)
        return (nm.to_in[n], q)
    mats, num = aster_matrices(out, name)
    lab = label_scalars(mats["K"], [("origin", n) for n in origin], info["K"], info["sp"])
    # a scalar point has one freedom
    mats["K"] = Mat({tuple((lab.get(x[0], x[0]), x[1]) for x in k): v for k, v in mats["K"].items()})
    for w, a in (("K", "K"), ("B", "A"), ("M", "M")):
        compare(w, info[w], mats[a])
    spc = {(n, q) for n in info["spc"] for q in range(6)}
    live = {a for w in "KBM" for (a, b), v in info[w].items() if v}
    shell = {(n, q) for n in info["shell"] for q in range(6)}
    for f in sorted(held - spc):
        if f in live or f in shell:
            raise Violation("blocked", "freedom %s of node %d is held and the deck does not hold it" % (DOF[f[1]], f[0]))
    if spc - held:
        raise Violation("spc", "freedoms %s of the SPC set are free" % sorted(spc - held)[:4])
    return num


# ------------------------------------------------------------------ Systus

KX = [31, 32, 33, 14, 15, 16]
TABLE = 26
MATRIX = 5


class Files:
    """the matrix files of a Systus study, found as its command file assigns them"""

    def __init__(self, out):
        self.out, self.read = out, {}

    def matrix(self, acc, num):
        if acc not in self.read:
            m = re.findall(r"^ASSIGN\s+%d\s+(\S+)\.TIT\s+BINARY" % acc, self.out.r.text("_SC1.DAT") or "", re.M)
            made = dict(x[::-1] for x in re.findall(r"^!filematrix\s+ASC2BIN\s+(\S+)\s+(\S+)", self.out.r.text("_SC1.DAT") or "", re.M))
            if len(m) != 1 or m[0] + ".TIT" not in made or made[m[0] + ".TIT"] not in self.out.r.files():
                raise Violation("matrix-file", "access %d: assigned %s, converted %s, written %s" % (acc, m, made, self.out.r.files()))
            v = {}
            with open(os.path.join(self.out.r.outdir, made[m[0] + ".TIT"])) as f:
                self.read[acc] = (studystate.matrices(f.read(), v), v)
        n, v = self.read[acc]
        if num not in n:
            raise Violation("matrix-file", "matrix %d of access %d, which has %s" % (num, acc, sorted(n)))
        return n[num], v[num]


def systus_matrices(ctx, out, a, grounded):
    files = Files(out)
    mats = {"K": Mat(), "A": Mat(), "M": Mat()}
    num = 0
    tables = {}
    for l in a.sections.get("TABLES", []):
        t = l.split()
        if t[1] != "STANDARD" or int(t[0]) in tables or len(t) % 2:
            raise Violation("table", "table line %r" % l)
        tables[int(t[0])] = list(zip([int(x) for x in t[2::2]], [float(x) for x in t[3::2]]))

    def fr(n, q):
        return None if n in grounded else (n, q)
    for e, d in a.elements.items():
        if d["nature"] not in (6, 9):
            continue
        num += 1
        nn = a.element_nodes(e)
        mat = a.materials[int(d["rest"][0])]
        if d["nature"] == 6:
            if len(nn) != 2:
                raise Violation("discrete-shape", "spring on %d nodes" % len(nn))
            for q, k in enumerate(KX):
                if mat.get(k):
                    rel(mats["K"], fr(nn[0], q), fr(nn[1], q), mat[k])
            continue
        code = int(mat.get(TABLE, 0))
        if code < 0:
            code = -code
            for which, t in (("K", code % 100), ("M", code // 100 % 100), ("A", code // 10000)):
                if t:
                    n, m = files.matrix(t, int(mat.get(MATRIX, 0)))
                    ctx.stat("matrices read from files")
                    nd = n[1]
                    if n[0] != len(nn):
                        raise Violation("matrix-file", "element %d of %d nodes, matrix of %d" % (e, len(nn), n[0]))
                    for (r, c), v in m.items():
                        if v and r <= c:
                            put(mats[which], fr(nn[r // nd], r % nd), fr(nn[c // nd], c % nd), v)
            continue
        for which, t in (("K", code % 100), ("M", code // 100 % 100), ("A", code // 10000)):
            if not t:
                continue
            if t not in tables:
                raise Violation("table", "element %d refers to table %d" % (e, t))
            for c, v in tables[t]:
                i, j, di, dj = c // 1000, c // 100 % 10, c // 10 % 10, c % 10
                if not (1 <= i <= len(nn) and 1 <= j <= len(nn) and 1 <= di <= 6 and 1 <= dj <= 6):
                    raise Violation("table", "code %d in the table of element %d" % (c, e))
                x, y = fr(nn[i - 1], di - 1), fr(nn[j - 1], dj - 1)
                put(mats[which], x, y, v)
    for t in a.masses:
        if t[0] != "VALUES":
            raise Violation("masses", "line %s" % t)
        k = int(t[1])
        v = [float(x) for x in t[2:2 + k]]
        for n in t[2 + k:]:
            num += 1
            for q in range(k):
                put(mats["M"], (int(n), q), (int(n), q), v[q])
    return mats, num


def check_systus(ctx, out, info):
    a = out.asc(1)
    ground = {}
    for n, d in a.nodes.items():
        if n not in info["coords"]:
            if d["iconst"] != 63:
                raise Violation("ground", "node %d, added by the translation, is free (code %d)" % (n, d["iconst"]))
            ground[n] = 1
    for n in info["coords"]:
        want = 63 if n in info["spc"] else 0
        if a.nodes[n]["iconst"] & ~want:
            live = {y for w in "KBM" for (x, _), v in info[w].items() if v and x[0] == n for y in [x[1]]}
            if n in info["shell"]:
                live = set(range(6))
            bad = [q for q in range(6) if a.nodes[n]["iconst"] & ~want & 1 << q and q in live]
            if bad:
                raise Violation("blocked", "node %d is held along %s and the deck does not hold it" % (n, bad))
        if want & ~a.nodes[n]["iconst"]:
            raise Violation("spc", "node %d of the SPC set has code %d" % (n, a.nodes[n]["iconst"]))
    mats, num = systus_matrices(ctx, out, a, ground)
    for w, k in (("K", "K"), ("B", "A"), ("M", "M")):
        compare(w, info[w], mats[k])
    return num


# ------------------------------------------------------------------ Nastran

def check_nastran(ctx, out, info):
    b = out.nas
    ground = set()
    for c in b.of("GRID"):
        n = c.i(0)
        if n not in info["coords"]:
            if sorted(c.get(6)) != list("123456"):
                raise Violation("ground", "node %d, added by the translation, is free: %s" % (n, c))
            ground.add(n)
        elif c.get(6):
            bad = [q for q in c.get(6) if any(v for w in "KBM" for (x, _), v in info[w].items() if x == (n, int(q) - 1))]
            if bad:
                raise Violation("blocked", "node %d is held along %s and the deck does not hold it" % (n, bad))
    mats = {w: Mat() for w in "KBM"}
    num = 0

    def fr(c, k):
        n = c.i(k)
        if n in ground or not n:
            return None
        if n not in info["coords"]:
            raise Violation("unknown-node", "%s" % c)
        return (n, c.i(k + 1) - 1)
    props = {c.i(0): c for c in b.of("PBUSH", "PELAS", "PDAMP")}
    for c in b.cards:
        if c.name in ("CELAS1", "CDAMP1"):
            rel(mats["K" if c.name == "CELAS1" else "B"], fr(c, 2), fr(c, 4), props[c.i(1)].r(1))
        elif c.name in ("CELAS2", "CDAMP2", "CMASS2"):
            rel(mats[{"E": "K", "D": "B", "M": "M"}[c.name[1]]], fr(c, 2), fr(c, 4), c.r(1))
        elif c.name == "CBUSH":
            if c.get(7) == "" or c.i(7) != 0:
                raise Violation("frame", "%s does not act in the basic frame" % c)
            f, k = props[c.i(1)], 1
            while k < len(f.f):
                if f.get(k) in ("K", "B"):
                    for q in range(6):
                        x, y = [(n, q) if n not in ground and n else None for n in (c.i(2), c.i(3))]
                        rel(mats[f.get(k)], x, y, f.r(k + 1 + q, 0.))
                elif f.get(k):
                    raise Violation("bush", "%s" % f)
                k += 8
        elif c.name == "CONM1":
            if c.i(2, 0) != 0:
                raise Violation("frame", "%s" % c)
            k = 3
            for r in range(6):
                for q in range(r + 1):
                    v = c.r(k, 0.)
                    k += 1
                    if v:
                        mats["M"].put((c.i(1), r), (c.i(1), q), v)
        elif c.name == "CONM2":
            if c.i(2, 0) != 0:
                raise Violation("frame", "%s" % c)
            n, ix = c.i(1), [c.r(k, 0.) for k in range(8, 14)]
            mass_diag(mats["M"], [(n, q) for q in range(6)],
                      [c.r(3), ix[0], ix[2], ix[5], -ix[1], -ix[4], -ix[3]] + [c.r(k, 0.) for k in (4, 5, 6)], True, "%s" % c)
        else:
            continue
        num += 1
    for w in "KBM":
        compare(w, info[w], mats[w], tol=1e-3)  # numbers of 8 characters
    return num


def run(ctx):
    ctx.rule = ("a shell and 3-9 free nodes carrying 1-9 random CELAS1/2/4, CDAMP1, CBUSH, CONM1/2, CMASS2 (shared "
                "properties, grounded ends, offsets, WTMASS) and K2GG/M2GG/B2GG matrices; non-trivial: at least two kinds")

    def one(to, chk, opts=()):
        def f(rng, i):
            text, info = build(rng, to)
            out = Out(ctx, text, to=to, fmt="NASTRAN", opts=list(opts))
            try:
                num = chk(ctx, out, info)
            except Violation as v:
                raise out.tag(v)
            for k in info["kinds"]:
                ctx.stat("%s %s" % (to, k))
            ctx.stat("discrete elements observed", num)
            ctx.stat("matrix terms compared", sum(len(info[w]) for w in "KBM"))
            ctx.seen((to, tuple(sorted(info["kinds"]))) if len(set(info["kinds"])) > 1 else None)
            ctx.sample({"to": to, "kinds": info["kinds"]})
        return f
    def structural(rng, i):
        """the structural damping coefficient of a spring is no dashpot: only the stiffness may appear, or AMOR_HYST"""
        d = Deck("SOL 101")
        n = ids(rng, 4)
        v, ge = logdec(rng, 1., 1e6, 4), dec(rng, .01, .2, 2) or .05
        for k, g in enumerate(n):
            d.add("GRID", g, None, 1. * k, dec(rng, -1, 1, 2), 0.)
        q = rng.randrange(6)
        if rng.random() < .5:
            d.add("CELAS2", 11, v, n[0], q + 1, n[1], q + 1, ge)
        else:
            d.add("CELAS1", 11, 12, n[0], q + 1, n[1], q + 1)
            d.add("PELAS", 12, v, ge)
        d.add("MAT1", 1, 1e10, None, .3, 7800.)
        d.add("CROD", 13, 14, n[2], n[3])
        d.add("PROD", 14, 1, .01)
        d.add("SPC1", 7, 123456, *n[2:])
        d.add("FORCE", 8, n[0], None, 1., 1., 0., 0.)
        d.case = ["SPC=7", "LOAD=8"]
        out = Out(ctx, d.text(None, rng), to="ASTER", fmt="NASTRAN")
        nm = NodeMap({x: (1. * k, 0, 0) for k, x in enumerate(n)}, {m: (c[0], 0, 0) for m, c in med_coords(out.med).items()})
        try:
            mats, num = aster_matrices(out, lambda m, c: (nm.to_in[m], c))
            K = Mat()
            K.spring((n[0], q), (n[1], q), v)
            compare("K", K, mats["K"])
            if any(abs(x) for x in mats["A"].values()):
                raise Violation("ge-as-viscous", "the structural damping %g of a spring is written as a dashpot" % ge)
        except Violation as x:
            raise out.tag(x)
        ctx.stat("springs with structural damping")

    ctx.cases("structural", ctx.n(4), structural)
    ctx.cases("aster", ctx.n(300), one("ASTER", check_aster))
    ctx.cases("systus", ctx.n(150), one("SYSTUS", check_systus))
    ctx.cases("systus-files", ctx.n(120), one("SYSTUS", check_systus, ("--systus.OutputMatrix=file",)))
    ctx.cases("nastran", ctx.n(150), one("NASTRAN", check_nastran))
