"""Material and section values: every element of the input has, in the output, the stiffness, mass and
section values of its own property and material (through defaults, derived values and catalogue sections)."""
import math

from fem import *  # noqa

LEVEL = "exploration"
PI = math.pi


def scale(rng):
    return rng.choice([1., 1., .01, 100.])


def material(rng, d, mid, to):
    """-> dict(E, NU, G, RHO, GE)"""
    rho = rng.choice([None, 7800., 2.7e-9, dec(rng, .1, 9000., 4)])
    ge = rng.choice([None, None, .02, .005])
    e = logdec(rng, 1e3, 4e11)
    mode = rng.randrange(5)
    tail = [None, None, ge]
    if rng.random() < .3:
        tail = [dec(rng, 1e-6, 2e-5, 3), dec(rng, 10., 30., 3), ge]
    if mode == 0:
        nu = dec(rng, 0.05, .45, 3)
        d.add("MAT1", mid, e, None, nu, rho, *tail)
    elif mode == 1:
        nu0 = dec(rng, 0.05, .45, 3)
        g = float("%.4g" % (e / (2 * (1 + nu0))))
        nu = e / (2 * g) - 1
        d.add("MAT1", mid, e, g, None, rho, *tail)
    elif mode == 2:
        nu = dec(rng, 0.05, .45, 3)
        g = e
        e = 2 * (1 + nu) * g
        d.add("MAT1", mid, None, g, nu, rho, *tail)
    elif mode == 3:
        nu = 0.25
        g = e / 2.5
        d.add("MAT1", mid, e, float("%.5g" % g), nu, rho, *tail)
    else:
        nu = 0.
        d.add("MAT1", mid, e, None, None, rho, *tail)
    return dict(E=e, NU=nu, RHO=rho or 0., GE=ge, G=None if mode == 4 else e / (2 * (1 + nu)))


def rect_j(a, b):
    a, b = max(a, b), min(a, b)
    return a * b ** 3 * (1 / 3. - .21 * b / a * (1 - b ** 4 / (12 * a ** 4)))


def section(rng, kind, d, pid, mid, to):
    """adds the property, -> dict of canonical values"""
    s = scale(rng)
    nsm = rng.choice([0., 0., 0., dec(rng, .1, 30., 3), 2e-9]) if rng.random() < .6 else 0.
    nf = nsm or rng.choice([None, 0.])
    if kind == "PBAR":
        a, i1, i2, j = (dec(rng, .1, 9, 3) * s ** 2, dec(rng, .1, 9, 3) * s ** 4, dec(rng, .1, 9, 3) * s ** 4,
                        dec(rng, .1, 9, 3) * s ** 4)
        a, i1, i2, j = (float("%.4g" % x) for x in (a, i1, i2, j))
        k1 = rng.choice([None, None, dec(rng, .3, 1., 3)])
        k2 = rng.choice([None, k1, dec(rng, .3, 1., 3)])
        f = [pid, mid, a, i1, i2, j, nf]
        if k1 or k2 or rng.random() < .3:
            f += [None] + [rng.choice([None, dec(rng, -1, 1, 3)]) for _ in range(8)] + [k1, k2]
        d.add("PBAR", *f)
        return dict(A=a, IZ=i1, IY=i2, J=j, AY=1 / k1 if k1 else 0., AZ=1 / k2 if k2 else 0., nsm=nsm, kind="beam")
    if kind in ("PBARL", "PBEAML"):
        t = rng.choice(["BAR", "ROD", "TUBE", "I"])
        if t == "BAR":
            w, h = float("%.4g" % (dec(rng, .2, 3, 3) * s)), float("%.4g" % (dec(rng, .2, 3, 3) * s))
            dims = [w, h]
            r = dict(A=w * h, IY=h * w ** 3 / 12, IZ=w * h ** 3 / 12, J=rect_j(w, h), HY=h, HZ=w)
        elif t == "ROD":
            q = float("%.4g" % (dec(rng, .1, 2, 3) * s))
            dims = [q]
            r = dict(A=PI * q * q, IY=PI * q ** 4 / 4, IZ=PI * q ** 4 / 4, J=PI * q ** 4 / 2)
        elif t == "TUBE":
            q = float("%.4g" % (dec(rng, .5, 2, 3) * s))
            p = float("%.4g" % (q * rng.uniform(.2, .95)))
            dims = [q, p]
            r = dict(A=PI * (q * q - p * p), IY=PI * (q ** 4 - p ** 4) / 4, IZ=PI * (q ** 4 - p ** 4) / 4,
                     J=PI * (q ** 4 - p ** 4) / 2)
        else:
            H, b = float("%.4g" % (dec(rng, .8, 3, 3) * s)), float("%.4g" % (dec(rng, .4, 2, 3) * s))
            tw, tf = float("%.3g" % (.05 * s * rng.uniform(.5, 2))), float("%.3g" % (.06 * s * rng.uniform(.5, 2)))
            dims = [H, b, b, tw, tf, tf]
            hw = H - 2 * tf
            r = dict(A=hw * tw + 2 * b * tf, IZ=(b * H ** 3 - (b - tw) * hw ** 3) / 12,
                     IY=(2 * tf * b ** 3 + hw * tw ** 3) / 12, J=(2 * b * tf ** 3 + hw * tw ** 3) / 3)
        d.add(kind, pid, mid, rng.choice([None, "MSCBML0"]), t, None, None, None, None, *(dims + [nf]))
        r.update(nsm=nsm, kind="beam", shape=t)
        return r
    if kind == "PBEAM":
        a, i1, i2, j = (float("%.4g" % (dec(rng, .1, 9, 3) * s ** k)) for k in (2, 4, 4, 4))
        d.add("PBEAM", pid, mid, a, i1, i2, None, j, nf)
        return dict(A=a, IZ=i1, IY=i2, J=j, nsm=nsm, kind="beam")
    if kind == "PROD":
        a = float("%.4g" % (dec(rng, .1, 9, 3) * s ** 2))
        j = rng.choice([None, dec(rng, .1, 2, 3)])
        d.add("PROD", pid, mid, a, j, *([None, nsm] if nsm else []))
        return dict(A=a, J=j or 0., nsm=nsm, kind="truss")
    if kind == "PSHELL":
        t = float("%.4g" % (dec(rng, .01, 2, 3) * s))
        d.add("PSHELL", pid, mid, t, rng.choice([mid, mid, None]) if to == "ASTER" else mid, None, None, None, nf)
        return dict(T=t, nsm=nsm, kind="shell")
    if kind == "PSOLID":
        d.add("PSOLID", pid, mid)
        return dict(nsm=0., kind="solid")
    raise KeyError(kind)


def composite(rng, d, pid, mids, isos):
    n = rng.randint(1, 5)
    sym = rng.random() < .4
    z0 = None
    plies, f = [], []
    last = (None, None)
    for k in range(n):
        m = rng.choice(mids)
        t = dec(rng, .05, .5, 3)
        th = float(rng.choice([0, 45, -45, 90, 30, -15, 60]))
        row = [m, t, th, rng.choice([None, "YES", "NO"])]
        if k and rng.random() < .4:
            row[0], m = None, last[0]
        if k and rng.random() < .4:
            row[1], t = None, last[1]
        if rng.random() < .3:
            row[2], th = None, 0.
        if row == [None] * 4:
            row[3] = "YES"
        last = (m, t)
        plies.append((m, t, th))
        f += row
    if sym:
        full = plies + plies[::-1]
    else:
        full = plies
    tt = sum(p[1] for p in full)
    off = 0.
    if rng.random() < .5:
        z0 = dec(rng, -2, 1, 3)
        off = z0 + tt / 2
    ft, sb = rng.choice([(None, None), ("TSAI", 20.), ("HILL", 15.)])
    d.add("PCOMP", pid, z0, None, sb, ft, None, None, "SYM" if sym else None, *f)
    return dict(plies=full, T=tt, off=off, nsm=0., kind="composite", ft=ft)


SHELLS = [("CQUAD4", 0), ("CTRIA3", 0), ("CQUAD8", 1), ("CTRIA6", 1)]
SOLIDS = [("CHEXA", 0), ("CTETRA", 0), ("CPENTA", 0), ("CHEXA", 1), ("CTETRA", 1)]


def build(rng, to, hetero=True):
    d = Deck()
    d.case = ["SPC=1", "LOAD=2"]
    wt = 1.
    if rng.random() < .3:
        wt = rng.choice([.002588, .5, 1e-3])
        d.add("PARAM", "WTMASS", wt)
    mids = ids(rng, rng.randint(1, 3), hi=400)
    mats = {m: material(rng, d, m, to) for m in mids}
    orths = {}
    kinds = ["PBAR", "PBARL", "PROD", "PSHELL", "PSOLID", "CONROD"]
    if to != "NASTRAN":
        kinds += ["PBEAM", "PBEAML"]
    if to == "ASTER":
        kinds += ["PCOMP", "PCOMP"]
    kinds = rng.sample(kinds, rng.randint(1, min(4, len(kinds))))
    pid = iter(ids(rng, 60, hi=900))
    props = []
    for k in kinds:
        for _ in range(rng.choice([1, 1, 2, 3])):
            if k == "CONROD":
                props.append((k, None, None, None))
            elif k == "PCOMP":
                if not orths:
                    for m in (901, 902):
                        o = dict(E1=logdec(rng, 1e4, 1e11), E2=logdec(rng, 1e3, 1e10), NU=dec(rng, .05, .4, 3),
                                 G=logdec(rng, 1e3, 1e10), G1Z=None, G2Z=None, RHO=rng.choice([None, 1500.]))
                        st = [None] * 5
                        if rng.random() < .6:
                            o["G1Z"], o["G2Z"] = logdec(rng, 1e3, 1e10), logdec(rng, 1e3, 1e10)
                        if rng.random() < .5:
                            st = [dec(rng, 10, 999, 3) for _ in range(5)]
                        o["ST"] = list(st)
                        for a in (0, 2):    # the compressive strengths default to the tensile ones
                            if st[a] and rng.random() < .2:
                                st[a + 1], o["ST"][a + 1] = None, st[a]
                        d.add("MAT8", m, o["E1"], o["E2"], o["NU"], o["G"], o["G1Z"], o["G2Z"], o["RHO"],
                              None, None, None, *st)
                        orths[m] = o
                p = next(pid)
                props.append((k, p, None, composite(rng, d, p, list(orths) + mids[:1], mats)))
            else:
                p, m = next(pid), rng.choice(mids)
                props.append((k, p, m, section(rng, k, d, p, m, to)))
    n_el = rng.randint(len(props), len(props) + 6)
    eid = iter(ids(rng, n_el + 40, hi=5000))
    nid = iter(ids(rng, 22 * n_el + 50))
    coords, elems = {}, {}
    for k in range(n_el):
        kind, p, m, s = props[k] if k < len(props) else rng.choice(props)
        e = next(eid)
        off = 0.
        if kind in ("PSHELL", "PCOMP"):
            sh, quad = rng.choice(SHELLS if kind == "PSHELL" else SHELLS[:2])
            pts = solid_nodes(sh, quad, (5. * k, .25, .5), 2., rng)
        elif kind == "PSOLID":
            sh, quad = rng.choice(SOLIDS)
            pts = solid_nodes(sh, quad, (5. * k, .25, .5), 2., rng)
        else:
            sh = {"PBEAM": "CBEAM", "PBEAML": "CBEAM", "PROD": "CROD", "CONROD": "CONROD"}.get(kind, "CBAR")
            pts = [(5. * k, 9., .5), (round(5. * k + rng.uniform(.5, 1), 3), round(9 + rng.uniform(-.3, .3), 3), .9)]
        nn = [next(nid) for _ in pts]
        for n, c in zip(nn, pts):
            coords[n] = tuple(c)
            d.add("GRID", n, None, *[float(x) for x in c])
        if kind == "CONROD":
            m = rng.choice(mids)
            a, j = dec(rng, .1, 3., 3), rng.choice([None, dec(rng, .1, 2, 3)])
            nsm = rng.choice([None, None, dec(rng, .1, 5, 3)])
            d.add("CONROD", e, nn[0], nn[1], m, a, j, *([None, nsm] if nsm else []))
            s = dict(A=a, J=j or 0., nsm=nsm or 0., kind="truss")
        elif sh in ("CBAR", "CBEAM"):
            v = [.1, .2, 1.] if rng.random() < .7 else [1., .5, float(rng.randint(-1, 1))]
            d.add(sh, e, p, *nn, *v)
        elif sh == "CROD":
            d.add(sh, e, p, *nn)
        else:
            zoff = None
            if kind in ("PSHELL", "PCOMP") and rng.random() < .35 and to != "SYSTUS":
                zoff = rng.choice([.1, .2, .5, -.5, 1.5, -1.5, dec(rng, -.9, .9, 2) or .3])
            tail = []
            if zoff is not None:
                off = zoff
                tail = {"CQUAD4": [None, zoff], "CTRIA3": [None, zoff], "CQUAD8": [None] * 5 + [zoff],
                        "CTRIA6": [None, zoff]}[sh]
            d.add(sh, e, p, *nn, *tail)
        elems[e] = dict(kind=sh, nodes=tuple(nn), mat=m, sec=s, off=off, pid=p)
    first = next(iter(coords))
    d.add("SPC1", 1, 123456, first)
    d.add("FORCE", 2, rng.choice(list(coords)), None, 3., 1., 0., 0.)
    rng.shuffle(d.bulk)
    return d, coords, elems, mats, orths, wt


def near(a, b, rel=1e-9):
    return abs(a - b) <= rel * max(abs(a), abs(b)) + 1e-300


def need(what, e, x, got, want, rel=1e-9):
    if got is None or not near(float(got), want, rel):
        raise Violation(what, "%s %d (property %s): %s is %s instead of %.9g" % (x["kind"], e, x["pid"], what, got, want))


# ------------------------------------------------------------------ Aster

def beam_values(f):
    sec = f["SECTION"]
    cara = f["CARA"] if isinstance(f["CARA"], (tuple, list)) else (f["CARA"],)
    vale = f["VALE"] if isinstance(f["VALE"], (tuple, list)) else (f["VALE"],)
    if len(cara) != len(vale):
        raise Violation("section-arity", "%s has %d values" % (cara, len(vale)))
    v = dict(zip(cara, vale))
    if sec == "GENERALE":
        return dict(A=v["A"], IY=v.get("IY"), IZ=v.get("IZ"), J=v.get("JX"), AY=v.get("AY"), AZ=v.get("AZ"))
    if sec == "RECTANGLE":
        a, b = v["HY"], v["HZ"]
        return dict(A=a * b, IY=a * b ** 3 / 12, IZ=b * a ** 3 / 12, J=None, HY=a, HZ=b)
    if sec == "CERCLE":
        r = v["R"]
        q = r - v["EP"] if "EP" in v else 0.
        return dict(A=PI * (r * r - q * q), IY=PI * (r ** 4 - q ** 4) / 4, IZ=PI * (r ** 4 - q ** 4) / 4, J=None)
    raise Violation("section-kind", sec)


def check_aster(out, coords, elems, mats, orths, wt):
    med, comm = out.med, out.comm
    nm = NodeMap(coords, med_coords(med))
    cells = {}
    for k, (num, conn, fam) in med.cells.items():
        if k[0] != "POINT1":
            cells.setdefault(frozenset(nm.to_in[c] for c in conn), []).append(k)

    def per_cell(entries):
        r = {}
        for groups, val in entries:
            for g in groups:
                mm = med.members(g)
                if mm is None:
                    raise Violation("group-missing", "%s is used and not in the mesh" % g)
                for c in mm:
                    r[c] = val
        return r
    import comm as cm
    ents = []
    for c in comm.all("AFFE_MATERIAU"):
        for f in cm.lst(c.kw.get("AFFE")):
            ents.append((cm.lst(f.get("GROUP_MA")) + cm.lst(f.get("MAILLE")), f.get("MATER")))
    mat = per_cell(ents)
    poutre = per_cell(comm.cara("POUTRE"))
    barre = per_cell(comm.cara("BARRE"))
    coque = per_cell(comm.cara("COQUE"))
    modl = per_cell([([g], m) for g, m in comm.modelisation().items()])
    for e, x in elems.items():
        s = x["sec"]
        mine = cells.get(frozenset(x["nodes"]), [])
        stiff, light = [], []
        for c in mine:
            m = mat.get(c)
            if m is None:
                raise Violation("no-material", "a cell of %s %d has no material" % (x["kind"], e))
            if "ELAS" in m.kw and m.kw["ELAS"]["E"] == 0:
                light.append(c)
            else:
                stiff.append(c)
        if len(stiff) != 1:
            raise Violation("stiffness-count", "%s %d has %d cells with stiffness and %d without" %
                            (x["kind"], e, len(stiff), len(light)))
        c = stiff[0]
        md = str(modl.get(c))
        kd = s["kind"]
        if not {"beam": "POU_D" in md, "truss": "BARRE" in md, "solid": "3D" in md and "COQUE" not in md,
                "shell": "DK" in md or "DS" in md or "COQUE" in md or "Q4G" in md,
                "composite": "DK" in md or "DS" in md or "COQUE" in md or "Q4G" in md}[kd]:
            raise Violation("modelisation", "%s %d is modelled by %s" % (x["kind"], e, md))
        m = mat[c]
        if kd != "composite":
            w = mats[x["mat"]]
            el = m.kw.get("ELAS")
            if el is None:
                raise Violation("no-elasticity", "%s %d has the material %s" % (x["kind"], e, m))
            need("E", e, x, el["E"], w["E"])
            if abs(el["NU"] - w["NU"]) > 1e-9:
                raise Violation("NU", "%s %d: %s instead of %s" % (x["kind"], e, el["NU"], w["NU"]))
            need("RHO", e, x, el["RHO"], w["RHO"] * wt)
            if w["GE"] is None:
                if el.get("AMOR_HYST", 0) != 0:
                    raise Violation("GE", "%s %d: damping %s from nowhere" % (x["kind"], e, el["AMOR_HYST"]))
            else:
                need("GE", e, x, el.get("AMOR_HYST"), w["GE"])
        else:
            check_plies(m, e, x, mats, orths, wt)
        for c in mine:
            dup = c in light
            if kd in ("shell", "composite"):
                q = coque.get(c)
                if q is None:
                    raise Violation("no-section", "%s %d has no COQUE" % (x["kind"], e))
                need("thickness", e, x, q["EPAIS"], s["T"])
                want = x["off"] + s.get("off", 0.)
                ex = q.get("EXCENTREMENT", 0.)
                if not dup and abs(ex - want) > 1e-9 * max(1, abs(want)):
                    raise Violation("offset", "%s %d: EXCENTREMENT %s instead of %s" % (x["kind"], e, ex, want))
                if kd == "composite" and q.get("COQUE_NCOU") != len(s["plies"]):
                    raise Violation("plies", "%s %d: COQUE_NCOU %s" % (x["kind"], e, q.get("COQUE_NCOU")))
            elif kd == "truss":
                q = barre.get(c)
                if q is None:
                    raise Violation("no-section", "%s %d has no BARRE" % (x["kind"], e))
                need("A", e, x, beam_values(q)["A"], s["A"])
            elif kd == "beam":
                q = poutre.get(c)
                if q is None:
                    raise Violation("no-section", "%s %d has no POUTRE" % (x["kind"], e))
                v = beam_values(q)
                for k in ("A", "IY", "IZ", "HY", "HZ"):
                    if k in s:
                        need(k, e, x, v[k] if k in v else None, s[k])
                if v.get("J") is not None:
                    need("J", e, x, v["J"], s["J"])
                if "AY" in s:
                    need("AY", e, x, v["AY"], s["AY"])
                    need("AZ", e, x, v["AZ"], s["AZ"])
        extra = sum(mat[c].kw["ELAS"]["RHO"] for c in light)
        size = s.get("T") if kd in ("shell", "composite") else s.get("A", 1.)
        need("NSM", e, x, extra * size, s["nsm"] * wt)
        if len(light) > 1:
            raise Violation("NSM-count", "%s %d has %d cells for its added mass" % (x["kind"], e, len(light)))
    known = {frozenset(x["nodes"]) for x in elems.values()}
    for k in cells:
        if k not in known:
            raise Violation("element-extra", "a cell on nodes %s" % sorted(k))


def check_plies(m, e, x, mats, orths, wt):
    if m.cmd != "DEFI_COMPOSITE":
        raise Violation("plies", "%s %d has the material %s" % (x["kind"], e, m))
    lay = m.kw["COUCHE"]
    lay = list(lay) if isinstance(lay, (tuple, list)) else [lay]
    want = x["sec"]["plies"]
    if len(lay) != len(want):
        raise Violation("plies", "%s %d: %d plies instead of %d" % (x["kind"], e, len(lay), len(want)))
    for k, (l, (mid, t, th)) in enumerate(zip(lay, want)):
        if not near(l["EPAIS"], t) or abs(l["ORIENTATION"] - th) > 1e-9:
            raise Violation("ply", "%s %d ply %d: %s, %s instead of %s, %s" % (x["kind"], e, k + 1, l["EPAIS"],
                                                                               l["ORIENTATION"], t, th))
        o = l["MATER"].kw.get("ELAS_ORTH")
        if o is None:
            raise Violation("ply-material", "%s %d ply %d: %s" % (x["kind"], e, k + 1, l["MATER"].kw))
        if mid in orths:
            w = orths[mid]
            wv = dict(E_L=w["E1"], E_T=w["E2"], NU_LT=w["NU"], G_LT=w["G"], RHO=(w["RHO"] or 0.) * wt)
            if w["G1Z"]:
                wv.update(G_LN=w["G1Z"], G_TN=w["G2Z"])
            for name, v in zip(("XT", "XC", "YT", "YC", "S_LT"), w["ST"]):
                if v is not None:
                    wv[name] = v
        else:
            w = mats[mid]
            wv = dict(E_L=w["E"], E_T=w["E"], NU_LT=w["NU"], RHO=w["RHO"] * wt)
            if w["G"]:
                wv["G_LT"] = w["G"]
        for name, v in wv.items():
            if name not in o or not (near(o[name], v, 1e-4 if name == "G_LT" and mid not in orths else 1e-9)
                                     or abs(o[name] - v) < 1e-9 and name == "NU_LT"):
                raise Violation("ply-" + name, "%s %d ply %d (material %d): %s instead of %s" %
                                (x["kind"], e, k + 1, mid, o.get(name), v))
        for name in ("XT", "XC", "YT", "YC", "S_LT"):
            if name in o and name not in wv:
                raise Violation("ply-" + name, "%s %d ply %d: %s from nowhere" % (x["kind"], e, k + 1, o[name]))


def formula(f, x):
    """value of a FORMULE at the arguments x"""
    if f.cmd != "FORMULE" or list(f.kw["NOM_PARA"]) != list(x):
        raise Violation("failure-index", "%s of %s" % (f.cmd, f.kw.get("NOM_PARA")))
    return eval(f.kw["VALE"], {"__builtins__": {}, "cos": math.cos, "sin": math.sin, "sqrt": math.sqrt}, x)


def check_failure(comm, med, nm, elems, orths):
    """Tsai-Wu index of the plies of PCOMP asking for it"""
    import comm as cm
    at = {}
    for p in comm.all("POST_CHAMP"):
        q = cm.lst(p.kw["EXTR_COQUE"])[0]
        if q["NOM_CHAM"] != "SIGM_ELNO" or q["NIVE_COUCHE"] != "MOY":
            raise Violation("failure-index", "computed from %s" % q)
        loc = [c for c in comm.all("CALC_CHAMP") if c.kw["RESULTAT"] is p]
        if len(loc) != 1:
            raise Violation("failure-index", "stresses of a ply are used %d times" % len(loc))
        idx = [c for c in comm.all("CALC_CHAMP") if c.kw["RESULTAT"] is loc[0]]
        if len(idx) != 1:
            raise Violation("failure-index", "local stresses of a ply are used %d times" % len(idx))
        where = None
        for c in (p, loc[0], idx[0]):
            w = set()
            for g in cm.lst(c.kw.get("GROUP_MA")) + cm.lst(c.kw.get("MAILLE")):
                w |= {frozenset(nm.to_in[x] for x in med.cells[k][1]) for k in med.members(g)}
            if where not in (None, w):
                raise Violation("failure-index", "steps of the index of a ply are on different cells")
            where = w
        u, t = cm.lst(loc[0].kw["CHAM_UTIL"])[0], cm.lst(idx[0].kw["CHAM_UTIL"])[0]
        if u["NOM_CHAM"] != "SIGM_ELNO" or t["NOM_CHAM"] != "UT%02d_ELNO" % u["NUME_CHAM_RESU"]:
            raise Violation("failure-index", "computed from the field %s" % t["NOM_CHAM"])
        for k in where:
            at.setdefault((k, q["NUME_COUCHE"]), []).append((cm.lst(u["FORMULE"]), cm.lst(t["FORMULE"])))
    done = 0
    for e, x in elems.items():
        if x["sec"]["kind"] != "composite":
            continue
        for k, (mid, t, th) in enumerate(x["sec"]["plies"]):
            have = at.pop((frozenset(x["nodes"]), k + 1), [])
            if x["sec"]["ft"] != "TSAI" or mid not in orths or None in orths[mid]["ST"]:
                continue
            if len(have) != 1:
                raise Violation("failure-index", "%s %d ply %d has %d Tsai-Wu indices" % (x["kind"], e, k + 1, len(have)))
            (loc, idx), (xt, xc, yt, yc, sl) = have[0], orths[mid]["ST"]
            c, s = math.cos(math.radians(th)), math.sin(math.radians(th))
            for sx, sy, sxy in ((30., -7., 11.), (-13., 21., 4.)):
                g = {"SIXX": sx, "SIYY": sy, "SIXY": sxy}
                w = [c * c * sx + s * s * sy + 2 * c * s * sxy, s * s * sx + c * c * sy - 2 * c * s * sxy, c * s * (sy - sx) + (c * c - s * s) * sxy]
                v = [formula(f, g) for f in loc]
                if len(v) != 3 or any(abs(a - b) > 1e-6 * 40 for a, b in zip(v, w)):
                    raise Violation("failure-index", "%s %d ply %d at %g degrees: local stresses %s of %s instead of %s" % (x["kind"], e, k + 1, th, v, g, w))
                have_t = formula(idx[0], dict(zip(("X1", "X2", "X3"), w)))
                want_t = w[0] * (1 / xt - 1 / xc) + w[1] * (1 / yt - 1 / yc) + w[0] ** 2 / (xt * xc) + w[1] ** 2 / (yt * yc) + (w[2] / sl) ** 2
                if abs(have_t - want_t) > 1e-6 * (abs(want_t) + 1e-2):
                    raise Violation("failure-index", "%s %d ply %d: Tsai-Wu index %g instead of %g" % (x["kind"], e, k + 1, have_t, want_t))
                done += 1
    if at:
        raise Violation("failure-index", "of plies which do not exist: %s" % sorted((sorted(k), n) for k, n in at)[:3])
    return done


# ------------------------------------------------------------------ Systus

def check_systus(out, coords, elems, mats, orths, wt):
    a = out.asc()
    by = {}
    for i in a.elements:
        by.setdefault(frozenset(a.element_nodes(i)), []).append(i)
    for e, x in elems.items():
        s, w = x["sec"], mats[x["mat"]]
        mine = by.get(frozenset(x["nodes"]), [])
        if e not in mine:
            raise Violation("element-missing", "%s %d" % (x["kind"], e))
        extra = 0.
        for i in mine:
            mid = int(a.elements[i]["rest"][0])
            m = a.materials.get(mid)
            if m is None:
                raise Violation("no-material", "element %d uses the material %d" % (i, mid))
            if i == e:
                need("E", e, x, m.get(5), w["E"])
                if abs(m.get(6, 0.) - w["NU"]) > 1e-9:
                    raise Violation("NU", "%s %d: %s instead of %s" % (x["kind"], e, m.get(6), w["NU"]))
                need("RHO", e, x, m.get(4, 0.), w["RHO"] * wt)
                if (m.get(35, 0.) != 0) != bool(w["GE"]):
                    raise Violation("GE", "%s %d: %s for GE=%s" % (x["kind"], e, m.get(35), w["GE"]))
            else:
                if m.get(5, 0.) != 0:
                    raise Violation("stiffness-count", "%s %d has stiffness twice" % (x["kind"], e))
                extra += m.get(4, 0.)
            if s["kind"] == "shell":
                need("thickness", e, x, m.get(21), s["T"])
            if s["kind"] in ("beam", "truss"):
                need("A", e, x, m.get(11), s["A"])
            if s["kind"] == "beam":
                need("IX", e, x, m.get(14), s["J"])
                need("IY", e, x, m.get(15), s["IY"])
                need("IZ", e, x, m.get(16), s["IZ"])
                if s.get("AY"):
                    for k, q in ((12, "AY"), (13, "AZ")):
                        if s[q]:
                            need(q, e, x, m.get(k), s["A"] * s[q])
                if a.elements[i]["dim"] != 1:
                    raise Violation("element-type", "%s %d is written %s" % (x["kind"], e, a.elements[i]["line"]))
        size = s.get("T") if s["kind"] == "shell" else s.get("A", 1.)
        need("NSM", e, x, extra * size, s["nsm"] * wt)


# ------------------------------------------------------------------ Nastran

def check_nastran(out, coords, elems, mats, orths, wt):
    b = out.nas
    props, mt, els = {}, {}, {}
    for c in b.cards:
        if c.name in ("PBAR", "PBEAM", "PSHELL", "PROD", "PSOLID", "PIHEX"):
            if c.i(0) in props:
                raise Violation("property-twice", "property %d" % c.i(0))
            props[c.i(0)] = c
        elif c.name == "MAT1":
            if c.i(0) in mt:
                raise Violation("material-twice", "material %d" % c.i(0))
            mt[c.i(0)] = c
        elif c.name in ("CBAR", "CBEAM", "CROD", "CQUAD4", "CQUAD8", "CTRIA3", "CTRIA6", "CHEXA", "CIHEX1", "CIHEX2",
                        "CTETRA", "CPENTA"):
            els[c.i(0)] = c
    R = 2e-3
    for e, x in elems.items():
        s, w = x["sec"], mats[x["mat"]]
        c = els.get(e)
        if c is None:
            raise Violation("element-missing", "%s %d" % (x["kind"], e))
        p = props.get(c.i(1))
        if c.name == "CTETRA" and p is None:
            m = mt.get(c.i(1))
        else:
            if p is None:
                raise Violation("no-property", "%s %d uses the property %s" % (x["kind"], e, c.i(1)))
            m = mt.get(p.i(1))
        if m is None:
            raise Violation("no-material", "%s %d" % (x["kind"], e))
        need("E", e, x, m.r(1), w["E"], R)
        if abs(m.r(3, 0.) - w["NU"]) > 2e-3:
            raise Violation("NU", "%s %d: %s instead of %s" % (x["kind"], e, m.r(3), w["NU"]))
        need("RHO", e, x, m.r(4, 0.), w["RHO"] * wt, R)
        need("GE", e, x, m.r(7, 0.), w["GE"] or 0., R)
        if s["kind"] == "shell":
            need("thickness", e, x, p.r(2), s["T"], R)
            if p.i(3) != p.i(1):
                raise Violation("bending", "%s %d: PSHELL without its bending material" % (x["kind"], e))
            zi = {"CQUAD4": 7, "CTRIA3": 6, "CQUAD8": 15, "CTRIA6": 9}[c.name]
            if abs(c.r(zi, 0.) - x["off"]) > 1e-3:
                raise Violation("offset", "%s %d: ZOFFS %s instead of %s (%s)" % (x["kind"], e, c.get(zi), x["off"], c))
            need("NSM", e, x, p.r(7, 0.), s["nsm"] * wt, R)
        elif s["kind"] == "beam":
            off = 1 if p.name == "PBEAM" else 0
            need("A", e, x, p.r(2), s["A"], R)
            need("IZ", e, x, p.r(3), s["IZ"], R)
            need("IY", e, x, p.r(4), s["IY"], R)
            need("J", e, x, p.r(5 + off), s["J"], R)
            need("NSM", e, x, p.r(6 + off, 0.), s["nsm"] * wt, R)
            if "AY" in s and p.name == "PBAR":
                for k, q in ((16, "AY"), (17, "AZ")):
                    if s[q]:
                        need("K", e, x, p.r(k), 1 / s[q], R)
                    elif p.r(k, 0.) != 0:
                        raise Violation("K", "%s %d: %s from nowhere" % (x["kind"], e, p.r(k)))
        elif s["kind"] == "truss":
            need("A", e, x, p.r(2), s["A"], R)
            need("J", e, x, p.r(3, 0.), s["J"], R)
            need("NSM", e, x, p.r(5, 0.), s["nsm"] * wt, R)


def build_nonlinear(rng):
    """separate elements of elastic, plastic and hyperelastic materials in non linear analyses"""
    d = Deck("SOL 106")
    coords, elems, laws = {}, {}, {}
    nid, eid = iter(ids(rng, 80, hi=9000)), iter(ids(rng, 20, hi=6000))
    cards = []
    wt = rng.choice([1., 1., .00259])
    if wt != 1.:
        cards.append(("PARAM", ["WTMASS", wt]))
    pids, mids = ids(rng, 4, hi=900), ids(rng, 4, hi=900)
    for pid, mid in zip(pids, mids[:rng.randint(1, 4)]):
        law = rng.choice(["elastic", "plastic", "plastic", "hyper"])
        e, nu, rho = logdec(rng, 1e3, 4e11), dec(rng, .05, .45, 3), rng.choice([None, 7800.])
        w = laws[pid] = dict(law=law, E=e, NU=nu, RHO=(rho or 0.) * wt)
        shell = law != "hyper" and rng.random() < .3
        if law == "hyper":
            a10, a01 = logdec(rng, .01, 1e3), rng.choice([None, logdec(rng, .01, 1e3)])
            d1, a20 = rng.choice([None, logdec(rng, 1., 1e5)]), rng.choice([None, -.001955, .02])
            f = [mid, a10, a01, d1, rho]
            if a20 is not None:
                f += [None] * 4 + [2, 1] + [None] * 5 + [a20]
            cards.append(("MATHP", f))
            w.update(C10=a10, C01=a01 or 0., K=2 * (d1 if d1 is not None else 1000 * (a10 + (a01 or 0.))), C20=a20 or 0.)
        else:
            cards.append(("MAT1", [mid, e, None, nu, rho]))
            if law == "plastic":
                h = rng.choice([0., None, float("%.4g" % (e * rng.choice([.001, .01, .2])))])
                sy = float("%.4g" % (e * rng.choice([.001, .0025])))
                cards.append(("MATS1", [mid, None, "PLASTIC", h] + rng.choice([[1, 1], [None, None]]) + [sy]))
                w.update(SY=sy, D=e * (h or 0.) / (e + (h or 0.)))
        cards.append(("PSHELL", [pid, mid, .1]) if shell else (rng.choice(["PLSOLID", "PSOLID"]) if law == "hyper" else "PSOLID", [pid, mid]))
        for _ in range(rng.randint(1, 2)):
            n = [next(nid) for _ in range(4 if shell else 8)]
            x0 = 3. * len(elems)
            for q, k in enumerate(n):
                c = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)][q]
                coords[k] = (x0 + c[0], float(c[1]), float(c[2]))
                cards.append(("GRID", [k, None] + list(coords[k])))
            cards.append(("SPC1", [1, 123456 if shell else 123] + n[:3]))
            cards.append(("FORCE", [2, n[3], None, 1., 1., 0., 0.]))
            e_ = next(eid)
            cards.append(("CQUAD4" if shell else "CHEXA", [e_, pid] + n))
            elems[e_] = (pid, n)
    cards.append(("NLPARM", [3, 4]))
    rng.shuffle(cards)
    for c, f in cards:
        d.add(c, *f)
    d.case += ["SPC=1", "NLPARM=3", "SUBCASE 1", "  LOAD=2"]
    if rng.random() < .3:
        d.case += ["SUBCASE 2", "  LOAD=2"]
    return d, coords, elems, laws


def check_nonlinear(out, coords, elems, laws):
    import comm as cm
    med, comm = out.med, out.comm
    nm = NodeMap(coords, med_coords(med))
    cells = {}
    for k, (num, conn, fam) in med.cells.items():
        cells.setdefault(frozenset(nm.to_in[c] for c in conn), []).append(k)

    def spread(f, val, r):
        groups = cm.lst(f.get("GROUP_MA")) + cm.lst(f.get("MAILLE"))
        for g in groups:
            for c in med.members(g):
                r.setdefault(c, []).append(val)
    mat, n = {}, 0
    for c in comm.all("AFFE_MATERIAU"):
        for f in cm.lst(c.kw.get("AFFE")):
            spread(f, f["MATER"], mat)
    analyses = comm.all("STAT_NON_LINE")
    if not analyses:
        raise Violation("no-analysis", "no STAT_NON_LINE")
    for a in analyses:
        rel = {}
        for f in cm.lst(a.kw.get("COMPORTEMENT")):
            spread(f, (f["RELATION"], f.get("DEFORMATION")), rel)
        for e, (pid, nodes) in elems.items():
            w = laws[pid]
            for c in cells.get(frozenset(nodes), []):
                want = {"elastic": "ELAS", "plastic": "VMIS_ISOT_LINE", "hyper": "ELAS_HYPER"}[w["law"]]
                have = rel.get(c, [])
                if len(have) != 1 or have[0][0] != want or (want == "ELAS_HYPER") != (have[0][1] == "GROT_GDEP"):
                    raise Violation("relation", "element %d (%s) behaves as %s" % (e, w["law"], have))
                m = (mat.get(c) or [None])[-1]
                if m is None:
                    raise Violation("no-material", "element %d has no material" % e)
                for law, keys in (("ELAS", "E NU RHO"), ("ECRO_LINE", "SY D"), ("ELAS_HYPER", "C10 C01 C20 K RHO")):
                    if (law in m.kw) != (law == {"hyper": "ELAS_HYPER"}.get(w["law"], law if law != "ELAS_HYPER" and (law == "ELAS" or w["law"] == "plastic") else None)):
                        raise Violation("law", "element %d (%s): %s %s" % (e, w["law"], law, "given" if law in m.kw else "lost"))
                    if law in m.kw:
                        for k in keys.split():
                            x = float(m.kw[law]["D_SIGM_EPSI" if k == "D" else k])
                            if not near(x, w[k], 2e-5):
                                raise Violation("law-value", "element %d: %s of %s is %.9g instead of %.9g" % (e, k, law, x, w[k]))
                            n += 1
    return n


def run(ctx):
    ctx.rule = ("decks of 1-4 kinds of property (PBAR, PBARL, PBEAM, PBEAML, PROD, CONROD, PSHELL, PCOMP, PSOLID) with "
                "one to three properties each, materials given by any two of E, G, NU, sections from micrometres to "
                "metres; distinct by the values of all properties")

    def one(to, chk, opts=()):
        def f(rng, i):
            d, coords, elems, mats, orths, wt = build(rng, to)
            out = Out(ctx, d.text(), to=to, opts=list(opts))
            try:
                chk(out, coords, elems, mats, orths, wt)
                if to == "ASTER":
                    ctx.stat("Tsai-Wu indices compared", check_failure(out.comm, out.med, NodeMap(coords, med_coords(out.med)), elems, orths))
            except Violation as v:
                raise out.tag(v)
            for x in elems.values():
                ctx.stat("%s %s %s%s" % (to, x["kind"], x["sec"].get("shape", x["sec"]["kind"]),
                                         " +NSM" if x["sec"]["nsm"] else ""))
            ctx.seen((to, opts, repr(sorted((e, repr(x)) for e, x in elems.items()))))
            ctx.sample({"to": to, "elements": [[e, x["kind"], x["sec"]] for e, x in elems.items()][:3]})
        return f
    ctx.cases("aster", ctx.n(150), one("ASTER", check_aster))
    ctx.cases("systus", ctx.n(110), one("SYSTUS", check_systus))
    ctx.cases("nastran", ctx.n(60), one("NASTRAN", check_nastran))
    ctx.cases("modern", ctx.n(50), one("NASTRAN", check_nastran, ("--nastran.OutputDialect=modern",)))

    def nonlinear(rng, i):
        d, coords, elems, laws = build_nonlinear(rng)
        out = Out(ctx, d.text(), to="ASTER")
        try:
            ctx.stat("values of non linear laws compared", check_nonlinear(out, coords, elems, laws))
        except Violation as v:
            raise out.tag(v)
        ctx.seen(("nonlinear", repr(sorted(laws.items()))))
    ctx.cases("nonlinear", ctx.n(50), nonlinear)
