"""Kinematic content of the outputs: constraint equations per analysis, over (node, 1..6)."""
from comm import lst, node
from fem import Violation, cross, sub

DDL = {"DX": 1, "DY": 2, "DZ": 3, "DRX": 4, "DRY": 5, "DRZ": 6}


def rigid_rows(m, s, xm, xs, dofs):
    """slave dofs follow the rigid motion of the master"""
    d = sub(xs, xm)
    # u_s = u_m + th x d
    cr = {1: {5: d[2], 6: -d[1]}, 2: {6: d[0], 4: -d[2]}, 3: {4: d[1], 5: -d[0]}}
    out = []
    for k in dofs:
        r = {(s, k): 1., (m, k): -1.}
        if k <= 3:
            for a, v in cr[k].items():
                if v:
                    r[(m, a)] = r.get((m, a), 0.) - v
        out.append((r, 0.))
    return out


def charge_rows(c, to_in, coords, groups, rot=None):
    """equations of one AFFE_CHAR_MECA concept"""
    rows = []

    def nodes(f):
        l = [node(n) for n in lst(f.get("NOEUD"))]
        for g in lst(f.get("GROUP_NO")):
            if g not in groups:
                raise Violation("group-empty", "GROUP_NO %s is not in the mesh" % g)
            l += sorted(groups[g])
        return [to_in.get(n, -n) for n in l]
    for f in lst(c.kw.get("DDL_IMPO")):
        vals = {DDL[k]: v for k, v in f.items() if k in DDL}
        if f.get("LIAISON") == "ENCASTRE":
            vals = {k: 0. for k in range(1, 7)}
        for n in nodes(f):
            for k, v in vals.items():
                rows.append(({(n, k): 1.}, float(v)))
    for f in lst(c.kw.get("LIAISON_DDL")):
        nn = nodes(f)
        dd = lst(f.get("DDL"))
        cc = lst(f.get("COEF_MULT"))
        if not (len(nn) == len(dd) == len(cc)):
            raise Violation("liaison-lists", "LIAISON_DDL with %d nodes, %d components, %d coefficients" %
                            (len(nn), len(dd), len(cc)))
        r = {}
        for n, d, k in zip(nn, dd, cc):
            r[(n, DDL[d])] = r.get((n, DDL[d]), 0.) + float(k)
        rows.append((r, float(f.get("COEF_IMPO", 0.))))
    for q, f in enumerate(lst(c.kw.get("LIAISON_SOLIDE"))):
        nn = nodes(f)
        # the rotations of the body are those of its nodes that have some, else unknowns of its own
        m = ([n for n in nn if rot is None or n in rot] or nn)[0]
        for s in nn:
            if s != m:
                rr = rigid_rows(m, s, coords[m], coords[s], range(1, 7) if rot is None or s in rot else range(1, 4))
                if rot is not None and m not in rot:
                    rr = [({((c.name, q), k) if n == m and k > 3 else (n, k): v for (n, k), v in r.items()}, b) for r, b in rr]
                rows += rr
    return rows


def aster_rows(comm, concept, nm, coords, groups, rot=None):
    """all the constraint equations of an analysis, and the charges it uses"""
    ch = comm.charges()
    rows, used = [], []
    for f in lst(concept.kw.get("EXCIT")):
        c = f.get("CHARGE")
        if c is None or c.name not in ch:
            raise Violation("charge-undefined", "analysis uses charge %r" % (c,))
        used.append((c, f.get("FONC_MULT")))
        rows += charge_rows(c, nm.to_in, coords, groups, rot)
    return rows, used


def aster_rotational(comm, med, nm):
    """input ids of the nodes that have rotations in the AFFE_MODELE written"""
    out = set()
    for a in lst(comm.one("AFFE_MODELE").kw.get("AFFE")):
        if set(lst(a.get("MODELISATION"))) & {"POU_D_E", "POU_D_T", "POU_D_TG", "DIS_TR", "2D_DIS_TR", "DKT", "DST", "COQUE_3D", "Q4G", "DKTG"}:
            for g in lst(a.get("GROUP_MA")):
                for c in med.cellgroups.get(g, ()):
                    out |= {nm.to_in.get(n, -n) for n in med.cells[c][1]}
    return out
