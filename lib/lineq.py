"""Linear constraint equations sum(c[dof] * u[dof]) = rhs, compared as affine spaces, so that any equivalent
way of writing the same constraints is accepted."""


class System:
    """Reduced row echelon form of a set of equations"""

    def __init__(self, rows=(), tol=1e-7):
        self.tol = tol
        self.piv = {}        # pivot dof -> (row dict, rhs)
        self.inconsistent = []
        self.users = {}      # dof -> set of pivots whose row mentions it
        for r, b in rows:
            self.add(r, b)

    def _reduce(self, r, b):
        r = dict(r)
        scale = max([abs(x) for x in r.values()] + [1e-300])
        for d in list(r):
            if d in self.piv and d in r:
                k = r[d]
                pr, pb = self.piv[d]
                for e, v in pr.items():
                    r[e] = r.get(e, 0.) - k * v
                b -= k * pb
                r.pop(d, None)
        r = {d: v for d, v in r.items() if abs(v) > self.tol * scale}
        return r, b, scale

    def add(self, r, b):
        r, b, scale = self._reduce(r, b)
        if not r:
            if abs(b) > 1e-6 * max(1., scale):
                self.inconsistent.append(b)
            return False
        p = max(r, key=lambda d: abs(r[d]))
        k = r[p]
        r = {d: v / k for d, v in r.items()}
        b /= k
        for q in list(self.piv):
            pr, pb = self.piv[q]
            if p in pr:
                f = pr[p]
                n = dict(pr)
                for d, v in r.items():
                    n[d] = n.get(d, 0.) - f * v
                n.pop(p, None)
                n = {d: v for d, v in n.items() if abs(v) > 1e-12}
                n[q] = 1.
                self.piv[q] = (n, pb - f * b)
        self.piv[p] = (r, b)
        return True

    def implies(self, r, b, accept):
        """None when the equation follows from the system, else the residue"""
        q, c, scale = self._reduce(r, b)
        q = {d: v for d, v in q.items() if abs(v) > accept * scale}
        if q:
            return q, c
        if abs(c) > 1e-6 * max(1., scale, abs(b)):
            return {}, c
        return None

    def rank(self):
        return len(self.piv)


def compare(want, have, fmt=str, tol=1e-6):
    """want, have: lists of (row, rhs).  Returns None or a description of the difference."""
    # small coefficients are only dropped when they are rounding noise; comparisons are looser than that
    drop = tol if tol > 1e-4 else 1e-10
    accept = max(tol, 1e-5)
    sw, sh = System(want, drop), System(have, drop)
    if sh.inconsistent and not sw.inconsistent:
        return "the constraints written contradict each other"
    for r, b in want:
        x = sh.implies(r, b, accept)
        if x is not None:
            return "missing: %s = %g (residue %s)" % (fmt(r), b, x)
    for r, b in have:
        x = sw.implies(r, b, accept)
        if x is not None:
            return "spurious: %s = %g (residue %s)" % (fmt(r), b, x)
    return None


def project(rows, keep):
    """The equations the kept freedoms satisfy when the others are free to take any value (existential elimination)."""
    rows = [(dict(r), b) for r, b in rows]
    rows = [({d: v for d, v in r.items() if v}, b) for r, b in rows]
    aux = {d for r, _ in rows for d in r if not keep(d)}
    for d in sorted(aux):
        use = [i for i, (r, _) in enumerate(rows) if abs(r.get(d, 0.)) > 1e-9 * max([abs(x) for x in r.values()] + [1e-300])]
        if not use:
            for r, _ in rows:
                r.pop(d, None)
            continue
        i = max(use, key=lambda q: abs(rows[q][0][d]) / max(abs(x) for x in rows[q][0].values()))
        pr, pb = rows.pop(i)
        out = []
        for r, b in rows:
            k = r.get(d, 0.) / pr[d]
            if k:
                big = max(abs(x) for x in r.values())
                n = dict(r)
                for e, v in pr.items():
                    n[e] = n.get(e, 0.) - k * v
                n.pop(d, None)
                n = {e: v for e, v in n.items() if abs(v) > 1e-11 * max(big, 1.)}
                out.append((n, b - k * pb))
            else:
                r.pop(d, None)
                out.append((r, b))
        rows = out
    return [(r, b) for r, b in rows if r or abs(b) > 1e-9]
