"""Shared pieces of the workload generators and oracles."""
import math

import asc as _asc
import bdf as _bdf
import comm as _comm
import med as _med
from check import Violation, Inconclusive  # noqa
from deck import Deck, Style, dec, coef, logdec, q4  # noqa

# corner coordinates and mid-side node definitions of the Nastran solids/shells, from the Nastran
# element descriptions: local node -> pair of corners (1-based)
REF = {
    "CHEXA": ([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
              [(1, 2), (2, 3), (3, 4), (4, 1), (1, 5), (2, 6), (3, 7), (4, 8), (5, 6), (6, 7), (7, 8), (8, 5)]),
    "CPENTA": ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
               [(1, 2), (2, 3), (3, 1), (1, 4), (2, 5), (3, 6), (4, 5), (5, 6), (6, 4)]),
    "CTETRA": ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
               [(1, 2), (2, 3), (3, 1), (1, 4), (2, 4), (3, 4)]),
    "CPYRA": ([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0.5, 0.5, 1)],
              [(1, 2), (2, 3), (3, 4), (4, 1), (1, 5), (2, 5), (3, 5), (4, 5)]),
    "CQUAD4": ([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], []),
    "CQUAD8": ([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], [(1, 2), (2, 3), (3, 4), (4, 1)]),
    "CTRIA3": ([(0, 0, 0), (1, 0, 0), (0, 1, 0)], []),
    "CTRIA6": ([(0, 0, 0), (1, 0, 0), (0, 1, 0)], [(1, 2), (2, 3), (3, 1)]),
}

# Nastran local node (0-based) at each MED position: MED reverses the orientation of the base
# of solids and lists mid-side nodes base / top / vertical.
MED_ORDER = {
    "SEG2": [0, 1],
    "POINT1": [0],
    "TRI3": [0, 1, 2], "TRI6": [0, 1, 2, 3, 4, 5],
    "QUAD4": [0, 1, 2, 3], "QUAD8": [0, 1, 2, 3, 4, 5, 6, 7],
    "TETRA4": [0, 2, 1, 3], "TETRA10": [0, 2, 1, 3, 6, 5, 4, 7, 9, 8],
    "PENTA6": [0, 2, 1, 3, 5, 4], "PENTA15": [0, 2, 1, 3, 5, 4, 8, 7, 6, 14, 13, 12, 9, 11, 10],
    "PYRA5": [0, 3, 2, 1, 4], "PYRA13": [0, 3, 2, 1, 4, 8, 7, 6, 5, 9, 12, 11, 10],
    "HEXA8": [0, 3, 2, 1, 4, 7, 6, 5],
    "HEXA20": [0, 3, 2, 1, 4, 7, 6, 5, 11, 10, 9, 8, 19, 18, 17, 16, 12, 15, 14, 13],
}
MED_TYPE = {("CHEXA", 8): "HEXA8", ("CHEXA", 20): "HEXA20", ("CPENTA", 6): "PENTA6", ("CPENTA", 15): "PENTA15",
            ("CTETRA", 4): "TETRA4", ("CTETRA", 10): "TETRA10", ("CPYRA", 5): "PYRA5", ("CPYRA", 13): "PYRA13",
            ("CQUAD4", 4): "QUAD4", ("CQUAD8", 8): "QUAD8", ("CTRIA3", 3): "TRI3", ("CTRIA6", 6): "TRI6",
            ("CBAR", 2): "SEG2", ("CROD", 2): "SEG2", ("CBEAM", 2): "SEG2"}


def solid_nodes(kind, quad, origin, size, rng, jitter=0.1):
    """node coordinates (list) of one element of reference shape `kind`"""
    corners, mids = REF[kind]
    pts = []
    for c in corners:
        pts.append(tuple(round(origin[k] + size * (c[k] + rng.uniform(-jitter, jitter)), 4) for k in range(3)))
    if quad:
        for a, b in mids:
            pts.append(tuple(round((pts[a - 1][k] + pts[b - 1][k]) / 2 + size * rng.uniform(-.03, .03), 4)
                             for k in range(3)))
    return pts


def ok(r, what="translation"):
    """The deck was legal: it has to be translated."""
    if r.timeout:
        raise Inconclusive("watchdog")
    if r.rc != 0 or r.crashed():
        v = Violation("not-translated", "%s of a legal deck ended with status %s, sanitizer %s\n%s" %
                      (what, r.rc, [s.sig for s in r.san][:3], r.console[-800:]))
        raise v
    return r


def with_replay(v, **kw):
    v.replay = dict(getattr(v, "replay", None) or {}, **kw)
    return v


class Out:
    """One translation, its outputs read lazily."""

    def __init__(self, ctx, deck, to="ASTER", check=True, **kw):
        self.deck_text = deck
        self.to = to
        self.kw = kw
        self.r = ctx.vega(deck, to=to, **kw)
        ctx.stat("translations to " + to)
        self._comm = self._med = None
        if check:
            try:
                ok(self.r, "translation to " + to)
            except Violation as v:
                raise self.tag(v)

    def tag(self, v):
        return with_replay(v, deck=self.deck_text, to=self.to, options=list(self.kw.get("opts", ())),
                           files=self.kw.get("files", {}))

    @property
    def comm(self):
        if self._comm is None:
            try:
                self._comm = _comm.parse(self.r.text(".comm"))
            except _comm.CommError as e:
                raise self.tag(Violation("comm-unreadable", str(e)))
        return self._comm

    @property
    def med(self):
        if self._med is None:
            try:
                self._med = _med.read(self.r.path(".med"))
            except _med.MedError as e:
                raise self.tag(Violation("med-unreadable", str(e)))
        return self._med

    def asc(self, k=1):
        try:
            return _asc.parse(self.r.text("_SC%d_DATA1.ASC" % k))
        except (_asc.AscError, ValueError, IndexError) as e:
            raise self.tag(Violation("asc-unreadable", "%s: %s" % (type(e).__name__, e)))

    @property
    def nas(self):
        t = self.r.text("_vg.nas")
        if t is None:
            raise self.tag(Violation("nas-missing", "no _vg.nas file"))
        try:
            return _bdf.Bdf(t)
        except _bdf.BdfError as e:
            raise self.tag(Violation("nas-unreadable", str(e)))


def close(a, b, rel=1e-9, ab=1e-12):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def vclose(a, b, rel=1e-9, ab=1e-12):
    s = max([abs(x) for x in a] + [abs(x) for x in b] + [0])
    return len(a) == len(b) and all(abs(x - y) <= ab + rel * s for x, y in zip(a, b))


class NodeMap:
    """Which output node is which input node: by position (generated positions are distinct)."""

    def __init__(self, coords_in, coords_out, out=None, tol=1e-7):
        self.to_out, self.to_in = {}, {}
        grid = {}
        for k, c in coords_out.items():
            grid.setdefault(tuple(round(x / 1e-3) for x in c), []).append((k, c))
        for n, c in coords_in.items():
            base = tuple(round(x / 1e-3) for x in c)
            hit = []
            for dx in (-1, 0, 1):
                for dy in (-1, 0, 1):
                    for dz in (-1, 0, 1):
                        for k, q in grid.get((base[0] + dx, base[1] + dy, base[2] + dz), []):
                            if all(abs(q[i] - c[i]) <= tol * max(1, abs(c[i])) for i in range(3)):
                                hit.append(k)
            if len(hit) != 1:
                raise Violation("node-position", "node %d expected at %s: %d nodes there in the output" %
                                (n, c, len(hit)))
            self.to_out[n] = hit[0]
            self.to_in[hit[0]] = n


def med_coords(med):
    return {i: med.coords[i] for i in range(1, len(med.coords))}


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def mul(a, k):
    return tuple(x * k for x in a)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def norm(a):
    return math.sqrt(dot(a, a))


def unit(a):
    n = norm(a)
    return tuple(x / n for x in a)


def ids(rng, n, hi=9000, lo=1):
    """n distinct ids, sometimes dense, sometimes sparse"""
    if rng.random() < 0.4:
        s = rng.randint(lo, max(lo, hi // 4))
        l = list(range(s, s + n))
    else:
        l = rng.sample(range(lo, hi), n)
    if rng.random() < 0.5:
        rng.shuffle(l)
    return l
