"""Coordinate systems, computed from the Nastran definition: A origin, B on the z axis, C in the
x-z half plane, each given in the reference system; angles in degrees."""
import math

from fem import add, cross, dot, mul, sub, unit


class CS:
    """kind 'R', 'C' or 'S'; origin and axes in the basic system"""

    def __init__(self, kind, o, ex, ey, ez):
        self.kind, self.o, self.ex, self.ey, self.ez = kind, o, ex, ey, ez

    def local_cart(self, p):
        if self.kind == "R":
            return p
        if self.kind == "C":
            r, t, z = p
            t = math.radians(t)
            return (r * math.cos(t), r * math.sin(t), z)
        r, th, ph = p
        th, ph = math.radians(th), math.radians(ph)
        return (r * math.sin(th) * math.cos(ph), r * math.sin(th) * math.sin(ph), r * math.cos(th))

    def point(self, p):
        c = self.local_cart(p)
        return add(self.o, self.vec_cart(c))

    def vec_cart(self, c):
        return add(add(mul(self.ex, c[0]), mul(self.ey, c[1])), mul(self.ez, c[2]))

    def axes_at(self, x):
        """local basis vectors at the basic position x"""
        if self.kind == "R":
            return self.ex, self.ey, self.ez
        d = sub(x, self.o)
        a, b, c = dot(d, self.ex), dot(d, self.ey), dot(d, self.ez)
        rho = math.hypot(a, b)
        if self.kind == "C":
            t = math.atan2(b, a)
            er = self.vec_cart((math.cos(t), math.sin(t), 0))
            et = self.vec_cart((-math.sin(t), math.cos(t), 0))
            return er, et, self.ez
        th, ph = math.atan2(rho, c), math.atan2(b, a)
        er = self.vec_cart((math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)))
        et = self.vec_cart((math.cos(th) * math.cos(ph), math.cos(th) * math.sin(ph), -math.sin(th)))
        ep = self.vec_cart((-math.sin(ph), math.cos(ph), 0))
        return er, et, ep

    def vec_at(self, x, v):
        e = self.axes_at(x)
        return add(add(mul(e[0], v[0]), mul(e[1], v[1])), mul(e[2], v[2]))


BASIC = CS("R", (0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.))


def from_points(kind, a, b, c):
    ez = unit(sub(b, a))
    ex = sub(c, a)
    ex = unit(sub(ex, mul(ez, dot(ex, ez))))
    return CS(kind, a, ex, cross(ez, ex), ez)


def rand_points(rng):
    """A, B, C well separated and not aligned"""
    from deck import dec
    from fem import norm
    while True:
        a = tuple(dec(rng, -3, 3, 3) for _ in range(3))
        b = tuple(dec(rng, -3, 3, 3) for _ in range(3))
        c = tuple(dec(rng, -3, 3, 3) for _ in range(3))
        z, x = sub(b, a), sub(c, a)
        if norm(z) > 1 and norm(x) > 1 and norm(cross(unit(z), unit(x))) > 0.4:
            return a, b, c
