"""Metamorphic comparison: two translations of decks that say the same thing have to write the same thing."""
import os
import re

from fem import *  # noqa


def norm_comm(t):
    return [l for l in (re.sub(r"#.*", "", x).rstrip() for x in t.split("\n")) if l]


def norm_nas(t):
    return [l.rstrip() for l in t.split("\n") if l.strip() and not l.startswith("$")]


def norm_plain(t):
    return [l.rstrip() for l in t.split("\n") if l.strip() and not l.startswith("Built by")]


def snapshot(out, to):
    """-> {part: comparable}"""
    if to == "ASTER":
        c, m = out.r.text(".comm"), out.med.raw
        if c is None:
            raise out.tag(Violation("comm-missing", "no .comm file"))
        return {"comm": norm_comm(c), "med": m}
    if to == "NASTRAN":
        t = out.r.text("_vg.nas")
        if t is None:
            raise out.tag(Violation("nas-missing", "no _vg.nas file"))
        return {"nas": norm_nas(t)}
    s = {}
    for f in out.r.files():
        with open(os.path.join(out.r.outdir, f), errors="replace") as g:
            s[re.sub(r"^%s" % re.escape(out.r.stem), "", f)] = norm_plain(g.read())
    if not s:
        raise out.tag(Violation("asc-missing", "no Systus file"))
    return s


def first_diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            x, y = a.get(k), b.get(k)
            if isinstance(x, list) and isinstance(y, list):
                for i, (p, q) in enumerate(zip(x, y)):
                    if p != q:
                        return "%s line %d: %r / %r" % (k, i + 1, p[:200], q[:200])
                return "%s: %d lines / %d lines" % (k, len(x), len(y))
            if isinstance(x, dict) and isinstance(y, dict):
                for kk in sorted(set(x) | set(y)):
                    if x.get(kk) != y.get(kk):
                        return "%s.%s: %s / %s" % (k, kk, str(x.get(kk))[:300], str(y.get(kk))[:300])
            return "%s: %s / %s" % (k, str(x)[:200], str(y)[:200])
    return None
