"""Decks to run: those shipped with the repository, and those of the other checks' generators."""
import os

import vbuild

FORMATS = {".nas": "NASTRAN", ".bdf": "NASTRAN", ".dat": "NASTRAN", ".fem": "OPTISTRUCT"}


def shipped(limit=60000):
    """[(path relative to testdata, format, text)]"""
    out = []
    top = os.path.join(vbuild.REPO, "testdata")
    for d, _, fs in sorted(os.walk(top)):
        for f in sorted(fs):
            e = os.path.splitext(f)[1].lower()
            p = os.path.join(d, f)
            if e in FORMATS and os.path.getsize(p) <= limit:
                with open(p, errors="replace") as g:
                    out.append((os.path.relpath(p, top), FORMATS[e], g.read()))
    return out


class Text(str):
    """a deck its generator laid out already"""

    def text(self, style=None, rng=None):
        return str(self)


def generators():
    """[(name, f(rng, to) -> Deck)]"""
    from checks import c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c24, c25, c28
    from deck import Deck  # noqa
    kinds = ["CHEXA", "CPENTA", "CTETRA", "CPYRA", "CQUAD4", "CTRIA3", "CQUAD8", "CTRIA6"]
    out = [("c10", lambda r, to: c10.build(r, to)[0]), ("c12", lambda r, to: c12.build(r, to)[0]),
           ("c13", lambda r, to: c13.build(r, to, r.random() < .5)[0]), ("c14", lambda r, to: c14.build(r, to)[0]),
           ("c15", lambda r, to: c15.build(r, to)[0]), ("c16", lambda r, to: c16.build(r, to)[0])]
    out.append(("c11", lambda r, to: c11.build(r, to)[0]))
    out.append(("c28", lambda r, to: c28.build(r, to, simple=to == "SYSTUS")[0]))
    out.append(("c28-interleaved", lambda r, to: c28.build(r, to, many=True)[0] if to == "ASTER" else c28.build(r, to, simple=True)[0]))
    for k in ("gap", "zone", "slide", "surf"):
        out.append(("c24-" + k, lambda r, to, k=k: c24.build(r, k)[0]))
    out.append(("c25", lambda r, to: c25.build(r, r.random() < .3)[0]))
    out.append(("c17", lambda r, to: Text(c17.build(r, to)[0])))
    for fam in c18.NAMES:
        out.append(("c18-" + fam, lambda r, to, fam=fam: c18.build(r, fam, to)[0]))
    return out
