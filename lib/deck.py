"""Nastran decks as data: cards are lists of typed fields, and the text is made
from them afterwards in any of the legal layouts."""
from bdf import num


def dec(rng, lo, hi, digits=4):
    """A random real with few significant digits (so that it fits any field)."""
    v = rng.uniform(lo, hi)
    return float("%.*g" % (digits, v))


def coef(rng, lo, hi, digits=3, zero=False):
    """A real that is often one of the values code treats specially."""
    if rng.random() < .4:
        c = [x for x in (1., -1., 2., -2., .5, -.5, 10., -10., 100., .1) if lo <= x <= hi]
        if zero and rng.random() < .3:
            return 0.
        if c:
            return rng.choice(c)
    v = dec(rng, lo, hi, digits)
    return v if abs(v) > .02 * max(abs(lo), abs(hi)) or zero else (lo if abs(lo) > abs(hi) else hi)


def q4(x):
    return float("%.4g" % x)


def logdec(rng, lo, hi, digits=3):
    import math
    v = 10 ** rng.uniform(math.log10(lo), math.log10(hi))
    return float("%.*g" % (digits, v))


def _plain(v):
    s = repr(v)
    if "e" in s or "E" in s:
        s = "%.12f" % v if abs(v) < 1 else "%.1f" % v
        if float(s) != v:
            return None
    s = s.rstrip("0") if "." in s else s
    if "." not in s:
        s += "."
    return s


def _sci(v):
    """(mantissa, exponent) strings"""
    if v == 0:
        return "0.0", "0"
    from decimal import Decimal
    sign, digits, ex = Decimal(repr(v)).as_tuple()
    ds = "".join(map(str, digits)).rstrip("0") or "0"
    ex += len(digits) - len(ds)
    e10 = ex + len(ds) - 1
    m = ("-" if sign else "") + ds[0] + "." + ds[1:]
    return m, str(e10)


def freal(v, rng=None, width=8):
    """Text of a real in at most `width` columns; several spellings of it."""
    v = float(v)
    c = []
    p = _plain(v)
    if p:
        c.append(p)
        if p.startswith("0.") and len(p) > 2:
            c.append(p[1:])
        if p.startswith("-0.") and len(p) > 3:
            c.append("-" + p[2:])
        if not p.startswith("-") and rng:
            c.append("+" + p)
    m, e = _sci(v)
    if not e.startswith("-"):
        c += [m + "+" + e, m + "E+" + e, m + "E" + e, m + "D" + e, m + "D+" + e, m + "e" + e, m + "d+" + e]
    else:
        c += [m + e, m + "E" + e, m + "D" + e, m + "e" + e, m + "d" + e]
    c = [x for x in c if len(x) <= width and num(x) == v]
    if not c:
        raise ValueError("%r does not fit %d columns" % (v, width))
    if rng is None:
        return min(c, key=len) if not p or len(p) > width else p
    return rng.choice(c)


class Style:
    def __init__(self, kind="free", cont="plus", trim=False, tabs=False, lower=False, comments=False,
                 trailing=False, align="left", spell=False, mark10=False, crlf=False, incard=False, freetrim=False,
                 label="", mix=False, blankmark=False, mixplus=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def key(self):
        return tuple(sorted((k, v) for k, v in self.__dict__.items()))

    @staticmethod
    def random(rng, kinds=("short", "long", "free")):
        k = rng.choice(kinds)
        return Style(kind=k, cont=rng.choice(["plus", "blank"]), trim=rng.random() < 0.5, tabs=rng.random() < 0.25,
                     lower=rng.random() < 0.3, comments=rng.random() < 0.5, trailing=rng.random() < 0.3,
                     align=rng.choice(["left", "right"]), spell=True, mark10=rng.random() < 0.3,
                     incard=rng.random() < 0.3, freetrim=rng.random() < 0.5, label=rng.choice(["", "", "A", "MARK"]),
                     blankmark=rng.random() < .25)


def _txt(f, rng, st, width):
    if f is None:
        return ""
    if isinstance(f, bool):
        raise TypeError
    if isinstance(f, int):
        return str(f)
    if isinstance(f, float):
        return freal(f, rng if st.spell else None, width)
    s = str(f)
    if st.lower and s.isupper():
        return s.capitalize() if rng and rng.random() < .3 else s.lower()
    return s


def emit(name, fields, st=None, rng=None):
    """-> list of text lines of one bulk card"""
    st = st or Style()
    fields = list(fields)
    while fields and fields[-1] is None:
        fields.pop()
    kw = name.lower() if st.lower else name
    out = []
    if st.kind == "free":
        t = [_txt(f, rng, st, 16) for f in fields]
        rows = [t[i:i + 8] for i in range(0, len(t), 8)] or [[]]
        for i, r in enumerate(rows):
            last = i == len(rows) - 1
            if not last:
                r = r + [""] * (8 - len(r))
                while st.freetrim and not st.mark10 and len(r) > 1 and not r[-1]:
                    r = r[:-1]
            head = kw if i == 0 else ("+" if st.cont == "plus" or st.mark10 else "")
            if st.label and head == "+":
                head += st.label + str(i)
            sep = ", " if st.align == "right" else ","
            line = sep.join([head] + r)
            if not last and st.mark10:
                line += ",+" + (st.label + str(i + 1) if st.label else "")
            elif not last and st.blankmark and len(r) == 8:
                line += ", " if st.align == "right" else ","
            out.append(line)
        return out
    lab = st.label if len(st.label) < 7 else ""
    if st.mix and rng:
        # lines of small fields and pairs of lines of large fields within one card
        rows = []
        for j in range(0, max(len(fields), 1), 8):
            part = fields[j:j + 8]
            if rng.random() < 0.5:
                part += [None] * (8 - len(part))
                rows += [(4, 16, part[:4]), (4, 16, part[4:])]
            else:
                rows.append((8, 8, part))
    else:
        n, w = (8, 8) if st.kind == "short" else (4, 16)
        rows = [(n, w, fields[i:i + n]) for i in range(0, max(len(fields), 1), n)]
    rows = [(n, w, [_txt(f, rng, st, w) for f in r]) for n, w, r in rows]
    for i, (n, w, r) in enumerate(rows):
        last = i == len(rows) - 1
        long_ = w == 16
        if i == 0:
            head = kw + ("*" if long_ else "")
        elif long_:
            head = "*"
        else:
            head = "+" if st.cont == "plus" or st.mark10 else " "
            if rows[i - 1][1] == 16 and not st.mixplus:
                head = " "      # a + line after large fields: a recorded finding of C05
        if i and lab and head in "+*":
            head += lab + str(i)
        if st.tabs and st.kind == "short" and not st.mix and all(len(x) < 8 for x in r) and len(head) < 8:
            line = "\t".join([head] + r)
            if head == " ":
                line = line[1:]
            if not last and st.mark10:
                line += "\t" * (n - len(r) + 1) + "+" + (lab + str(i + 1) if lab else "")
            out.append(line.rstrip() if last else line)
            continue
        line = head.ljust(8) + "".join((x.rjust(w) if st.align == "right" else x.ljust(w)) for x in r)
        if last:
            line = line.rstrip()
        elif st.mark10 and (not long_ or rows[i + 1][1] == 16 or st.mixplus):
            line = line.ljust(8 + n * w) + ("*" if rows[i + 1][1] == 16 else "+") + (lab + str(i + 1) if lab else "")
        elif st.trim:
            line = line.rstrip()
        else:
            line = line.ljust(8 + n * w)
        out.append(line)
    return out


class Deck:
    def __init__(self, sol="SOL 101"):
        self.exec = [sol] if sol else []
        self.case = []
        self.bulk = []          # (name, [fields])
        self.raw = []           # raw lines at the end of the bulk

    def add(self, name, *fields):
        self.bulk.append((name, list(fields)))

    def bulk_text(self, style=None, rng=None, order=None):
        cards = [self.bulk[i] for i in order] if order is not None else self.bulk
        out = []
        for name, fields in cards:
            st = style(name) if callable(style) else (style or Style())
            ls = emit(name, fields, st, rng)
            while st.comments and rng and rng.random() < 0.2:
                out.append("$ a comment, GRID    99")
            if st.comments and rng and rng.random() < 0.05:
                out.append("")
            if st.trailing and len(ls) == 1 and rng and rng.random() < 0.2 and st.kind != "free":
                ls[0] += "  $ note"
            if st.incard and st.kind != "free" and len(ls) > 1 and rng and rng.random() < 0.5:
                for _ in range(rng.choice([1, 1, 2, 3])):
                    ls.insert(rng.randrange(1, len(ls)), "$ inside")
            out += ls
        return out + list(self.raw)

    def text(self, style=None, rng=None, order=None, eol="\n"):
        ls = list(self.exec) + ["CEND"] + list(self.case) + ["BEGIN BULK"]
        ls += self.bulk_text(style, rng, order) + ["ENDDATA", ""]
        return eol.join(ls)
