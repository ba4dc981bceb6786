"""An independent reader of Nastran bulk data, used on decks written by Vega."""
import re


class BdfError(Exception):
    pass


def num(s):
    """Nastran real/integer -> float"""
    t = s.strip().upper().replace("D", "E")
    m = re.match(r"^([+-]?(?:\d+\.?\d*|\.\d+))(?:E?([+-]?\d+))?$", t) if "E" not in t else None
    try:
        return float(t)
    except ValueError:
        pass
    m = re.match(r"^([+-]?(?:\d+\.?\d*|\.\d+))([+-]\d+)$", t)
    if m:
        return float(m.group(1) + "E" + m.group(2))
    raise BdfError("not a number: %r" % s)


class Card:
    def __init__(self, name, fields):
        self.name, self.f = name, fields

    def get(self, i):
        return self.f[i] if i < len(self.f) else ""

    def i(self, i, default=None):
        s = self.get(i)
        if s == "":
            return default
        return int(s)

    def r(self, i, default=None):
        s = self.get(i)
        if s == "":
            return default
        return num(s)

    def __repr__(self):
        return self.name + "," + ",".join(self.f)


def _split(line):
    line = line.rstrip("\n").split("$")[0].rstrip()
    if "," in line[:10] or ("," in line and "," in line[:9]):
        fs = [x.strip() for x in line.split(",")]
        return fs[0], fs[1:], True
    name = line[:8].strip()
    if name.endswith("*") or name.startswith("*"):
        return name, [line[8 + 16 * i:24 + 16 * i].strip() for i in range(4)], False
    return name, [line[8 + 8 * i:16 + 8 * i].strip() for i in range(8)], False


class Bdf:
    def __init__(self, text):
        self.case = []
        self.cards = []
        lines = text.split("\n")
        i = 0
        bulk = False
        cur = None
        self.ended = False
        for l in lines:
            if not bulk:
                if re.match(r"^\s*BEGIN\s+BULK", l, re.I):
                    bulk = True
                else:
                    self.case.append(l)
                continue
            if l.startswith("$") or not l.strip():
                continue
            if l.strip().upper().startswith("ENDDATA"):
                self.ended = True
                break
            name, fs, free = _split(l)
            if len(l) > 80 and not free:
                raise BdfError("line longer than 80: %r" % l)
            if name.startswith("+") or name.startswith("*") or name == "":
                if cur is None:
                    raise BdfError("continuation without a card: %r" % l)
                width = 4 if name.startswith("*") else 8
                n = (len(cur.f) + width - 1) // width * width
                cur.f += [""] * (n - len(cur.f))
                cur.f += fs[:8]
            else:
                cur = Card(name.rstrip("*").upper(), fs[:8])
                self.cards.append(cur)
        for c in self.cards:
            while c.f and c.f[-1] == "":
                c.f.pop()

    def of(self, *names):
        return [c for c in self.cards if c.name in names]
