"""Is a Systus or Nastran study, as written, consistent in itself?  Returns lists of (what, detail)."""
import re

import asc as _asc
import bdf as _bdf

SECTIONS = ["INFORMATIONS", "NODES", "ELEMENTS", "GROUPS", "MATERIALS", "MEDIA", "LOADS", "LISTS", "VECTORS", "RELEASES", "TABLES",
            "TEMPERATURES", "VELOCITIES", "MASSES", "DAMPINGS", "RELATIONS", "PULSATIONS", "SECTIONS", "COMPOSITES", "AFFECTATIONS"]
FLOAT = re.compile(r"^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
LOADKINDS = {(0, 0), (1, 0), (1, 1), (6, 0), (9, 0)}


def isnum(t):
    return bool(FLOAT.match(t))


class Systus:
    """one _SCn_DATA1.ASC with its _SCn.DAT and matrix files"""

    def __init__(self, text, dat, files, stem, k, console):
        self.console = console
        self.forced = "User-defined SYSTUS option" in console  # freedoms the option has not are lost, with a message
        self.bad = []
        self.seen = {}
        self.text, self.dat, self.files, self.stem, self.k = text, dat, files, stem, k

    def say(self, what, detail):
        self.bad.append((what, str(detail)[:400]))

    def ok(self, what, n=1):
        self.seen[what] = self.seen.get(what, 0) + n

    def run(self):
        try:
            a = self.a = _asc.parse(self.text)
        except (_asc.AscError, ValueError, IndexError) as e:
            self.say("asc-unreadable", e)
            return self.bad
        names = re.findall(r"^BEGIN_([A-Z]+)", self.text, re.M)
        if names != SECTIONS:
            self.say("asc-sections", names)
            return self.bad
        self.header()
        self.vectors()
        self.lists()
        self.nodes()
        self.tables()
        self.materials()
        self.elements()
        self.groups()
        self.loads()
        self.masses()
        self.datfile()
        return self.bad

    def count(self, section, n, k=0):
        c = self.a.counts[section]
        if len(c) <= k or c[k] != n:
            self.say("count-of-%s" % section.lower(), "announced %s, found %d" % (c, n))
        self.ok("announced counts checked")

    def header(self):
        a, h = self.a, self.a.header
        t = [int(x) for x in self.text.split("\n")[2].split()]
        nl = len(a.sections["LOADS"])
        if h["nodes"] != len(a.nodes):
            self.say("header-nodes", "%s, %d nodes" % (t, len(a.nodes)))
        if h["elements"] != len(a.elements):
            self.say("header-elements", "%s, %d elements" % (t, len(a.elements)))
        if h["loads"] != nl:
            self.say("header-loads", "%s, %d loads" % (t, nl))
        if h["ndofs"] not in (3, 6) or t[6] != 2 * h["ndofs"] * max(1, nl):
            self.say("header-freedoms", t)
        inf = a.sections["INFORMATIONS"]
        if len(inf) != 3 or len(inf[0]) > 80:
            self.say("informations", inf)
            return
        n, l = [int(x) for x in inf[1].split()], [int(x) for x in inf[2].split()]
        if len(n) != 20 or len(l) != 40 or n[0] != h["option"]:
            self.say("informations-codes", inf[1:])
            return
        want = {0: nl, 1: len(a.nodes), 3: len(a.elements), 6: len(a.lists), 7: len(a.vectors), 10: h["ndofs"], 11: h["ndofs"],
                12: h["ndofs"] ** 2, 13: 3, 17: h["ndofs"] ** 2, 22: 2 * h["ndofs"] * max(1, nl)}
        for i, v in want.items():
            if l[i] != v:
                self.say("informations-lcode-%d" % i, "%d, expected %d" % (l[i], v))
        self.ok("announced counts checked", 12)
        if (h["option"] == 3) != (h["ndofs"] == 6) or h["option"] not in (3, 4):
            self.say("option-against-freedoms", h)

    def vectors(self):
        a = self.a
        self.count("VECTORS", len(a.vectors))
        nd = a.header["ndofs"]
        if sorted(a.vectors) != list(range(1, len(a.vectors) + 1)):
            self.say("vector-numbers", sorted(a.vectors))
        for i, v in a.vectors.items():
            if len(v) < 9 or any(x != int(x) for x in v[:6]):
                self.say("vector-shape", "%d: %s" % (i, v))
            elif v[0] == 6 and len(v) not in (11, 12) or v[0] == 4 and len(v) != 6 + nd or v[0] in (0, 1) and len(v) not in (9, 6 + nd) or v[0] not in (0, 1, 4, 6, 9):
                self.say("vector-shape", "%d: %s" % (i, v))
            if any(x != x or abs(x) > 1e300 for x in v):
                self.say("vector-not-finite", "%d: %s" % (i, v))
            self.ok("vectors checked")

    def lists(self):
        a = self.a
        n = 0
        for l in a.sections["LISTS"]:
            t = l.split()
            if len(t) % 2 == 0 or len(t) < 3:
                self.say("list-shape", l)
            n += len(t) // 2
        self.count("LISTS", len(a.lists))
        self.count("LISTS", n, 1)
        if len(a.lists) != len(a.sections["LISTS"]):
            self.say("list-twice", a.sections["LISTS"])
        for i, l in a.lists.items():
            for load, vec in l:
                if load not in a.loads:
                    self.say("list-of-unknown-load", "list %d names load %d of %s" % (i, load, sorted(a.loads)))
                if vec not in a.vectors:
                    self.say("list-of-unknown-vector", "list %d names vector %d of %d" % (i, vec, len(a.vectors)))
            self.ok("lists checked")
        self.used = set()

    def nodes(self):
        a = self.a
        self.count("NODES", len(a.nodes))
        self.count("NODES", 3, 1)
        limit = 1 << a.header["ndofs"]
        for l in a.sections["NODES"]:
            if len(l.split()) != 9 or not all(isnum(x) for x in l.split()):
                self.say("node-line", l)
        for i, nd in a.nodes.items():
            if i < 1:
                self.say("node-number", i)
            if not 0 <= nd["iconst"] < limit:
                self.say("node-code", "node %d: %d" % (i, nd["iconst"]))
            if nd["iangl"]:
                v = a.vectors.get(nd["iangl"])
                if v is None or v[0] != 0 or len(v) != 9:
                    self.say("node-frame", "node %d: vector %d = %s" % (i, nd["iangl"], v))
                self.used.add(nd["iangl"])
            for key, kinds in (("isol", (0,)), ("idisp", (4,))):
                if nd[key]:
                    if nd[key] not in a.lists:
                        self.say("node-%s" % key, "node %d: list %d of %s" % (i, nd[key], sorted(a.lists)))
                        continue
                    for load, vec in a.lists[nd[key]]:
                        self.used.add(vec)
                        if vec in a.vectors and a.vectors[vec][0] not in kinds:
                            self.say("node-%s-kind" % key, "node %d: vector %d = %s" % (i, vec, a.vectors[vec]))
            if nd["idisp"] and not nd["iconst"]:
                self.say("node-imposed-but-free", "node %d" % i)
            self.ok("nodes checked")

    def tables(self):
        a = self.a
        self.tab = {}
        self.count("TABLES", len(a.sections["TABLES"]))
        for l in a.sections["TABLES"]:
            t = l.split()
            if len(t) < 2 or t[1] != "STANDARD" or not all(isnum(x) for x in t[2:]):
                self.say("table-line", l)
                continue
            if int(t[0]) in self.tab:
                self.say("table-twice", l)
            self.tab[int(t[0])] = [float(x) for x in t[2:]]
            self.ok("tables checked")

    def materials(self):
        a = self.a
        n = 0
        for l in a.sections["MATERIALS"]:
            t = l.split()
            n += (len(t) - 2) // 2
            if t[1] != "0" or not all(isnum(x) for x in t):
                self.say("material-line", l)
            keys = t[2::2]
            if len(set(keys)) != len(keys):
                self.say("material-key-twice", l)
        self.count("MATERIALS", len(a.materials))
        self.count("MATERIALS", n, 1)
        for i, m in a.materials.items():
            self.ok("materials checked")
            if any(abs(v) > 1e300 for v in m.values()):
                self.say("material-not-finite", "%d: %s" % (i, m))

    def elements(self):
        a = self.a
        self.count("ELEMENTS", len(a.elements))
        self.usedmat = {}
        for i, e in a.elements.items():
            t = e["rest"]
            self.ok("elements checked")
            if not all(isnum(x) for x in t):
                self.say("element-line", e["line"])
                continue
            m, isol, na = int(t[0]), int(t[1]), int(t[2])
            k = 3 + (0 if na == 0 else na)
            ns = [int(x) for x in t[k:]]
            if na not in (0, 1, 3) or len(ns) != e["nn"]:
                # 'nn' has two figures: an averaging element may have more nodes
                if len(ns) % 100 != e["nn"] % 100 or na not in (0, 1, 3):
                    self.say("element-shape", e["line"])
                    continue
            for x in ns:
                if x not in a.nodes:
                    self.say("element-of-unknown-node", e["line"])
            if len(set(ns)) != len(ns) and e["nature"] not in (9, 0) and not (e["dim"] == 3):
                self.say("element-node-twice", e["line"])
            if m == 0 and ("Unrecognized nature" in self.console or "not supported" in self.console):
                self.ok("elements without material, with a message")
            elif m not in a.materials:
                self.say("element-of-unknown-material", "%s; materials %s" % (e["line"], sorted(a.materials)[-3:]))
            else:
                self.usedmat.setdefault(m, []).append(i)
            if isol:
                if isol not in a.lists:
                    self.say("element-of-unknown-list", e["line"])
                else:
                    for load, vec in a.lists[isol]:
                        self.used.add(vec)
                        if vec in a.vectors and a.vectors[vec][0] != 1:
                            self.say("element-load-kind", "%s: %s" % (e["line"], a.vectors[vec]))
            mat = a.materials.get(m, {})
            if e["nature"] == 9 and e["dim"] in (1, 3):
                self.matrix(i, e, ns, mat)
        for m in a.materials:
            if m not in self.usedmat:
                self.ok("materials without element")

    def matrix(self, i, e, ns, mat):
        """tables and matrix files named by elements 19nn, 39nn"""
        if 26 not in mat:
            return
        t = int(mat[26])
        nd = self.a.header["ndofs"]
        if t > 0:
            parts = [p for p in (t % 100, t // 100 % 100, t // 10000) if p]
            if not any(x in self.tab for x in ([t] + parts)):
                self.say("element-of-unknown-table", "%s: %d of %s" % (e["line"], t, sorted(self.tab)))
            if t not in self.tab:
                for p in parts:
                    if p not in self.tab:
                        self.say("element-of-unknown-table", "%s: %d of %s" % (e["line"], t, sorted(self.tab)))
            for p in ([t] if t in self.tab else parts):
                v = self.tab.get(p)
                if v is None:
                    continue
                if nature200(mat) is None:
                    for c, x in zip(v[::2], v[1::2]) if not self.forced else ():
                        c = int(c)
                        n1, n2, d1, d2 = c // 1000, c // 100 % 10, c // 10 % 10, c % 10
                        if not (1 <= n1 <= len(ns) and 1 <= n2 <= len(ns) and 1 <= d1 <= nd and 1 <= d2 <= nd):
                            self.say("matrix-outside-element", "%s: code %d, table %d" % (e["line"], c, p))
                elif not v or len(v) % (nd * (len(ns) - (nature200(mat) == 19))):  # the last node of a Lagrangian relation is its multiplier
                    self.say("relation-length", "%s: %d coefficients for %d nodes" % (e["line"], len(v), len(ns)))
                self.ok("element tables checked")
        elif t < 0:
            for acc, suf in ((-t % 100, "STIGEN"), (-t // 100 % 100, "MASGEN"), (-t // 10000, "DAMGEN")):
                if not acc:
                    continue
                name = "%s_SC%d_%s.ASC" % (self.stem, self.k, suf)
                txt = self.files(name)
                if txt is None:
                    self.say("element-of-missing-matrix", "%s: %s" % (e["line"], name))
                    continue
                try:
                    ms = matrices(txt)
                except (ValueError, IndexError) as x:
                    self.say("matrix-file", "%s: %s" % (name, x))
                    continue
                n = int(mat.get(5, 0))
                if n not in ms:
                    self.say("element-of-unknown-matrix", "%s: %d of %s in %s" % (e["line"], n, sorted(ms), name))
                elif ms[n] != (len(ns), nd):
                    self.say("matrix-outside-element", "%s: %s in %s" % (e["line"], ms[n], name))
                if not re.search(r"^ASSIGN %d %s" % (acc, re.escape(name[:-4])), self.dat or "", re.M):
                    self.say("matrix-not-assigned", "%d %s" % (acc, name))
                self.ok("element matrices checked")

    def groups(self):
        a = self.a
        self.count("GROUPS", len(a.groups))
        if sorted(a.groups) != list(range(1, len(a.groups) + 1)):
            self.say("group-numbers", sorted(a.groups))
        parts = set()
        for g in a.groups.values():
            ref = a.nodes if g["kind"] == 1 else a.elements
            miss = [x for x in g["items"] if x not in ref]
            if miss:
                self.say("group-of-unknown", "%s: %s" % (g["name"], miss[:5]))
            if len(set(g["items"])) != len(g["items"]):
                self.say("group-item-twice", g["name"])
            if not g["items"]:
                self.say("group-empty", g["name"])
            self.ok("groups checked")
        for l in a.sections["GROUPS"]:
            m = re.search(r'"PART_ID (\d+)"', l)
            if m:
                if m.group(1) in parts:
                    self.say("part-twice", l[:100])
                parts.add(m.group(1))
        names = [(g["kind"], g["name"]) for g in a.groups.values()]
        for x in set(names):
            if names.count(x) > 1:
                self.say("group-name-twice", x)

    def loads(self):
        a = self.a
        self.count("LOADS", len(a.loads))
        if sorted(a.loads) != list(range(1, len(a.loads) + 1)):
            self.say("load-numbers", sorted(a.loads))
        for i, l in a.loads.items():
            if len(l["name"]) > 80:
                self.say("load-name", l["name"])
            if len(l["rest"]) != 8 or not all(isnum(x) for x in l["rest"]):
                self.say("load-line", l)
                continue
            v = int(l["rest"][1])
            if v:
                if v not in a.vectors:
                    self.say("load-of-unknown-vector", l)
                elif a.vectors[v][0] != 6:
                    self.say("load-vector-kind", "%s: %s" % (l, a.vectors[v]))
                self.used.add(v)
            self.ok("loads checked")
        lost = set(a.vectors) - self.used
        if lost:
            self.say("vector-not-used", "%s" % {i: a.vectors[i] for i in sorted(lost)[:3]})

    def masses(self):
        a = self.a
        self.count("MASSES", len(a.masses))
        for t in a.masses:
            n = int(t[1])
            if t[0] != "VALUES" or n not in (3, 6) or not all(isnum(x) for x in t[2:]):
                self.say("mass-line", t)
                continue
            for x in t[2 + n:]:
                if int(x) not in a.nodes:
                    self.say("mass-of-unknown-node", t)
            if not t[2 + n:]:
                self.say("mass-without-node", t)
            self.ok("masses checked")

    def datfile(self):
        a, d = self.a, self.dat
        if d is None:
            self.say("dat-missing", self.k)
            return
        lines = [l.strip() for l in d.split("\n")]
        name = "NAME %s_SC%d_" % (self.stem, self.k)
        if lines[0].replace("###TOPAZE###", "") != name:
            self.say("dat-name", lines[0])
        inlang = dyn = False
        saved = {1}
        nd = a.header["ndofs"]
        prog = []
        for l in lines:
            l = l.replace("###TOPAZE###", "")
            if inlang:
                if l == "end;":
                    inlang = False
                    self.language(prog)
                    prog = []
                else:
                    prog.append(l)
                continue
            if not l or l[0] in "#!":
                continue
            w = l.split()
            if w[0] == "LANGAGE":
                inlang = True
            elif l == "DYNAMIC":
                if dyn:
                    self.say("dat-block", "DYNAMIC within DYNAMIC")
                dyn = True
            elif w[0] == "RETURN":
                dyn = False
            elif w[:2] == ["SAVE", "DATA"]:
                saved.add(int(w[-1]))
            elif w[:2] == ["SEARCH", "DATA"] or w[:2] == ["DELETE", "DATA"]:
                n = int([x for x in w if x.isdigit()][0])
                if n not in saved:
                    self.say("dat-reads-unsaved", l)
            elif w[0] in ("MODE", "VECTOR", "PARTICIPATION", "HARMONIC", "FREQUENCY", "DAMPING", "FUNCTION", "TRANSFER"):
                if not dyn:
                    self.say("dat-outside-dynamic", l)
                if len(w) < 2 and not (w[0] == "FREQUENCY" and "Frequency range of type" in self.console) and not (
                        w[0] == "DAMPING" and "Dismissing damping table" in self.console):
                    self.say("dat-incomplete", l)
                if w[0] == "FUNCTION" and int(w[1]) not in self.tab:
                    self.say("dat-unknown-table", l)
                if "FORCE" in w[:-1] and w[w.index("FORCE") + 1].isdigit() and not 1 <= int(w[w.index("FORCE") + 1]) <= len(a.loads):
                    self.say("dat-unknown-load", l)
            elif len(w) == 5 and w[1:3] == ["1", "TO"]:
                n = len(a.elements) if w[0] == "FORCE" else len(a.nodes)
                if int(w[3]) != n:
                    self.say("dat-range", "%s: %d" % (l, n))
            self.ok("commands checked")
        if dyn or inlang:
            self.say("dat-block", "not closed")

    def language(self, prog):
        a = self.a
        t = "\n".join(prog)
        s = re.sub(r'"[^"]*"', '""', t)
        for o, c in ("()", "[]", "{}"):
            if s.count(o) != s.count(c):
                self.say("language-brackets", "%s%s" % (o, c))
        if t.count('"') % 2:
            self.say("language-quotes", "")
        for l, n in re.findall(r"(?<!_)node_displacement\((\d+),(-?\d+)\)", t):
            if int(l) not in a.loads or int(n) not in a.nodes:
                self.say("language-unknown-node", "load %s node %s" % (l, n))
            self.ok("tests checked")
        for n in re.findall(r"trans_node_displacement\(nume_ordre(?:\+1)?,(-?\d+)\)", t):
            if int(n) not in a.nodes:
                self.say("language-unknown-node", n)
            self.ok("tests checked")
        for n in re.findall(r"displacement\[(\d+)\]", t)[1:]:
            if not 1 <= int(n) <= a.header["ndofs"]:
                self.say("language-unknown-freedom", n)


def nature200(mat):
    """SHAPE of a rigid element or relation, None for a matrix"""
    return mat.get(61)


def matrices(txt, values=None):
    """matrix file -> {number: (nodes, freedoms)}; values, when given, gets {number: {(row, column): value}}"""
    v = txt.split()
    nd = int(v[11])
    if [x for x in v[:11] if x != "0"] or any(x != "0" for x in v[12:21]):
        raise ValueError("heading %s" % v[:21])
    v = v[21:] if len(v) > 21 else []
    # nine zeros follow the number of freedoms: 'for (int i=13; i<22; i++)'
    out = {}
    k = 0
    while k < len(v):
        _, num, n1, n2, size, _, _ = v[k:k + 7]
        num, n, size = int(num), int(n1), int(size)
        if n1 != n2 or size != n * n * nd * nd:
            if not (num == 0 and n == 0):
                raise ValueError("matrix %d: %s" % (num, v[k:k + 7]))
        k += 7
        if num == 0:
            break
        if [int(x) for x in v[k:k + n]] != list(range(1, n + 1)):
            raise ValueError("nodes of matrix %d" % num)
        k += n
        vals = [float(x) for x in v[k:k + size]]
        if len(vals) != size or num in out:
            raise ValueError("matrix %d" % num)
        # symmetric
        m = {}
        for j in range(n):
            for i in range(n):
                for q in range(nd):
                    for p in range(nd):
                        m[i * nd + p, j * nd + q] = vals[p + nd * q + nd * nd * i + nd * nd * n * j]
        for (r, c), x in m.items():
            if m[c, r] != x:
                raise ValueError("matrix %d is not symmetric" % num)
        out[num] = (n, nd)
        if values is not None:
            values[num] = m
        k += size
    if k != len(v):
        raise ValueError("%d values after the last matrix" % (len(v) - k))
    return out


INT = re.compile(r"^[+-]?\d+$")
REAL = re.compile(r"^[+-]?(\d+\.\d*|\.\d+)([eEdD][+-]?\d+|[+-]\d+)?$")
COMPS = re.compile(r"^(?!.*(\d).*\1)[1-6]+$")
# field kinds: i integer, r real, c components, a word, x integer or real, b blank, . anything; upper case: needed
CARDS = {
    "GRID": "IiRRRic", "CORD2R": "IiRRRRRRRRR", "CORD2C": "IiRRRRRRRRR", "CORD2S": "IiRRRRRRRRR",
    "MAT1": "Irrrrrrr", "PROD": "IIRrrr", "PBAR": "IIRrrrrbrrrrrrrrrrr", "PBEAM": "IIRrrrrrrrrrrrrr",
    "PSHELL": "IIRirirr", "PSOLID": "IIiaaaa", "PIHEX": "II", "PBUSH": "IArrrrrrbarrrrrr",
    "CROD": "IIII", "CBUSH": "IIIi...i", "CONM2": "IIiRrrrbrrrrrr", "SPC": "IICR", "SPCD": "IICR", "SPC1": "ICI" + "i" * 5, "FORCE": "IIiRRRR", "MOMENT": "IIiRRRR",
    "GRAV": "IiRRRR", "PLOAD": "IRIIIi", "PLOAD2": "IRI", "PLOAD4": "IIRrrriiirrr", "PLOAD1": "IIAARRrr", "RFORCE": "IIiRRRR",
    "CTRIA3": "IIIIIrr", "CQUAD4": "IIIIIIrr", "CTRIA6": "IIIIIIIIrr", "CQUAD8": "IIIIIIIIIIrrrrrr",
    "RBAR": "IIIcccc", "CELAS2": "IRICIC", "CDAMP2": "IRICIC",
}
NODES = {"CROD": 2, "CBUSH": 2, "CBAR": 2, "CBEAM": 2, "CTRIA3": 3, "CQUAD4": 4, "CTRIA6": 6, "CQUAD8": 8, "CIHEX1": 8, "CIHEX2": 20,
         "CTETRA": (4, 10), "CPENTA": (6, 15), "CPYRA": (5, 13), "CHEXA": (8, 20)}
PROPS = {"CROD": ("PROD",), "CBUSH": ("PBUSH",), "CBAR": ("PBAR",), "CBEAM": ("PBEAM",), "CTRIA3": ("PSHELL",), "CQUAD4": ("PSHELL",),
         "CTRIA6": ("PSHELL",), "CQUAD8": ("PSHELL",), "CIHEX1": ("PIHEX",), "CIHEX2": ("PIHEX",), "CTETRA": ("PSOLID", "PIHEX"),
         "CPENTA": ("PSOLID", "PIHEX"), "CPYRA": ("PSOLID", "PIHEX"), "CHEXA": ("PSOLID",)}


class Nastran:
    def __init__(self, text, modern, console=""):
        self.bad, self.seen, self.text, self.modern, self.console = [], {}, text, modern, console

    say = Systus.say
    ok = Systus.ok

    def run(self):
        if self.text is None:
            return [("nas-missing", "")]
        self.layout()
        try:
            b = self.b = _bdf.Bdf(self.text)
        except (_bdf.BdfError, ValueError) as e:
            self.say("nas-unreadable", e)
            return self.bad
        if not b.ended:
            self.say("nas-no-enddata", self.text[-100:])
        try:
            self.cards()
            self.case()
        except (ValueError, IndexError, _bdf.BdfError) as e:
            self.say("nas-field", "%s" % e)
        return self.bad

    def layout(self):
        bulk, prev, marks = False, None, set()
        for l in self.text.split("\n"):
            if l.startswith("BEGIN BULK"):
                bulk = True
                continue
            if not bulk or l.startswith("$") or not l.strip() or l.startswith("ENDDATA"):
                prev = None
                continue
            if "," in l:
                continue
            if len(l) > 80:
                self.say("nas-long-line", l)
            if l.startswith("+"):
                if prev is None or prev != l[:8].strip():
                    self.say("nas-continuation", "%r after %r" % (l, prev))
            elif prev:
                self.say("nas-continuation-lost", prev)
            for k in range(1, 9):
                f = l[8 * k:8 * k + 8].strip()
                if " " in f:
                    self.say("nas-two-values-in-a-field", "%r in %r" % (f, l))
            prev = l[72:80].strip() or None
            if prev:
                if prev in marks:
                    self.say("nas-continuation-twice", prev)
                marks.add(prev)
            self.ok("lines checked")

    def kinds(self, c, spec):
        for k, kind in enumerate(spec):
            v = c.get(k)
            if v == "":
                if kind.isupper():
                    self.say("nas-field-missing", "%s, field %d" % (c, k + 2))
                continue
            kind = kind.lower()
            good = {"i": INT.match(v), "r": REAL.match(v), "c": COMPS.match(v) or v == "0", "a": re.match("^[A-Z]", v), "x": INT.match(v) or REAL.match(v),
                    "b": False, ".": True}[kind]
            if not good:
                self.say("nas-field-kind", "%s, field %d: %r" % (c, k + 2, v))
            elif kind == "r" and abs(_bdf.num(v)) > 1e36:
                self.say("nas-value", "%s, field %d: %r" % (c, k + 2, v))
        if len(c.f) > len(spec) and c.name != "SPC1":
            self.say("nas-too-many-fields", "%s" % c)
        self.ok("cards checked")

    def cards(self):
        b = self.b
        grids, eids, props, mats, cs = {}, {}, {}, {}, {0: None}

        def put(d, k, c, what):
            if k in d:
                self.say("nas-%s-twice" % what, "%s / %s" % (d[k], c))
            if not 0 < k < 100000000:
                self.say("nas-number", "%s" % c)
            d[k] = c
        self.sets = {}
        for c in b.cards:
            if c.name in CARDS:
                self.kinds(c, CARDS[c.name])
            if c.name == "GRID":
                put(grids, c.i(0), c, "grid")
            elif c.name.startswith("CORD2"):
                put(cs, c.i(0), c, "frame")
            elif c.name.startswith("MAT"):
                put(mats, c.i(0), c, "material")
            elif c.name in NODES or c.name in ("CELAS2", "CDAMP2", "CONM1", "CONM2", "RBE2", "RBE3", "RBAR"):
                put(eids, c.i(0), c, "element")
            elif c.name[0] == "P" and c.name not in ("PLOAD", "PLOAD1", "PLOAD2", "PLOAD4", "PARAM"):
                put(props, c.i(0), c, "property")
            elif c.name not in ("PARAM", "SPC", "SPC1", "SPCD", "MPC", "FORCE", "MOMENT", "GRAV", "PLOAD", "PLOAD1", "PLOAD2", "PLOAD4", "SURF", "CONTACT", "RFORCE"):
                self.say("nas-unknown-card", "%s" % c)
        self.grids, self.eids = grids, eids

        def node(c, k):
            n = c.i(k)
            if n is not None and n not in grids:
                self.say("nas-unknown-grid", "%s" % c)
            return n

        def frame(c, k):
            if c.i(k, 0) not in cs:
                self.say("nas-unknown-frame", "%s" % c)
        enodes = {}
        for c in b.cards:
            n = c.name
            if n in NODES:
                cnt = NODES[n]
                top = max(cnt) if isinstance(cnt, tuple) else cnt
                if n in ("CTRIA3", "CQUAD4", "CTRIA6", "CQUAD8", "CBAR", "CBEAM", "CROD", "CBUSH"):
                    got = [c.get(2 + k) for k in range(top)]
                else:
                    got = c.f[2:]
                while got and got[-1] == "":
                    got.pop()
                if len(got) not in (cnt if isinstance(cnt, tuple) else (cnt,)) and n != "CBUSH":
                    self.say("nas-element-nodes", "%s" % c)
                ids = [node(c, 2 + k) for k in range(len(got))]
                enodes[c.i(0)] = ids
                if len(set(ids)) != len(ids):
                    self.say("nas-element-node-twice", "%s" % c)
                p = c.i(1)
                if n == "CTETRA" and not self.modern:
                    if p not in mats:
                        self.say("nas-unknown-material", "%s" % c)
                elif p not in props:
                    self.say("nas-unknown-property", "%s" % c)
                elif props[p].name not in PROPS[n]:
                    self.say("nas-other-property", "%s: %s" % (c, props[p]))
                if n == "CBUSH":
                    frame(c, 7)
                if n in ("CBAR", "CBEAM"):
                    self.kinds(c, "IIIIrrrx")
                    if n == "CBAR" and len(c.f) > 4 and not any(c.r(k, 0.) for k in (4, 5, 6)):
                        self.say("nas-orientation-null", "%s" % c)
            elif n in ("PROD", "PBAR", "PBEAM", "PSHELL", "PSOLID", "PIHEX"):
                if c.i(1) not in mats:
                    self.say("nas-unknown-material", "%s" % c)
                if n == "PSHELL" and c.i(3) is not None and c.i(3) not in mats:
                    self.say("nas-unknown-material", "%s" % c)
            elif n in ("CONM1", "CONM2"):
                node(c, 1)
                frame(c, 2)
            elif n in ("CELAS2", "CDAMP2"):
                if node(c, 2) == node(c, 4) and c.get(3) == c.get(5):
                    self.say("nas-spring-to-itself", "%s" % c)
            elif n == "RBE2":
                m = node(c, 1)
                dep = [node(c, k) for k in range(3, len(c.f))]
                if not COMPS.match(c.get(2)) or not dep or m in dep or len(set(dep)) != len(dep):
                    self.say("nas-rbe2", "%s" % c)
            elif n == "RBAR":
                for k in (1, 2):
                    node(c, k)
            elif n == "RBE3":
                node(c, 2)
                if not COMPS.match(c.get(3)) or (len(c.f) - 4) % 3 or len(c.f) < 7:
                    self.say("nas-rbe3", "%s" % c)
                else:
                    for k in range(4, len(c.f), 3):
                        node(c, k + 2)
                        if not REAL.match(c.get(k)) or not COMPS.match(c.get(k + 1)):
                            self.say("nas-rbe3", "%s" % c)
            elif n in ("SPC", "SPC1", "SPCD", "MPC", "FORCE", "MOMENT", "GRAV", "PLOAD", "PLOAD1", "PLOAD2", "PLOAD4", "RFORCE"):
                kind = {"SPC1": "SPC", "SPC": "SPC", "MPC": "MPC"}.get(n, "LOAD")
                self.sets.setdefault(kind, set()).add(c.i(0))
                if n in ("SPC", "SPCD", "FORCE", "MOMENT", "RFORCE"):
                    node(c, 1)
                    if n[0] != "S":
                        frame(c, 2)
                elif n == "SPC1":
                    for k in range(2, len(c.f)):
                        node(c, k)
                elif n == "PLOAD":
                    for k in range(2, len(c.f)):
                        node(c, k)
                elif n == "MPC":
                    terms, k = [], 1
                    while k < len(c.f):
                        if k % 8 == 7:
                            k += 2  # the eighth field of a row and the first of the next are blank
                            continue
                        if c.get(k) == "":
                            k += 1
                            continue
                        terms.append((node(c, k), c.get(k + 1), c.get(k + 2)))
                        k += 3
                    if not terms or any(not re.match("^[0-6]$", t[1]) or not REAL.match(t[2]) or _bdf.num(t[2]) == 0 for t in terms):
                        self.say("nas-mpc", "%s" % c)
                    if len({t[:2] for t in terms}) != len(terms):
                        self.say("nas-mpc-term-twice", "%s" % c)
                elif n in ("PLOAD1", "PLOAD4") or n == "PLOAD2":
                    e = c.i(2 if n == "PLOAD2" else 1)
                    fam = {"PLOAD1": ("CBAR", "CBEAM"), "PLOAD2": ("CTRIA3", "CQUAD4", "CTRIA6", "CQUAD8"), "PLOAD4": None}[n]
                    if e not in eids:
                        self.say("nas-load-on-unknown-element", "%s" % c)
                    elif fam and eids[e].name not in fam:
                        self.say("nas-load-on-other-element", "%s: %s" % (c, eids[e]))
                    elif n == "PLOAD4":
                        solid = eids[e].name[:3] in ("CIH", "CTE", "CPE", "CPY", "CHE")
                        g = [node(c, k) for k in (6, 7) if c.get(k)]
                        if solid and not g or g and (not solid or any(x not in enodes.get(e, []) for x in g)):
                            self.say("nas-face-nodes", "%s: %s" % (c, eids[e]))
                        frame(c, 8)
        for c in cs.values():
            if c is not None:
                frame(c, 1)

    def case(self):
        head = "\n".join(l.split("$")[0].rstrip() for l in self.b.case)
        head = re.sub(r",\s*\n", ",", head)
        for w in (r"^SOL\s+\S+", r"^CEND\b"):
            if len(re.findall(w, head, re.M)) > 1:
                self.say("nas-executive-twice", w)
        sets, subs, sel = {}, [], []
        for l in head.split("\n"):
            m = re.match(r"^\s*SET\s+(\S+)\s*=\s*(.*)$", l)
            if m:
                k = m.group(1)
                if k in sets:
                    self.say("nas-set-twice", l)
                ids = [x.strip() for x in m.group(2).split(",")]
                sets[k] = ids
                if ids == [""]:
                    self.say("nas-set-empty", l)
                    continue
                if not all(INT.match(x) for x in ids):
                    self.say("nas-set-member", l)
                    continue
                ids = [int(x) for x in ids]
                if not (all(x in self.grids for x in ids) or all(x in self.eids for x in ids)):
                    if "hasn't been written" in self.console or "is not valid" in self.console:
                        continue  # the message names the objects which are missing
                    self.say("nas-set-of-unknown", l)
                self.ok("sets checked")
                continue
            m = re.match(r"^SUBCASE\s+(\d+)", l)
            if m:
                if subs and int(m.group(1)) <= subs[-1]:
                    self.say("nas-subcase-order", "%s after %s" % (l, subs))
                subs.append(int(m.group(1)))
                continue
            m = re.match(r"^\s*(\w+)(?:\(.*\))?\s*=\s*(.*?)\s*$", l)
            if not m:
                continue
            k, v = m.groups()
            if k in ("SPC", "MPC", "LOAD"):
                if not INT.match(v) or int(v) not in self.sets.get(k, ()):
                    sel.append((k, v))
                self.ok("selections checked")
            elif k in ("DISP", "STRESS"):
                if v != "ALL" and v not in sets:
                    self.say("nas-output-of-unknown-set", l)
                self.ok("selections checked")
        for k, v in sel:
            if k == "LOAD" and "Imposed displacements do not exist in this dialect" in self.console:
                continue
            self.say("nas-unknown-%s-set" % k.lower(), v)

def study(o, to):
    """checkers of the files of one translation"""
    if to == "SYSTUS":
        out = []
        for f in sorted(o.r.files()):
            m = re.match(r"^(.*)_SC(\d+)_DATA1\.ASC$", f)
            if m:
                stem, k = m.group(1), int(m.group(2))
                read = lambda name: o.r.text(name[len(o.r.stem):]) if name.startswith(o.r.stem) else None  # noqa
                out.append(Systus(read(f), read("%s_SC%d.DAT" % (stem, k)), read, stem, k, o.r.console))
        return out
    return [Nastran(o.r.text("_vg.nas"), any("modern" in x for x in o.kw.get("opts", ())), o.r.console)]
