"""Reads a generated Code_Aster command file.  The file is Python: it is executed
with stand-ins that record every command, so what is judged is what Code_Aster
would be told, not how the text is laid out."""
import ast
import math
import re


class CommError(Exception):
    pass


class F(dict):
    def __init__(self, **kw):
        super().__init__(**kw)


SAMPLES = [1.5, 4.0, 11.25]


class _Table:
    """the table of a function, as Python code of the command file reads it"""

    def __init__(self, c):
        self.c = c

    def values(self):
        f = lst(self.c.kw.get("FONCTION"))
        if self.c.cmd != "CREA_TABLE" or len(f) != 1:
            return self.c
        p = sampled(f[0]["FONCTION"])
        return {"TOUTRESU": [y for _, y in p], "FREQ": [x for x, _ in p]}

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self.c


def interp(x0, y0, x1, y1, x, ix, iy):
    if ix == "LOG":
        t = (math.log(x) - math.log(x0)) / (math.log(x1) - math.log(x0))
    else:
        t = (x - x0) / (x1 - x0)
    if iy == "LOG":
        return math.exp(math.log(y0) + t * (math.log(y1) - math.log(y0)))
    return y0 + t * (y1 - y0)


def fonction(c, x):
    """a function as Code_Aster evaluates it; ValueError where it is not defined"""
    if c.cmd == "DEFI_CONSTANTE":
        return float(c.kw["VALE"])
    if c.cmd == "CALC_FONC_INTERP":
        return fonction(c.kw["FONCTION"], x)
    if c.cmd == "CALC_FONCTION" and "COMB" in c.kw:
        return sum(float(f["COEF"]) * fonction(f["FONCTION"], x) for f in lst(c.kw["COMB"]))
    if c.cmd == "CALC_FONCTION" and "PUISSANCE" in c.kw:
        f = lst(c.kw["PUISSANCE"])[0]
        return fonction(f["FONCTION"], x) ** f.get("EXPOSANT", 1)
    if c.cmd != "DEFI_FONCTION":
        raise ValueError("function made by %s" % c.cmd)
    v = [float(q) for q in lst(c.kw["VALE"])]
    p = list(zip(v[0::2], v[1::2]))
    if any(a[0] >= b[0] for a, b in zip(p, p[1:])):
        raise ValueError("abscissas do not ascend: %s" % p)
    it = lst(c.kw.get("INTERPOL", "LIN"))
    tol = 1e-9 * max(1, abs(x))
    for side, out in (("PROL_GAUCHE", x < p[0][0] - tol), ("PROL_DROITE", x > p[-1][0] + tol)):
        if out:
            how = c.kw.get(side, "EXCLU")
            if how == "EXCLU":
                raise ValueError("undefined at %g, table %s" % (x, p))
            if how == "CONSTANT":
                return p[0 if side == "PROL_GAUCHE" else -1][1]
    if len(p) == 1:
        return p[0][1]
    k = 0
    while k < len(p) - 2 and x > p[k + 1][0]:
        k += 1
    return interp(*p[k], *p[k + 1], x, it[0], it[-1])


def sampled(c):
    """[(x, y)] of a function at its own points"""
    x = c
    while x.cmd == "CALC_FONCTION":
        x = lst(x.kw.get("COMB") or x.kw.get("PUISSANCE"))[0]["FONCTION"]
    if x.cmd == "CALC_FONC_INTERP":
        xs = [float(q) for q in lst(x.kw["VALE_PARA"])]
    else:
        xs = [float(q) for q in lst(x.kw["VALE"])[0::2]]
    out = []
    for q in xs:
        try:
            out.append((q, fonction(c, q)))
        except ValueError:
            out.append((q, float("nan")))
    return out


class Concept:
    def __init__(self, cmd, args, kw, line):
        self.cmd, self.args, self.kw, self.line = cmd, args, kw, line
        self.name = None

    def __repr__(self):
        return "<%s %s>" % (self.cmd, self.name)

    def __call__(self, *a, **k):
        return self

    def __getitem__(self, k):
        return self

    def LIST_VARI_ACCES(self):
        # what the result of a modal analysis gives: some frequencies
        return {"FREQ": list(SAMPLES), "NUME_ORDRE": [1, 2, 3], "NUME_MODE": [1, 2, 3], "INST": [0.0, 1.0]}

    def EXTR_TABLE(self):
        return _Table(self)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return self


# Every command Code_Aster itself defines that the writer may use; anything else
# called as a command is a name the file never defined.
KNOWN = set("""DEBUT FIN LIRE_MAILLAGE AFFE_MODELE DEFI_MATERIAU AFFE_MATERIAU AFFE_CARA_ELEM AFFE_CHAR_MECA
AFFE_CHAR_MECA_F AFFE_CHAR_CINE MECA_STATIQUE STAT_NON_LINE CALC_MODES CALC_CHAMP POST_ELEM IMPR_TABLE
POST_RELEVE_T DEFI_FICHIER IMPR_RESU CREA_TABLE DETRUIRE CREA_RESU CREA_CHAMP DEFI_FONCTION DEFI_LIST_REEL
DEFI_LIST_INST DEFI_COMPOSITE DEFI_CONTACT DEFI_CONSTANTE CREA_MAILLAGE MODI_MAILLAGE DEFI_GROUP
CALC_MATR_ELEM ASSE_MATRICE NUME_DDL NUME_DDL_GENE CALC_VECT_ELEM ASSE_VECTEUR PROJ_MATR_BASE PROJ_VECT_BASE
DEFI_BASE_MODALE DYNA_VIBRA DYNA_LINE_HARM DYNA_TRAN_MODAL REST_GENE_PHYS RECU_TABLE RECU_FONCTION TEST_RESU
TEST_TABLE TEST_FONCTION EXTR_MODE NORM_MODE COMB_MATR_ASSE FORMULE CALC_FONCTION IMPR_FONCTION ASSEMBLAGE
FORMULE CREA_TABLE MACR_ADAP_MAIL AFFE_CHAR_THER POURSUITE INCLUDE DEFI_MODELE INFO_MODE CALC_TABLE
IMPR_CO CO DEFI_LIST_FREQ MACR_LIGN_COUPE COMB_FOURIER MODE_STATIQUE EXTR_TABLE LIRE_CHAMP PROJ_BASE
CALC_FONC_INTERP LIRE_FONCTION PROJ_CHAMP POST_CHAMP POST_MAIL_XFEM MODI_REPERE DYNA_LINE_TRAN""".split())


class _Ns(dict):
    def __init__(self, rec):
        super().__init__()
        self.rec = rec
        self["_F"] = F

    def __missing__(self, k):
        if re.match(r"^[A-Z][A-Z0-9_]+$", k) and k in KNOWN:
            def cmd(*a, **kw):
                c = Concept(k, a, kw, None)
                self.rec.append(c)
                if k == "CO" and a:  # the command that contains it creates a concept of that name
                    c.name = a[0]
                    dict.__setitem__(self, a[0], c)
                return c
            return cmd
        import builtins
        if hasattr(builtins, k):
            return getattr(builtins, k)
        raise NameError(k)

    def __setitem__(self, k, v):
        if isinstance(v, Concept) and v.name is None:
            v.name = k
        super().__setitem__(k, v)


def lst(x):
    if x is None:
        return []
    if isinstance(x, (tuple, list)):
        return list(x)
    return [x]


class Comm:
    def __init__(self, text):
        self.text = text
        self.calls = []
        lines = text.split("\n")
        try:
            tree = ast.parse(text)
        except SyntaxError as e:
            raise CommError("not valid Python: %s: %r" % (e, lines[e.lineno - 1] if e.lineno else ""))
        ns = _Ns(self.calls)
        prev_end = 0
        for st in tree.body:
            n0 = len(self.calls)
            comments = [l.strip() for l in lines[prev_end:st.lineno - 1] if l.strip().startswith("#")]
            prev_end = st.end_lineno
            try:
                exec(compile(ast.Module([st], []), "comm", "exec"), {"__builtins__": {}}, ns)
            except Exception as e:  # noqa
                raise CommError("line %d: %s: %s" % (st.lineno, type(e).__name__, e))
            for c in self.calls[n0:]:
                c.line = st.lineno
                c.comments = comments

    def all(self, *cmds):
        return [c for c in self.calls if c.cmd in cmds]

    def one(self, cmd):
        a = self.all(cmd)
        if len(a) != 1:
            raise CommError("%d %s commands" % (len(a), cmd))
        return a[0]

    # ---- views -----------------------------------------------------------
    def modelisation(self):
        """{group: [modelisation, ...]}"""
        out = {}
        for f in lst(self.one("AFFE_MODELE").kw.get("AFFE")):
            for g in lst(f.get("GROUP_MA")) + lst(f.get("MAILLE")):
                out.setdefault(g, []).append(tuple(lst(f.get("MODELISATION"))))
        return out

    def material_of(self):
        """{group: DEFI_MATERIAU concept or composite}"""
        out = {}
        for c in self.all("AFFE_MATERIAU"):
            for f in lst(c.kw.get("AFFE")):
                for g in lst(f.get("GROUP_MA")) + lst(f.get("MAILLE")) + (["*"] if f.get("TOUT") else []):
                    out.setdefault(g, []).append(f.get("MATER"))
        return out

    def cara(self, kind):
        """[(groups, entry)] of AFFE_CARA_ELEM"""
        out = []
        for c in self.all("AFFE_CARA_ELEM"):
            for f in lst(c.kw.get(kind)):
                out.append((lst(f.get("GROUP_MA")) + lst(f.get("MAILLE")), f))
        return out

    def charges(self):
        """AFFE_CHAR_* concepts by name"""
        return {c.name: c for c in self.all("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F", "AFFE_CHAR_CINE")}

    def analyses(self):
        """[(original id or None, concept)] in file order"""
        out = []
        for c in self.all("MECA_STATIQUE", "STAT_NON_LINE", "CALC_MODES", "CREA_RESU"):
            if c.kw.get("reuse") is not None:
                continue
            oid = None
            for k in c.comments:
                m = re.match(r"# Analysis original id : (\d+)", k)
                if m:
                    oid = int(m.group(1))
            out.append((oid, c))
        return out

    def original_ids(self, concept):
        """ids in the comments above a concept"""
        out = []
        for k in concept.comments:
            m = re.search(r"original_id=(\d+)", k)
            if m:
                out.append(int(m.group(1)))
        return out


def parse(text):
    if text is None:
        raise CommError("no .comm file")
    return Comm(text)


def node(n):
    """'N12' -> 12"""
    m = re.match(r"^N(\d+)$", n)
    if not m:
        raise CommError("not a node name: %r" % (n,))
    return int(m.group(1))
