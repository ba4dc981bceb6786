"""What Code_Aster would do with a command file before any computation: every concept exists when it
is used, has the right type, is created once, has a legal name; every group, cell and node exists in
the mesh; every list has the length its keyword demands; every element has what its modelling needs."""
import comm as _comm
import re
from check import Violation

DIM = {"POINT1": 0, "SEG2": 1, "SEG3": 1, "TRI3": 2, "TRI6": 2, "QUAD4": 2, "QUAD8": 2, "TETRA4": 3, "TETRA10": 3,
       "PENTA6": 3, "PENTA15": 3, "PYRA5": 3, "PYRA13": 3, "HEXA8": 3, "HEXA20": 3, "PO1": 0}

# modelisation -> (cell dimensions it can be put on, dofs of its nodes)
ROT = frozenset("DX DY DZ DRX DRY DRZ".split())
TRA = frozenset("DX DY DZ".split())
MODEL = {
    "3D": ({3, 2}, TRA), "3D_SI": ({3, 2}, TRA), "DKT": ({2}, ROT), "DKTG": ({2}, ROT), "COQUE_3D": ({2}, ROT), "DST": ({2}, ROT),
    "Q4G": ({2}, ROT), "POU_D_T": ({1}, ROT), "POU_D_E": ({1}, ROT), "POU_D_T_GD": ({1}, ROT), "POU_D_TGM": ({1}, ROT),
    "BARRE": ({1}, TRA), "DIS_T": ({0, 1}, TRA), "DIS_TR": ({0, 1}, ROT), "2D_DIS_T": ({0, 1}, frozenset(["DX", "DY"])),
}
# number of values of each discrete matrix: {CARA: length}
NVAL = {"K_T_D_N": 3, "K_TR_D_N": 6, "K_T_D_L": 3, "K_TR_D_L": 6, "K_T_N": 6, "K_TR_N": 21, "K_T_L": 21, "K_TR_L": 78,
        "M_T_D_N": 1, "M_TR_D_N": 10, "M_T_D_L": 1, "M_TR_D_L": 6, "M_T_N": 6, "M_TR_N": 21, "M_T_L": 21, "M_TR_L": 78,
        "A_T_D_N": 3, "A_TR_D_N": 6, "A_T_D_L": 3, "A_TR_D_L": 6, "A_T_N": 6, "A_TR_N": 21, "A_T_L": 21, "A_TR_L": 78}

LENIENT = {"DEFI_FICHIER"}      # gives an integer, not a concept
KIND = {   # keyword -> commands whose result it takes
    "MAILLAGE": {"LIRE_MAILLAGE", "CREA_MAILLAGE", "MODI_MAILLAGE", "DEFI_GROUP"},
    "MODELE": {"AFFE_MODELE"},
    "CHAM_MATER": {"AFFE_MATERIAU"},
    "CARA_ELEM": {"AFFE_CARA_ELEM"},
    "CHARGE": {"AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F", "AFFE_CHAR_CINE"},
    "CONTACT": {"DEFI_CONTACT"},
    "MATER": {"DEFI_MATERIAU", "DEFI_COMPOSITE"},
    "NUME_DDL": {"NUME_DDL"},
    "MATR_ELEM": {"CALC_MATR_ELEM"},
    "VECT_ELEM": {"CALC_VECT_ELEM"},
    "MATR_ASSE": {"ASSE_MATRICE", "COMB_MATR_ASSE"},
    "VECT_ASSE": {"ASSE_VECTEUR"},
    "RIGI_MECA": {"CALC_MATR_ELEM"}, "MASS_MECA": {"CALC_MATR_ELEM"},
    "FONC_MULT": {"DEFI_FONCTION", "DEFI_CONSTANTE", "FORMULE", "CALC_FONCTION"},
    "LIST_INST": {"DEFI_LIST_INST", "DEFI_LIST_REEL"},
    "LIST_FREQ": {"DEFI_LIST_REEL", "DEFI_LIST_FREQ"},
    "MODE": {"CALC_MODES", "EXTR_MODE", "NORM_MODE"},
    "TABLE": {"CREA_TABLE", "POST_RELEVE_T", "POST_ELEM", "RECU_TABLE", "CALC_TABLE"},
    "EVOL_NOLI": {"STAT_NON_LINE"},
    "RESU_GENE": {"DYNA_VIBRA"},
}
RESULTS = {"MECA_STATIQUE", "STAT_NON_LINE", "CALC_MODES", "EXTR_MODE", "CALC_CHAMP", "CREA_RESU", "DYNA_VIBRA", "REST_GENE_PHYS", "NORM_MODE", "POST_CHAMP"}


class Checker:
    def __init__(self, out):
        self.comm = out.comm
        self.med = out.med
        self.out = out
        self.alive = {}
        self.dead = {}
        self.problems = []
        self.seen = {"commands": 0, "concepts": 0, "group references": 0, "concept references": 0}

    def bad(self, key, text, c=None):
        self.problems.append((key, text + (" (line %s)" % c.line if c is not None else "")))

    def use(self, kw, x, c):
        self.seen["concept references"] += 1
        n = x.name
        if n is not None and n in self.dead and n not in self.alive:
            self.bad("concept-used-after-destruction", "%s uses %s" % (c.cmd, n), c)
        if kw in KIND and x.cmd != "CO" and self.cmds(x).isdisjoint(KIND[kw]) and not (kw == "MODE" and x.cmd in RESULTS):
            self.bad("wrong-kind-of-concept", "%s of %s is %s, the result of %s" % (kw, c.cmd, n, x.cmd), c)
        if kw == "RESULTAT" and x.cmd != "CO" and x.cmd not in RESULTS:
            self.bad("wrong-kind-of-concept", "RESULTAT of %s is %s, the result of %s" % (c.cmd, n, x.cmd), c)

    def cmds(self, x):
        r = {x.cmd}
        while isinstance(x.kw.get("reuse"), _comm.Concept):
            x = x.kw["reuse"]
            r.add(x.cmd)
        return r

    def walk(self, c, kw, v, f):
        if isinstance(v, _comm.Concept):
            f(kw, v)
        elif isinstance(v, dict):
            for k, x in v.items():
                self.walk(c, k, x, f)
        elif isinstance(v, (tuple, list)):
            for x in v:
                self.walk(c, kw, x, f)
        else:
            f(kw, v)

    def groups(self, c):
        def f(kw, v):
            if not isinstance(v, str):
                return
            if kw in ("GROUP_MA", "GROUP_MA_MAIT", "GROUP_MA_ESCL", "GROUP_MA_1", "GROUP_MA_ESCLAVE", "GROUP_MA_MAITRE"):
                self.seen["group references"] += 1
                if v in self.newgroups:
                    return
                if not self.med.cellgroups.get(v) and not (re.match(r"^M\d+$", v) and self.med.members(v)):
                    self.bad("missing-cell-group", "%s names the group %s" % (c.cmd, v), c)
                elif len(v) > 24:
                    self.bad("long-group-name", v, c)
            elif kw == "MAILLE":
                self.seen["group references"] += 1
                if not self.med.members(v):
                    self.bad("missing-cell", "%s names the cell %s" % (c.cmd, v), c)
            elif kw == "GROUP_NO" or kw.startswith("GROUP_NO_"):
                self.seen["group references"] += 1
                if v in self.newgroups:
                    return
                if not self.med.nodegroups.get(v) and not self.is_node(v):
                    self.bad("missing-node-group", "%s names the group %s" % (c.cmd, v), c)
                elif len(v) > 24:
                    self.bad("long-group-name", v, c)
            elif kw in ("NOEUD", "NOEUD_ORIG", "NOEUD_MAIT"):
                self.seen["group references"] += 1
                if not self.is_node(v):
                    self.bad("missing-node", "%s names the node %s" % (c.cmd, v), c)
        for k, v in c.kw.items():
            self.walk(c, k, v, f)

    def is_node(self, v):
        m = re.match(r"^N(\d+)$", v)
        return bool(m) and 1 <= int(m.group(1)) < len(self.med.coords)

    def lengths(self, c):
        if c.cmd in ("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F"):
            for f in _comm.lst(c.kw.get("LIAISON_DDL")):
                n = [len(_comm.lst(f.get(k))) for k in ("NOEUD", "DDL", "COEF_MULT") if k in f]
                if len(set(n)) != 1 or not n[0]:
                    self.bad("relation-of-unequal-lists", "%s" % (dict(f),), c)
                if len(_comm.lst(f.get("COEF_IMPO"))) != 1:
                    self.bad("relation-without-value", "%s" % (dict(f),), c)
            for f in _comm.lst(c.kw.get("LIAISON_RBE3")):
                n = len(_comm.lst(f.get("NOEUD_ESCL")) + _comm.lst(f.get("GROUP_NO_ESCL")))
                if len(_comm.lst(f.get("COEF_ESCL"))) not in (1, n) or len(_comm.lst(f.get("DDL_ESCL"))) not in (1, n):
                    self.bad("relation-of-unequal-lists", "%s" % (dict(f),), c)
        if c.cmd == "AFFE_CARA_ELEM":
            for kind in ("DISCRET", "RIGI_PARASOL", "DISCRET_2D"):
                for f in _comm.lst(c.kw.get(kind)):
                    n = NVAL.get(f.get("CARA"))
                    if n is None:
                        self.bad("unknown-discrete", "%s" % (dict(f),), c)
                    elif len(_comm.lst(f.get("VALE"))) != n:
                        self.bad("discrete-values", "%s has %d values" % (f.get("CARA"), len(_comm.lst(f.get("VALE")))), c)
            for kind in ("POUTRE", "BARRE"):
                for f in _comm.lst(c.kw.get(kind)):
                    if len(_comm.lst(f.get("CARA"))) != len(_comm.lst(f.get("VALE"))) or not f.get("CARA"):
                        self.bad("section-values", "%s" % (dict(f),), c)
        if c.cmd == "DEFI_LIST_REEL" and "VALE" in c.kw:
            v = _comm.lst(c.kw["VALE"])
            if not v:
                self.bad("empty-list", c.name or "", c)
        if c.cmd == "DEFI_FONCTION" and "VALE" in c.kw:
            v = _comm.lst(c.kw["VALE"])
            x = v[0::2]
            if len(v) % 2 or not v:
                self.bad("odd-function", c.name or "", c)
            if any(a >= b for a, b in zip(x, x[1:])):
                self.bad("function-not-ascending", "%s %s" % (c.name, x[:8]), c)

    def run(self):
        self.newgroups = set()
        made = set()
        for c in self.comm.calls:
            self.seen["commands"] += 1
            for k, v in c.kw.items():
                if k == "reuse" or c.cmd == "DETRUIRE":
                    continue
                self.walk(c, k, v, lambda kw, x: self.use(kw, x, c) if isinstance(x, _comm.Concept) and x.cmd != "CO" else None)
            self.groups(c)
            self.lengths(c)

            def co(kw, x):
                if isinstance(x, _comm.Concept) and x.cmd == "CO" and x.args[0] not in made:
                    made.add(x.args[0])
                    self.create(x.args[0], c, x)
            for k, v in c.kw.items():
                self.walk(c, k, v, co)
            if c.cmd in ("DEFI_GROUP", "CREA_MAILLAGE"):
                self.walk(c, "", c.kw, lambda kw, x: self.newgroups.add(x) if kw == "NOM" and isinstance(x, str) else None)
            if c.cmd == "DETRUIRE":
                for f in _comm.lst(c.kw.get("CONCEPT")):
                    for x in _comm.lst(f.get("NOM")):
                        if isinstance(x, _comm.Concept):
                            self.destroy(x.args[0] if x.cmd == "CO" else x.name, c)
            name = c.name
            if c.cmd in ("CO", "DEBUT", "FIN", "DETRUIRE") or c.cmd in LENIENT:
                if c.cmd in LENIENT and name:
                    self.alive[name] = c
                continue
            if name is None:
                continue
            ru = c.kw.get("reuse")
            if ru is not None:
                if name not in self.alive:
                    self.bad("reuse-of-missing-concept", "%s %s" % (c.cmd, name), c)
                elif ru.name != name:
                    self.bad("reuse-of-another-concept", "%s %s=%s" % (c.cmd, name, ru.name), c)
            else:
                self.create(name, c, c)
        return self.problems

    def create(self, name, c, obj):
        self.seen["concepts"] += 1
        if len(name) > 8:
            self.bad("long-concept-name", "%s = %s" % (name, c.cmd), c)
        if name in self.alive:
            self.bad("concept-created-twice", "%s = %s" % (name, c.cmd), c)
        self.alive[name] = obj
        self.dead.pop(name, None)

    def destroy(self, name, c):
        if name not in self.alive:
            self.bad("missing-concept-destroyed", "%s" % name, c)
        self.alive.pop(name, None)
        self.dead[name] = c


class Coverage:
    """every cell of the model has what its modelling needs"""

    def __init__(self, out):
        self.comm, self.med = out.comm, out.med
        self.problems = []
        self.cells = 0

    def bad(self, key, text):
        self.problems.append((key, text))

    def set_of(self, names):
        s = set()
        for n in names:
            s |= self.med.members(n) or set()
        return s

    def run(self):
        model = {}
        for g, ms in self.comm.modelisation().items():
            for m in ms:
                if len(m) != 1 and m != ("3D", "3D_SI"):  # 3D_SI where it exists for the cell, otherwise 3D
                    self.bad("several-modelisations", "%s %s" % (g, m))
                for c in self.med.members(g) or ():
                    model.setdefault(c, []).append((m[0], g))
        mat = set()
        for g, m in self.comm.material_of().items():
            if g == "*":
                mat |= set(self.med.cells)
            else:
                mat |= self.med.members(g) or set()
        cara = {}
        for k in ("POUTRE", "BARRE", "COQUE", "DISCRET", "MASSIF"):
            cara[k] = self.set_of(n for ns, _ in self.comm.cara(k) for n in ns)
        dofs = {}
        for c, ms in model.items():
            self.cells += 1
            last = ms[-1][0]
            if len(set(m for m, _ in ms)) > 1:
                self.bad("cell-modelled-twice", "%s %s" % (c, ms))
            if last not in MODEL:
                self.bad("unknown-modelisation", "%s" % last)
                continue
            dims, d = MODEL[last]
            if DIM[c[0]] not in dims:
                self.bad("modelisation-of-wrong-dimension", "%s on %s, group %s" % (last, c, ms[-1][1]))
            for n in self.med.cells[c][1]:
                dofs.setdefault(n, set()).update(d)
            need = None
            if last.startswith("POU"):
                need = "POUTRE"
            elif last == "BARRE":
                need = "BARRE"
            elif last in ("DKT", "DKTG", "COQUE_3D", "DST", "Q4G"):
                need = "COQUE"
            elif last.startswith("DIS_"):
                need = "DISCRET"
            if need and c not in cara[need]:
                self.bad("no-" + need.lower(), "cell %s of group %s modelled as %s" % (c, ms[-1][1], last))
            if not last.startswith("DIS_") and DIM[c[0]] == max(dims) and c not in mat:
                self.bad("no-material", "cell %s of group %s modelled as %s" % (c, ms[-1][1], last))
        for k, need in (("POUTRE", "POU"), ("BARRE", "BARRE")):
            for c in cara[k]:
                if c in model and not model[c][-1][0].startswith(need):
                    self.bad("section-on-other-modelisation", "%s on %s" % (k, model[c]))
        self.dofs = dofs
        return self.problems

    def imposed(self):
        """degrees of freedom that conditions name on nodes without them"""
        def nodes(f):
            ns = []
            for g in _comm.lst(f.get("GROUP_NO")):
                ns += list(self.med.nodegroups.get(g, ())) or ([_comm.node(g)] if re.match(r"^N\d+$", g) else [])
            for n in _comm.lst(f.get("NOEUD")):
                ns.append(_comm.node(n))
            return ns
        for c in self.comm.all("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F"):
            for f in _comm.lst(c.kw.get("LIAISON_DDL")):
                for n, d in zip(_comm.lst(f.get("NOEUD")), _comm.lst(f.get("DDL"))):
                    if d not in self.dofs.get(_comm.node(n), ()):
                        self.bad("relation-on-missing-dof", "%s of %s" % (d, n))
            for f in _comm.lst(c.kw.get("DDL_IMPO")):
                for d in ROT & set(f):
                    for n in nodes(f):
                        if d not in self.dofs.get(n, ()):
                            self.bad("imposed-missing-dof", "%s of node %d" % (d, n))
            for f in _comm.lst(c.kw.get("FORCE_NODALE")):
                for k, d in (("FX", "DX"), ("FY", "DY"), ("FZ", "DZ"), ("MX", "DRX"), ("MY", "DRY"), ("MZ", "DRZ")):
                    if f.get(k):
                        for n in nodes(f):
                            if d not in self.dofs.get(n, ()):
                                self.bad("force-on-missing-dof", "%s of node %d" % (k, n))
        return self.problems
