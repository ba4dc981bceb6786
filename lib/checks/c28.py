"""C28: frequency responses keep their complex excitation, their frequencies, their modal base and damping."""
from fem import *  # noqa
import cmath
import comm as _comm
import kine
from comm import lst, node, Concept, interp
from checks.c15 import FC, systus_nodal

LEVEL = "exploration"
SAMPLES = _comm.SAMPLES


class M:
    pass


# ---------------------------------------------------------------- tables
def table(t, x):
    """TABLED1: interpolation inside, extrapolation of the end segments outside"""
    p = sorted(t["xy"])
    k = 0
    while k < len(p) - 2 and x > p[k + 1][0]:
        k += 1
    return interp(*p[k], *p[k + 1], x, t["ix"], t["iy"])


def fonction(c, x):
    if c.cmd == "DEFI_FONCTION" and c.kw.get("NOM_PARA") != "FREQ":
        raise Violation("excitation-function", "function of %s" % c.kw.get("NOM_PARA"))
    try:
        return _comm.fonction(c, x)
    except ValueError as e:
        raise Violation("excitation-function", str(e))


def list_reel(c):
    """DEFI_LIST_REEL expanded"""
    if c.cmd != "DEFI_LIST_REEL":
        raise Violation("frequency-list", "made by %s" % c.cmd)
    if "VALE" in c.kw:
        v = [float(x) for x in lst(c.kw["VALE"])]
    else:
        v = [float(c.kw["DEBUT"])]
        for f in lst(c.kw["INTERVALLE"]):
            a, b = v[-1], float(f["JUSQU_A"])
            n = int(f["NOMBRE"]) if "NOMBRE" in f else int(round((b - a) / float(f["PAS"])))
            v += [a + (b - a) * k / n for k in range(1, n + 1)]
    if any(a >= b for a, b in zip(v, v[1:])):
        raise Violation("frequency-list", "not ascending: %s" % v)
    return v


# ---------------------------------------------------------------- decks
def build(rng, to="ASTER", delay=False, phasetable=False, manyfreq=False, simple=False, constant=False, many=False):
    """simple: what Systus can express (one constant-phase excitation, regular frequencies)"""
    d = Deck(sol=None)
    m = M()
    m.modal = simple or many or rng.random() < .6
    d.exec = ["SOL " + (rng.choice(["111", "SEMFREQ"]) if m.modal else rng.choice(["108", "SEDFREQ"]))]
    nb = rng.randint(3, 6)
    nid = ids(rng, nb + 1)
    m.coords = {n: (round(1.2 * k + rng.uniform(-.2, .2), 3), dec(rng, -1, 1, 3), dec(rng, -1, 1, 3)) for k, n in enumerate(nid)}
    cards = [("GRID", [n, None] + list(m.coords[n])) for n in nid]
    cards += [("MAT1", [1, 2.1e11, None, .3, 7800.]), ("PBAR", [1, 1, .01, 1e-5, 1e-5, 2e-5])]
    for k in range(nb):
        cards.append(("CBAR", [k + 1, 1, nid[k], nid[k + 1], 0.1, 0.2, 1.]))
    m.spc = {}
    for s in ids(rng, 2 if many else 1 if simple or rng.random() < .5 else 2, hi=50):
        m.spc[s] = [nid[0]] + ([nid[1]] if len(m.spc) else [])
        cards.append(("SPC1", [s, 123456] + m.spc[s]))
    free = nid[2:] if len(m.spc) > 1 else nid[1:]
    # tables
    tabs = {}
    m.log = False
    for t in ids(rng, 1 if simple else rng.randint(1, 3), hi=300):
        k = rng.randint(2, 5)
        xs = sorted({dec(rng, 1, 100, 3) for _ in range(k)} | {150.})
        const = constant or (simple and rng.random() < .3)
        log = not simple and rng.random() < .2
        y0 = dec(rng, .5, 5, 3)
        xy = [(x, y0 if const else dec(rng, .5, 5, 3) * (1 if log else rng.choice([1, 1, -1]))) for x in xs]
        tabs[t] = {"xy": xy, "ix": "LIN", "iy": "LIN"}
        f = [t]
        if log:
            m.log = True
            tabs[t]["ix"], tabs[t]["iy"] = rng.choice([("LOG", "LOG"), ("LIN", "LOG"), ("LOG", "LIN")])
            f += ["LOG" if tabs[t]["ix"] == "LOG" else None, "LOG" if tabs[t]["iy"] == "LOG" else None]
        f += [None] * (8 - len(f))
        for x, y in xy:
            f += [x, y]
            if rng.random() < .1:
                f += ["SKIP", "SKIP"]
        cards.append(("TABLED1", f + ["ENDT"]))
    m.tabs = tabs
    # excited freedoms
    exc, kind = {}, {}
    for s in ids(rng, rng.randint(1, 3), hi=400):
        e = exc[s] = {}
        kind[s] = "DAREA" if simple or rng.random() < .75 else "FORCE"
        many = rng.randint(1, 3)
        for _ in range(many):
            n = rng.choice(free)
            a = e.setdefault(n, [0.] * 6)
            if kind[s] == "DAREA":
                c, v = rng.randrange(6), dec(rng, .5, 9, 3) * rng.choice([1, -1])
                if not a[c]:
                    a[c] = v
                    cards.append(("DAREA", [s, n, c + 1, v]))
            else:
                c, v = rng.randrange(3), dec(rng, .5, 9, 3)
                a[c] += v
                cards.append(("FORCE", [s, n, None, v] + [1. if q == c else 0. for q in range(3)]))
        if kind[s] == "DAREA" and rng.random() < .4:  # two entries on one card
            x = [i for i, c in enumerate(cards) if c[0] == "DAREA" and c[1][0] == s]
            if len(x) >= 2:
                cards[x[0]][1].extend(cards[x[1]][1][1:])
                del cards[x[1]]
    m.delayed = m.phased = False
    rl = {}
    nr = 1 if simple else rng.randint(1, 4)
    rid = ids(rng, nr, hi=500)
    for k in range(nr):
        sid = rid[k] if k == 0 or rng.random() < .8 else rid[k - 1]
        two = rng.random() < .5
        s = rng.choice(list(exc))
        tb = rng.choice(list(tabs))
        th = 0. if simple or rng.random() < .3 else dec(rng, -180, 180, 2)
        thf = th if th else None
        if th and kind[s] == "DAREA" and sum(1 for v in exc[s].values() for x in v if x) == 1 and rng.random() < .5:
            pid = 700 + k
            n, c = next((n, c) for n, v in exc[s].items() for c in range(6) if v[c])
            cards.append(("DPHASE", [pid, n, c + 1, th]))
            thf = pid
        tau = 0.
        if delay and rng.random() < .7:
            tau = dec(rng, 1e-4, 5e-3, 2)
            m.delayed = True
        f = [sid, s, tau if tau else None, thf, tb]
        tp = None
        if phasetable and two and rng.random() < .7:
            tp = rng.choice(list(tabs))
            m.phased = True
        f += [tp, rng.choice([None, "LOAD", "L", 0])]
        cards.append(("RLOAD2" if two else "RLOAD1", f))
        rl.setdefault(sid, []).append({"exc": s, "tau": tau, "th": th, "tab": tb, "tp": tp})
    comb = {}
    for s in ids(rng, rng.randint(0, 2), hi=600, lo=501):
        S = dec(rng, .5, 3, 3)
        terms = [(dec(rng, .5, 4, 3) * (1 if m.log else rng.choice([1, -1])), r) for r in rng.sample(list(rl), rng.randint(1, len(rl)))]
        if rng.random() < .2:
            S = 1.
            terms = [(1., r) for _, r in terms]
        comb[s] = (S, terms)
        f = [s, S]
        for a, r in terms:
            f += [a, r]
        cards.append(("DLOAD", f))
    m.rl, m.exc, m.comb, m.kind = rl, exc, comb, kind
    # frequencies
    m.freq = {}
    m.step, m.cards = {}, {}
    for s in ids(rng, rng.randint(1, 2), hi=800):
        fs = set()
        m.cards[s] = []
        for _ in range(rng.randint(2, 3) if manyfreq else 1):
            if simple or rng.random() < .5:
                a, st, n = dec(rng, 1, 20, 3), dec(rng, .5, 6, 2), rng.choice([None, rng.randint(1, 20)])
                cards.append(("FREQ1", [s, a, st, n]))
                m.cards[s].append([a + st * k for k in range((n or 1) + 1)])
                m.step[s] = (a, st, n or 1)
            else:
                v = sorted({dec(rng, 1, 140, 3) for _ in range(rng.randint(1, 9))})
                cards.append(("FREQ", [s] + (v if rng.random() < .5 else rng.sample(v, len(v)))))
                m.cards[s].append(v)
            fs |= set(m.cards[s][-1])
        m.freq[s] = sorted(fs)
    # modal base and damping
    m.method, m.damp = {}, {}
    for s in ids(rng, 2 if many else rng.randint(1, 2), hi=900):
        m.method[s] = rng.randint(2, 12)
        cards.append(("EIGRL", [s, None, None, m.method[s]]))
    for s in ids(rng, rng.randint(1, 2), hi=1000):
        t = rng.choice([None, "G", "CRIT", "Q"])
        xs = sorted({dec(rng, .1, 1, 3), 2000.} | {dec(rng, 2, 90, 3) for _ in range(0 if simple else rng.randint(0, 3))})
        y0 = dec(rng, 5, 60, 3) if t == "Q" else dec(rng, .005, .2, 3)
        xy = [(x, y0 if simple else (dec(rng, 5, 60, 3) if t == "Q" else dec(rng, .005, .2, 3))) for x in xs]
        m.damp[s] = (t or "G", xy)
        f = [s, t] + [None] * 6
        for x, y in xy:
            f += [x, y]
        cards.append(("TABDMP1", f + ["ENDT"]))
    # case control
    use = ["SPC", "DLOAD", "FREQ"] + (["METHOD", "SDAMPING"] if m.modal else [])
    pools = {"SPC": list(m.spc), "DLOAD": list(comb) + list(rl), "FREQ": list(m.freq), "METHOD": list(m.method), "SDAMPING": list(m.damp) + [None]}
    name = {"FREQ": rng.choice(["FREQ", "FREQUENCY"]), "SDAMPING": "SDAMPING"}
    glob = {}
    for k in use:
        if rng.random() < (.25 if many and k in ("SPC", "METHOD") else .5):
            glob[k] = rng.choice(pools[k])
            if glob[k] is None:
                del glob[k]
                continue
            d.case.append("%s = %d" % (name.get(k, k), glob[k]))
    m.subs = []
    scid = 0
    for _ in range(1 if simple else rng.randint(4, 6) if many else rng.randint(1, 3)):
        scid += rng.randint(1, 4)
        s = M()
        s.id, s.sel = scid, dict(glob)
        body = []
        for k in use:
            if k not in glob or rng.random() < .4:
                v = rng.choice(pools[k])
                if v is None:
                    continue
                s.sel[k] = v
                body.append("  %s = %d" % (name.get(k, k), v))
        rng.shuffle(body)
        d.case += ["SUBCASE %d" % scid] + (body or ["  ECHO = NONE"])
        m.subs.append(s)
    rng.shuffle(cards)
    for c in cards:
        d.add(c[0], *c[1])
    return d, m


def expected(m, sel, f, delay=True, phase=True, memo=None):
    """{(node, component): complex force} at f"""
    out = {}
    S, terms = m.comb.get(sel["DLOAD"], (1., [(1., sel["DLOAD"])]))
    for a, r in terms:
        for x in m.rl[r]:
            z = S * a * table(m.tabs[x["tab"]], f) * cmath.exp(1j * math.radians(x["th"]))
            if delay:
                z *= cmath.exp(-2j * math.pi * f * x["tau"])
            if phase and x["tp"]:
                z *= cmath.exp(1j * math.radians(table(m.tabs[x["tp"]], f)))
            for n, v in m.exc[x["exc"]].items():
                for c in range(6):
                    if v[c]:
                        out[(n, c)] = out.get((n, c), 0) + z * v[c]
    return out


def damping(kind, xy, f):
    y = table({"xy": xy, "ix": "LIN", "iy": "LIN"}, f) if len(xy) > 1 else xy[0][1]
    return {"G": y / 2, "CRIT": y, "Q": .5 / y if y else 0}[kind]


# ---------------------------------------------------------------- Code_Aster
def vector_charges(comm, fx):
    """charges of an assembled vector"""
    if fx.cmd != "ASSE_VECTEUR":
        raise Violation("excitation-vector", "made by %s" % fx.cmd)
    out = []
    for ve in lst(fx.kw["VECT_ELEM"]):
        if ve.cmd != "CALC_VECT_ELEM" or ve.kw.get("OPTION") != "CHAR_MECA":
            raise Violation("excitation-vector", "%s %s" % (ve.cmd, ve.kw.get("OPTION")))
        out += lst(ve.kw["CHARGE"])
    return out


def charge_forces(ch, nm, nodegroups):
    have = {}
    for k in ch.kw:
        if k not in ("MODELE", "FORCE_NODALE", "VERI_NORM", "INFO", "VERI_DDL"):
            raise Violation("excitation-vector", "charge with %s" % k)
    for g in lst(ch.kw.get("FORCE_NODALE")):
        nn = [node(x) for x in lst(g.get("NOEUD"))]
        for x in lst(g.get("GROUP_NO")):
            nn += sorted(nodegroups[x]) if x in nodegroups else [node(x)]
        for n in nn:
            for q, name in enumerate(FC):
                if g.get(name):
                    key = (nm.to_in.get(n, -n), q)
                    have[key] = have.get(key, 0.) + float(g[name])
    return have


def aster_excitation(comm, dyna, nm, nodegroups):
    """[(forces, function, phase)]"""
    out = []
    gene = {}
    for p in comm.all("PROJ_BASE"):
        for g in lst(p.kw.get("VECT_ASSE_GENE")):
            gene[g["VECTEUR"].args[0]] = (g["VECT_ASSE"], g.get("TYPE_VECT", "FORC"), p)
    for e in lst(dyna.kw.get("EXCIT")):
        if set(e) - {"VECT_ASSE", "VECT_ASSE_GENE", "FONC_MULT", "COEF_MULT", "PHAS_DEG", "PUIS_PULS"} or e.get("PUIS_PULS"):
            raise Violation("excitation-vector", "EXCIT with %s" % sorted(e))
        if "VECT_ASSE_GENE" in e:
            fx, typ, _ = gene[e["VECT_ASSE_GENE"].args[0] if e["VECT_ASSE_GENE"].cmd == "CO" else e["VECT_ASSE_GENE"].name]
            if typ != "FORC":
                raise Violation("excitation-vector", "of type " + typ)
        else:
            fx = e["VECT_ASSE"]
        v = {}
        for ch in vector_charges(comm, fx):
            for k, x in charge_forces(ch, nm, nodegroups).items():
                v[k] = v.get(k, 0.) + x
        out.append((v, e.get("FONC_MULT"), float(e.get("PHAS_DEG", 0.)), float(e.get("COEF_MULT", 1.))))
    return out


def aster_force(exc, f):
    out = {}
    for v, fn, ph, k in exc:
        z = k * (fonction(fn, f) if fn is not None else 1.) * cmath.exp(1j * math.radians(ph))
        for key, x in v.items():
            out[key] = out.get(key, 0) + z * x
    return out


def same(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 2e-5 * y for x, y in zip(a, b))


def differ(have, want, rel=2e-4):
    s = max([abs(x) for x in want.values()] + [abs(x) for x in have.values()] + [1e-9])
    bad = [(k, have.get(k, 0), want.get(k, 0)) for k in set(have) | set(want) if abs(have.get(k, 0) - want.get(k, 0)) > rel * s]
    return bad


def check_aster(ctx, o, m):
    nm = NodeMap(m.coords, med_coords(o.med))
    c = o.comm
    dy = c.all("DYNA_VIBRA")
    if len(dy) != len(m.subs):
        raise Violation("analysis-count", "%d responses for %d subcases" % (len(dy), len(m.subs)))
    known = None
    for s, d in zip(m.subs, dy):
        where = "subcase %d: " % s.id
        if d.kw.get("TYPE_CALCUL") != "HARM" or d.kw.get("BASE_CALCUL") != ("GENE" if m.modal else "PHYS"):
            raise Violation("kind-of-response", where + "%s %s" % (d.kw.get("TYPE_CALCUL"), d.kw.get("BASE_CALCUL")))
        fs = list_reel(d.kw["LIST_FREQ"])
        want = m.freq[s.sel["FREQ"]]
        if not same(fs, want):
            v = Violation("frequency-list", where + "%s for %s" % (fs, want))
            if not any(same(fs, x) for x in m.cards[s.sel["FREQ"]]):
                raise v
            v.key = "one-frequency-card"
            known = v
            want = fs
        exc = aster_excitation(c, d, nm, o.med.nodegroups)
        for f in want[:30]:
            have = aster_force(exc, f)
            bad = differ(have, expected(m, s.sel, f))
            ctx.stat("complex forces compared", len(have))
            if bad:
                v = Violation("excitation", where + "at %g Hz: (node, component), written, expected: %s" % (f, bad[:4]))
                if m.phased and not differ(have, expected(m, s.sel, f, phase=False)):
                    v = Violation("phase-table-ignored", v.detail)
                elif m.delayed and not differ(have, expected(m, s.sel, f, delay=False)):
                    v = Violation("delay-ignored", v.detail)
                elif m.delayed and m.phased and not differ(have, expected(m, s.sel, f, delay=False, phase=False)):
                    v = Violation("phase-table-ignored", v.detail)
                else:
                    raise v
                known = v
        if m.modal:
            base(ctx, c, d, m, s, where, nm, o.med.nodegroups)
        else:
            for k in ("MATR_RIGI", "MATR_MASS", "MATR_AMOR"):
                if k != "MATR_AMOR" or k in d.kw:
                    supports(ctx, c, nm, o.med.nodegroups, m, s, k, d.kw[k])
            for e in lst(d.kw.get("EXCIT")):
                supports(ctx, c, nm, o.med.nodegroups, m, s, "VECT_ASSE", e["VECT_ASSE"])
    if known:
        raise known


def supports(ctx, c, nm, groups, m, s, what, matrix):
    """the constraints an assembled matrix or vector is numbered and computed with"""
    ch = c.charges()
    at = [matrix.kw["NUME_DDL"]]
    if "MATR_ELEM" in matrix.kw:
        e = matrix.kw["MATR_ELEM"]
        opt = {"MATR_RIGI": "RIGI_MECA", "MATR_MASS": "MASS_MECA", "MATR_AMOR": "AMOR_MECA"}[what]
        if matrix.cmd != "ASSE_MATRICE" or e.kw["OPTION"] != opt:
            raise Violation("matrix", "subcase %d: %s from %s %s" % (s.id, what, matrix.cmd, e.kw["OPTION"]))
        if what != "MATR_AMOR":
            at.append(e)
    want = {(n, k) for n in m.spc[s.sel["SPC"]] for k in range(1, 7)}
    for x in at:
        have = set()
        for g in lst(x.kw.get("CHARGE")):
            for r, v in kine.charge_rows(ch[g.name], nm.to_in, m.coords, groups):
                if len(r) != 1 or v:
                    raise Violation("supports", "subcase %d: %s has the equation %s = %s" % (s.id, what, r, v))
                have |= set(r)
        ctx.stat("sets of supports compared")
        if have != want:
            raise Violation("supports", "subcase %d (SPC %d): %s is made with %s fixed by mistake and %s free" %
                            (s.id, s.sel["SPC"], what, sorted(have - want)[:6], sorted(want - have)[:6]))


def base(ctx, c, d, m, s, where, nm, groups):
    """the modes and the damping of a modal response"""
    gene = [p for p in c.all("PROJ_BASE") if any(isinstance(x.get("MATRICE"), Concept) and x["MATRICE"].args[0] == d.kw["MATR_RIGI"].name
                                                 for x in lst(p.kw.get("MATR_ASSE_GENE")))]
    if len(gene) != 1:
        raise Violation("modal-base", where + "stiffness %s projected %d times" % (d.kw["MATR_RIGI"].name, len(gene)))
    b = gene[0].kw["BASE"]
    if b.cmd == "DEFI_BASE_MODALE":
        b = lst(b.kw["RITZ"])[0]["MODE_MECA"]
    if b.cmd == "EXTR_MODE":
        b = lst(b.kw["FILTRE_MODE"])[0]["MODE"]
    if b.cmd != "CALC_MODES":
        raise Violation("modal-base", where + "made by " + b.cmd)
    for k in ("MATR_RIGI", "MATR_MASS"):
        supports(ctx, c, nm, groups, m, s, k, b.kw[k])
    for x in lst(gene[0].kw.get("MATR_ASSE_GENE")):
        a = x["MATR_ASSE"]
        supports(ctx, c, nm, groups, m, s, {"RIGI_MECA": "MATR_RIGI", "MASS_MECA": "MATR_MASS", "AMOR_MECA": "MATR_AMOR"}[a.kw["MATR_ELEM"].kw["OPTION"]], a)
    for x in lst(gene[0].kw.get("VECT_ASSE_GENE")):
        supports(ctx, c, nm, groups, m, s, "VECT_ASSE", x["VECT_ASSE"])
    n = lst(b.kw.get("CALC_FREQ"))[0].get("NMAX_FREQ")
    if b.kw.get("OPTION", "PLUS_PETITE") != "PLUS_PETITE" or n != m.method[s.sel["METHOD"]]:
        raise Violation("modal-base", where + "%s %s modes for %d" % (b.kw.get("OPTION"), n, m.method[s.sel["METHOD"]]))
    sd = s.sel.get("SDAMPING")
    am = [x.get("AMOR_REDUIT") for x in lst(d.kw.get("AMOR_MODAL"))]
    if (sd is None) != (not am):
        raise Violation("modal-damping", where + "%s for SDAMPING %s" % (am, sd))
    if sd is None:
        return
    # AMOR_REDUIT is Python, made from the table of a function at the frequencies of the modes (stand-ins: SAMPLES)
    typ, xy = m.damp[sd]
    have = lst(am[0])
    if len(am) != 1 or len(have) != len(SAMPLES) or not all(isinstance(x, float) for x in have):
        raise Violation("modal-damping", where + "%r" % (am,))
    for f, y in zip(SAMPLES, have):
        want = damping(typ, xy, f)
        ctx.stat("dampings compared")
        if not close(y, want, 1e-4):
            raise Violation("modal-damping", where + "%g at %g Hz, %s gives %g" % (y, f, typ, want))


# ---------------------------------------------------------------- Systus
def check_systus(ctx, o, m, method):
    a = o.asc(1)
    if o.r.text("_SC2_DATA1.ASC") is not None:
        raise Violation("analysis-count", "two Systus subcases for one subcase")
    dat = o.r.text("_SC1.DAT")
    s = m.subs[0]
    lines = [l.split("#")[0].split() for l in dat.split("\n")]
    # frequencies
    f = next((i for i, l in enumerate(lines) if l[:2] == ["FREQUENCY", "INITIAL"]), None)
    if f is None or len(lines[f + 1]) != 3 or lines[f + 1][1] != "STEP":
        raise Violation("frequency-list", "no range in the DAT file")
    start, end, step = float(lines[f][2]), float(lines[f + 1][0]), float(lines[f + 1][2])
    x, st, n = m.step[s.sel["FREQ"]]
    if not (close(start + step, x, 1e-4) and close(step, st, 1e-4) and close(end, x + st * n, 1e-4)):
        raise Violation("frequency-list", "initial %g end %g step %g for %s" % (start, end, step, (x, st, n)))
    # damping
    g = [l for l in lines if l[:1] == ["DAMPING"]]
    sd = s.sel.get("SDAMPING")
    if (sd is None) != (not g) or len(g) > 1:
        raise Violation("modal-damping", "%s for SDAMPING %s" % (g, sd))
    if g:
        ctx.stat("dampings compared")
        want = damping(*m.damp[sd], f=x)
        if g[0][1] != "GAMMA" or not close(float(g[0][2]), want, 1e-4):
            raise Violation("modal-damping", "%s, %s gives %g" % (g[0], m.damp[sd][0], want))
    # amplitude: one table for the modal method, in the vectors for the direct one
    fn = [l for l in lines if l[:1] == ["FUNCTION"]]
    tables = {}
    for l in a.sections.get("TABLES", []):
        t = l.split()
        if t[1] == "STANDARD" and len(t) % 2:
            v = [float(y) for y in t[3:]]
            tables[int(t[0])] = list(zip(v[::2], v[1::2]))
    if method == "direct":
        if fn:
            raise Violation("excitation", "function %s with the direct method" % fn)
        tab = None
    else:
        h = [l for l in lines if l[:3] == ["HARMONIC", "RESPONSE", "MODAL"]]
        if len(h) != 1 or int(h[0][3]) != m.method[s.sel["METHOD"]]:
            raise Violation("modal-base", "%s for %d modes" % (h, m.method[s.sel["METHOD"]]))
        v = [l for l in lines if l[:1] == ["VECTOR"]]
        if len(v) != 1 or int(v[0][1]) != m.method[s.sel["METHOD"]]:
            raise Violation("modal-base", "%s for %d modes" % (v, m.method[s.sel["METHOD"]]))
        if len(fn) != 1 or len(fn[0]) != 2 or int(fn[0][1]) not in tables:
            raise Violation("excitation", "%s with the tables %s" % (fn, sorted(tables)))
        tab = tables[int(fn[0][1])]
    nm = NodeMap(m.coords, {n: v["xyz"] for n, v in a.nodes.items()})
    per = systus_nodal(a)
    if len(per) > 1 or set(per) - set(a.loads):
        raise Violation("excitation", "loads %s" % sorted(per))
    per = per[min(per)] if per else {}
    t = m.tabs[next(iter(m.tabs))]
    for f in [x for x, y in t["xy"]] + [x + st * k for k in range(n + 1)]:
        if f > t["xy"][-1][0] or f < t["xy"][0][0]:
            continue
        k = 1. if tab is None else table({"xy": tab, "ix": "LIN", "iy": "LIN"}, f)
        have = {(nm.to_in.get(nn, -nn), q): k * y for nn, v in per.items() for q, y in enumerate(v) if y}
        bad = differ(have, expected(m, s.sel, f))
        ctx.stat("complex forces compared", len(have))
        if bad:
            raise Violation("excitation", "at %g Hz: (node, component), written, expected: %s" % (f, bad[:4]))


def run(ctx):
    ctx.rule = "a case counts when the complex nodal forces of every subcase were compared at its frequencies; distinct by the deck"

    def go(rng, to, **kw):
        opts = []
        if to == "SYSTUS":
            method = rng.choice(["auto", "modal", "direct"])
            kw = dict(simple=True, constant=method == "direct")
            if method != "auto" or rng.random() < .5:
                opts = ["--systus.DynamicMethod=" + method]
        d, m = build(rng, to, **kw)
        st = Style.random(rng)
        st.trim = st.tabs = False
        try:
            t = d.text(st, rng)
        except ValueError:
            t = d.text(None, rng)
        o = Out(ctx, t, to, opts=opts)
        try:
            if to == "SYSTUS":
                check_systus(ctx, o, m, method)
            else:
                check_aster(ctx, o, m)
        except Violation as v:
            raise o.tag(v)
        ctx.stat("subcases", len(m.subs))
        ctx.seen(t)
        ctx.sample({"deck": t[:900]})

    ctx.cases("aster", ctx.n(150, 5000), lambda rng, i: go(rng, "ASTER"))
    ctx.cases("interleaved", ctx.n(60, 2000), lambda rng, i: go(rng, "ASTER", many=True))
    ctx.cases("delay", ctx.n(10, 200), lambda rng, i: go(rng, "ASTER", delay=True))
    ctx.cases("phase", ctx.n(10, 200), lambda rng, i: go(rng, "ASTER", phasetable=True))
    ctx.cases("lists", ctx.n(10, 200), lambda rng, i: go(rng, "ASTER", manyfreq=True))
    ctx.cases("systus", ctx.n(80, 2500), lambda rng, i: go(rng, "SYSTUS"))
