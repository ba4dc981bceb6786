"""C22: the reference results of an .f06 or .csv file become the tests of the study."""
from fem import *  # noqa
import re
import cs as _cs
from comm import lst, node
import checks.c18 as c18
import checks.c28 as c28

LEVEL = "exploration"
COMP = ["DX", "DY", "DZ", "DRX", "DRY", "DRZ"]


class M:
    pass


def bad(key, msg, *a):
    raise Violation(key, msg % a if a else msg)


# ---------------------------------------------------------------- result files
def num(x):
    return "0.0         " if x == 0 else "%12.6E" % x


def quant(x):
    return 0. if x == 0 else float("%12.6E" % x)


def page(rng, title, sub, label="", extra=(), head=False):
    out = []
    if head or rng.random() < .7:
        out += ["1    %-60s JANUARY  15, 2015  MSC.NASTRAN  1/ 1/10   PAGE %5d" % (title, rng.randint(1, 99)), "      "]
    out += ["0    %-100s%s" % (label, "SUBCASE %d              " % sub if sub else "")]
    out += list(extra)
    return out


def disp_table(rng, rows, kind="D I S P L A C E M E N T   V E C T O R"):
    out = [" " * 45 + kind, " ",
           "      POINT ID.   TYPE          T1             T2             T3             R1             R2             R3"]
    for n, t, v in rows:
        out.append("%14d      %s   " % (n, t) + "  ".join("%13s" % num(x) for x in v))
    return out


def noise(rng, nodes, sub):
    """a section that holds no displacement"""
    k = rng.randrange(4)
    rows = [(n, "G", [quant(rng.uniform(-9, 9)) for _ in range(6)]) for n in nodes[:3]]
    if k == 0:
        return page(rng, "NOISE", sub) + disp_table(rng, rows, "F O R C E S   O F   S I N G L E - P O I N T   C O N S T R A I N T")
    if k == 1:
        return page(rng, "NOISE", sub) + disp_table(rng, rows, "L O A D   V E C T O R")
    if k == 2:
        return ["0*** USER INFORMATION MESSAGE 5293 FOR DATA BLOCK KLL", "   LOAD SEQ. NO.             EPSILON              EXTERNAL WORK",
                "           1           -1.2345678E-12            1.0000000E+00", ""]
    return ["1    MODEL SUMMARY  PAGE 3", "                                      C A S E    C O N T R O L    E C H O",
            "                 COMMAND", "                 COUNT", "                  1            TITLE = SUBCASE STUDY",
            "                  2            %s" % ("SUBCASE %d" % rng.randint(1, 9) if sub else "SPC = 7"), "                  3              LOAD = 3", ""]


def complex_table(rows):
    out = [" " * 39 + "C O M P L E X   D I S P L A C E M E N T   V E C T O R", " " * 58 + "(REAL/IMAGINARY)", " ",
           "      POINT ID.   TYPE          T1             T2             T3             R1             R2             R3"]
    for n, v in rows:
        out.append("0%13d      G   " % n + "  ".join("%13s" % num(z.real) for z in v))
        out.append(" " * 24 + "  ".join("%13s" % num(z.imag) for z in v))
    return out + [""]


def eigen_table(rows):
    out = [" " * 46 + "R E A L   E I G E N V A L U E S",
           "   MODE    EXTRACTION      EIGENVALUE            RADIANS             CYCLES            GENERALIZED         GENERALIZED",
           "    NO.       ORDER                                                                       MASS              STIFFNESS"]
    for n, o, l, w, f, mg, kg in rows:
        out.append("%9d%10d" % (n, o) + "".join("%20s" % num(x) for x in (l, w, f, mg, kg)))
    return out + [""]


KINDS = {"CHEXA": ("H E X A H E D R O N", "H E X A", "HEXA"), "CPENTA": ("P E N T A H E D R O N", "P E N T A", "PENTA"), "CTETRA": ("T E T R A H E D R O N", "T E T R A", "TETRA")}


def stress_header(kind):
    a, b, _ = KINDS[kind]
    return ["                      S T R E S S E S   I N   %s   S O L I D   E L E M E N T S   ( %s )" % (a, b),
            "0                CORNER        ------CENTER AND CORNER POINT STRESSES---------       DIR.  COSINES       MEAN",
            "  ELEMENT-ID    GRID-ID        NORMAL              SHEAR             PRINCIPAL       -A-  -B-  -C-     PRESSURE       VON MISES"]


def stress_table(rng, kind, sub, rows):
    """rows: [(element, [(node, value)])]"""
    out = stress_header(kind)
    f = lambda: "%13.6E" % rng.uniform(-9, 9)
    for e, pts in rows:
        out.append("0%10d           0GRID CS %2d GP" % (e, len(pts)))
        for n, v in [(None, 1.)] + pts:
            if n is not None and rng.random() < .06:   # a page ends between two points
                out += ["1    T                    JANUARY  15, 2015  MSC.NASTRAN  1/ 1/10   PAGE    12", " ",
                        "0%-104s%s" % ("", "SUBCASE %d" % sub)] + stress_header(kind)
            out.append("0%22s  X  %s  XY  %s   A  %s  LX 0.0  0.00 0.0   %s   %13s" % ("CENTER" if n is None else n, f(), f(), f(), f(), num(v)))
            out.append("%25s  Y  %s  YZ  %s   B  %s  LY 0.0  0.00 0.0" % ("", f(), f(), f()))
            out.append("%25s  Z  %s  ZX  %s   C  %s  LZ 0.0  1.00 0.0" % ("", f(), f(), f()))
    return out + [""]


def value(rng):
    r = rng.random()
    if r < .15:
        return 0.
    if r < .2:
        return rng.choice([1, -1]) * rng.uniform(1, 9) * 1e-15
    return quant(rng.choice([1, -1]) * 10 ** rng.uniform(-7, 3))


# ---------------------------------------------------------------- decks
def static(rng, to, nl=False):
    d = Deck(sol=None)
    m = M()
    d.exec = ["SOL 106" if nl else "SOL 101"]
    nb, ns = rng.randint(1, 4), rng.randint(0, 2)
    nid = ids(rng, nb + 1 + 8 * ns + 2)
    cards = []
    m.cd, m.coords, m.dofs, m.cells = {}, {}, {}, {}
    css = {}
    if to == "ASTER" and rng.random() < .6:
        for c in ids(rng, rng.randint(1, 2), hi=50):
            k = rng.choice("RC")   # a vector of a spherical frame is refused by a message
            a, b, e = _cs.rand_points(rng)
            a = tuple(round(x, 3) for x in add(a, (20., 30., 0.)))
            b, e = (tuple(round(x, 3) for x in add(q, (20., 30., 0.))) for q in (b, e))
            css[c] = _cs.from_points(k, a, b, e)
            cards.append(("CORD2" + k, [c, None] + list(a) + list(b) + list(e)))

    def grid(n, p, dofs):
        m.coords[n] = p
        m.dofs[n] = dofs
        if css and rng.random() < .4:
            m.cd[n] = css[rng.choice(list(css))]
            cid = next(c for c in css if css[c] is m.cd[n])
            cards.append(("GRID", [n, None] + list(p) + [cid]))
        else:
            cards.append(("GRID", [n, None] + list(p)))
    for k, n in enumerate(nid[:nb + 1]):
        grid(n, (round(1.2 * k + rng.uniform(-.2, .2), 3), dec(rng, -1, 1, 3), dec(rng, -1, 1, 3)), 6)
    eid = ids(rng, nb + ns)
    for k in range(nb):
        cards.append(("CBAR", [eid[k], 1, nid[k], nid[k + 1], 0.1, 0.2, 1.]))
    q = nb + 1
    for k in range(ns):
        kind = rng.choice(list(KINDS))
        pts = solid_nodes(kind, False, (3. * k, 10., 0.), 1., rng)
        own = nid[q:q + len(pts)]
        q += len(pts)
        for n, p in zip(own, pts):
            grid(n, p, 3)
        cards.append((kind, [eid[nb + k], 2] + own))
        m.cells[eid[nb + k]] = (kind, own)
    m.unknown = nid[q:]                       # never defined
    cards += [("MAT1", [1, 2.1e11, None, .3, 7800.]), ("PBAR", [1, 1, .01, 1e-5, 1e-5, 2e-5])]
    if ns:
        cards.append(("PSOLID", [2, 1]))
    cards.append(("SPC1", [7, 123456, nid[0]]))
    if nl:
        cards.append(("NLPARM", [5, rng.randint(2, 9)]))
        d.case.append("NLPARM = 5")
    d.case.append("SPC = 7")
    m.subs = []
    k = 1 if rng.random() < .3 else rng.randint(1, 3)
    sid = ids(rng, k, hi=300)
    for x in sid:
        cards.append(("FORCE", [x, nid[1], None, dec(rng, 1, 50, 3), 0., 0., 1.]))
    if k == 1 and rng.random() < .5:
        d.case.append("LOAD = %d" % sid[0])
        m.subs = [0]
    else:
        scid = 0
        for x in sid:
            scid += rng.randint(1, 5)
            d.case += ["SUBCASE %d" % scid, "  LOAD = %d" % x]
            m.subs.append(scid)
    rng.shuffle(cards)
    for c in cards:
        d.add(c[0], *c[1])
    return d, m


def to_global(m, n, v):
    if n not in m.cd:
        return list(v)
    c, x = m.cd[n], m.coords[n]
    return list(c.vec_at(x, v[:3])) + list(c.vec_at(x, v[3:]))


def references(rng, m, unknown):
    """(f06 text, {(subcase index, node, component, step): value})"""
    lines, want = [], {}
    nodes = list(m.coords)
    order = list(enumerate(m.subs))
    if rng.random() < .3:
        rng.shuffle(order)
    stray = max(m.subs) + 7
    if m.subs != [0] and rng.random() < .2:
        order.insert(rng.randrange(len(order) + 1), (None, stray))
    for k, scid in order:
        step = quant(rng.choice([1., 2., .5, k or 1.])) if rng.random() < .4 else None
        rows = []
        for n in rng.sample(nodes, rng.randint(1, len(nodes))) if rng.random() < .5 else sorted(nodes):
            v = [value(rng) if m.dofs[n] == 6 or q < 3 else 0. for q in range(6)]
            rows.append((n, "G", v))
            if k is not None:
                for q, x in enumerate(to_global(m, n, v)[:m.dofs[n]]):
                    want[(k, n, q, step)] = x
        if unknown:
            rows.insert(rng.randrange(len(rows) + 1), (rng.choice(m.unknown), "G", [value(rng) for _ in range(6)]))
        if rng.random() < .2:
            rows.insert(rng.randrange(len(rows) + 1), (99990001, "S", [value(rng)] + [0.] * 5))
        cut = sorted(rng.sample(range(1, len(rows)), min(len(rows) - 1, rng.choice([0, 0, 1, 2])))) if len(rows) > 1 else []
        head = ["      LOAD STEP = %s" % num(step)] if step is not None else []
        for a, b in zip([0] + cut, cut + [len(rows)]):
            if rng.random() < .25:
                lines += noise(rng, nodes, scid)
            lines += page(rng, rng.choice(["", "BEAM", "SUBCASE STUDY"]), scid, rng.choice(["", "", "PULL"]), head) + disp_table(rng, rows[a:b])
            if rng.random() < .5:
                lines.append("")
    if rng.random() < .3:
        lines += noise(rng, nodes, m.subs[-1])
    lines += ["1                            * * * END OF JOB * * *", " "]
    return "\n".join(lines) + "\n", want


# ---------------------------------------------------------------- oracles
def tests_aster(comm):
    return [f for c in comm.all("TEST_RESU") for f in lst(c.kw.get("RESU"))]


def result_names(comm, subs):
    main = [c for c in comm.all("MECA_STATIQUE", "STAT_NON_LINE") if c.kw.get("reuse") is None]
    if len(main) != len(subs):
        bad("analysis-count", "%d analyses for %d subcases", len(main), len(subs))
    return {c.name: k for k, c in enumerate(main)}


def tolerance(f, want, tol, key="test-tolerance"):
    rel = f.get("CRITERE") == "RELATIF"
    p = f.get("PRECISION")
    if p is None:
        p = lst(f.get("TOLE_MACHINE"))[0]
    if abs(want) >= 1e-6 and not rel:
        bad(key, "reference %g compared with CRITERE %s", want, f.get("CRITERE"))
    if rel and not close(float(p), tol, 1e-9):
        bad(key, "reference %g compared within %s instead of %g", want, p, tol)
    if not rel and float(p) > max(tol, 1e-5) * (1 + 1e-9):
        bad(key, "reference %g compared within %s", want, p)


def same_tests(have, want, what):
    lost = [k for k in want if k not in have]
    extra = [k for k in have if k not in want]
    if lost:
        bad("test-lost", "%s: no test of %s (%d of %d tests missing)", what, lost[:3], len(lost), len(want))
    if extra:
        bad("test-invented", "%s: tests of %s (%d) have no reference", what, extra[:3], len(extra))
    for k in want:
        big = 1e-5 * abs(want[k]) + 2e-12
        scale = max([abs(want[q]) for q in want if q[:-2] == k[:-2]] + [0]) if len(k) == 4 else abs(want[k])
        if abs(have[k] - want[k]) > big + 1e-9 * scale:
            bad("test-value", "%s: test of %s against %r instead of %r", what, k, have[k], want[k])


def check_disp_aster(out, m, want, tol):
    comm, med = out.comm, out.med
    nm = NodeMap(m.coords, med_coords(med))
    names = result_names(comm, m.subs)
    have = {}
    for f in tests_aster(comm):
        if f.get("NOM_CHAM") != "DEPL":
            bad("test-field", "test of %s", f.get("NOM_CHAM"))
        r = f["RESULTAT"].name
        if r not in names:
            bad("test-result", "test of the result %s", r)
        n = nm.to_in.get(node(f["NOEUD"]))
        step = float(f["INST"]) if "INST" in f else None
        if step is None and f.get("NUME_ORDRE") != 1:
            bad("test-step", "test without step: %s", dict(f))
        k = (names[r], n, COMP.index(f["NOM_CMP"]), step)
        if k in have:
            bad("test-twice", "two tests of %s", k)
        have[k] = float(f["VALE_REFE"])
        w = want.get(k)
        if w is not None:
            if abs(w) > 1e-11 and not close(float(f["VALE_CALC"]), w, 1e-5):
                bad("test-value", "test of %s: VALE_CALC %s, reference %g", k, f["VALE_CALC"], w)
            tolerance(f, w, tol)
    same_tests(have, want, "Aster")


DISP = re.compile(r"^displacement = node_displacement\((\d+),(\d+)\);\ndiff = abs\(\(displacement\[(\d+)\]-\((\S+?)\)\)/\((\S+?)\)\);$"
                  r"(.*?)^if \(diff > abs\((\S+?)\)\) fprintf\(iResu,\" NOOK \"\); else fprintf\(iResu,\" OK   \"\);\n(fprintf[^\n]*)$", re.M | re.S)


def systus_blocks(out):
    """[(file number, result id, text of its tests)]"""
    res = []
    k = 1
    while out.r.text("_SC%d.DAT" % k) is not None:
        t = out.r.text("_SC%d.DAT" % k)
        for b in re.finditer(r"^LANGAGE\n(.*?)^end;$", t, re.M | re.S):
            h = re.search(r'^iResu=open_file\("(.*)_(\d+)\.RESU", "write"\);$', b.group(1), re.M)
            if not h:
                bad("test-block", "tests without result file")
            if not b.group(1).rstrip().endswith("close_file(iResu)"):
                bad("test-block", "the result file is not closed")
            if "variable displacement[" not in b.group(1):
                bad("test-block", "no variable")
            res.append((k, int(h.group(2)), b.group(1)))
        k += 1
    return res


def check_disp_systus(out, m, want, tol):
    have = {}
    seen = set()
    for sc, rid, text in systus_blocks(out):
        a = out.asc(sc)
        nm = NodeMap(m.coords, {n: v["xyz"] for n, v in a.nodes.items()})
        k = rid - 1
        if k in seen or not 0 <= k < len(m.subs):
            bad("test-result", "tests of the result %d", rid)
        seen.add(k)
        # load cases of this analysis in the data file
        cases = [l for l, v in a.loads.items() if not m.subs[k] or re.match(r"Analysis_%d(_|$)" % m.subs[k], v["name"])]
        for g in DISP.finditer(text):
            case, n, c, v, w, _, t, _ = g.groups()
            if int(case) not in cases:
                bad("test-load-case", "tests of subcase %s look at the load case %s: %s", m.subs[k], case, {l: v["name"] for l, v in a.loads.items()})
            key = (k, nm.to_in[int(n)], int(c) - 1, None)
            if key in have:
                bad("test-twice", "two tests of %s", key)
            have[key] = float(v)
            if not close(float(t), tol, 1e-6):
                bad("test-tolerance", "test within %s instead of %g", t, tol)
            if abs(float(v)) >= 1e-9 and not close(abs(float(w)), abs(float(v)), 1e-6):
                bad("test-tolerance", "difference with %s divided by %s", v, w)
        if len(DISP.findall(text)) != text.count("diff = "):
            bad("test-block", "unreadable test")
    same_tests(have, {k: v for k, v in want.items()}, "Systus")


def check_eigen_aster(out, m, want, tol):
    """want: {(subcase index, mode): (eigenvalue, cycles, mass, stiffness)}"""
    comm = out.comm
    main = [c for c in comm.all("MECA_STATIQUE", "CALC_MODES") if c.kw.get("reuse") is None]
    names = {}
    for k, (s, c) in enumerate(zip(m.subs, main)):
        ext = [e for e in comm.all("EXTR_MODE") for f in lst(e.kw.get("FILTRE_MODE")) if f["MODE"] is c]
        names[(ext[0] if ext else c).name] = k
    have = {}
    for f in tests_aster(comm):
        r = f["RESULTAT"].name
        if r not in names:
            bad("test-result", "test of the result %s", r)
        k = (names[r], int(f["NUME_MODE"]), f["PARA"])
        if k in have:
            bad("test-twice", "two tests of %s", k)
        have[k] = float(f["VALE_CALC"])
        if lst(f["TOLE_MACHINE"]) and not close(float(lst(f["TOLE_MACHINE"])[0]), tol):
            bad("test-tolerance", "mode %s within %s instead of %g", k, f["TOLE_MACHINE"], tol)
        if f["CRITERE"] != "RELATIF" and abs(have[k]) > 1e-6 and k[2] in ("FREQ", "CHAR_CRIT"):
            bad("test-tolerance", "mode %s compared with CRITERE %s", k, f["CRITERE"])
    w = {}
    for (k, n), (l, c, mg, kg) in want.items():
        s = m.subs[k]
        if s.kind == "buck":
            w[(k, n, "CHAR_CRIT")] = l
            continue
        if c < (m.lfreq or 0.) or c > (m.hfreq or 1e30):
            continue
        w[(k, n, "FREQ")] = c
        w[(k, n, "MASS_GENE")] = mg
        if abs(mg - 1) > 1e-6 or (k, n, "RIGI_GENE") in have:
            w[(k, n, "RIGI_GENE")] = kg
    same_tests(have, w, "Aster")


FREQ = re.compile(r"^frequency = frequency_number\((\d+)\);\ndiff = abs\(\(frequency-\((\S+?)\)\)/\((\S+?)\)\);$"
                  r"(.*?)^if \(diff > abs\((\S+?)\)\) fprintf\(iResu,\" NOOK \"\); else fprintf\(iResu,\" OK   \"\);$", re.M | re.S)


def check_eigen_systus(out, m, want, tol):
    have = {}
    for sc, rid, text in systus_blocks(out):
        for g in FREQ.finditer(text):
            n, v, w, _, t = g.groups()
            key = (rid - 1, int(n), "FREQ")
            if key in have:
                bad("test-twice", "two tests of %s", key)
            have[key] = float(v)
            if not close(float(t), tol, 1e-6):
                bad("test-tolerance", "test within %s instead of %g", t, tol)
            if abs(float(v)) >= 1e-9 and not close(abs(float(w)), abs(float(v)), 1e-6):
                bad("test-tolerance", "difference with %s divided by %s", v, w)
    same_tests(have, {(k, n, "FREQ"): c for (k, n), (l, c, mg, kg) in want.items()}, "Systus")


def check_complex_aster(out, m, want, tol, allowed):
    comm, med = out.comm, out.med
    nm = NodeMap(m.coords, med_coords(med))
    res = {f["RESULTAT"].name for f in tests_aster(comm)}
    have = {}
    order = {r: k for k, r in enumerate(c.name for c in comm.calls if c.name in res)}
    for f in tests_aster(comm):
        k = (order[f["RESULTAT"].name], nm.to_in[node(f["NOEUD"])], COMP.index(f["NOM_CMP"]), float("%.5g" % float(f["FREQ"])))
        if k in have:
            bad("test-twice", "two tests of %s", k)
        if f["NOM_CHAM"] != "DEPL":
            bad("test-field", "test of %s", f["NOM_CHAM"])
        have[k] = complex(f["VALE_CALC_C"])
        if k in want:
            tolerance(f, abs(want[k]), tol)
    if len(order) > 1:
        bad("test-result", "tests of the results %s", list(order))
    same_tests(have, want, "Aster")


CPLX = re.compile(r"^while \(nume_ordre<nb_map-1 && abs\(puls - (\S+?)\)/\S+?> 1e-5\)\{.*?\}\ndisplacement = trans_node_displacement\(nume_ordre,(\d+)\);\n"
                  r"phase = trans_node_displacement\(nume_ordre\+1,(\d+)\);\n"
                  r"displacement_real = displacement\[(\d+)\]\*cos\(phase\[(\d+)\]\);\ndisplacement_imag = displacement\[(\d+)\]\*sin\(phase\[(\d+)\]\);\n"
                  r"diff = \(abs\(displacement_real-\((\S+?)\)\) \+ abs\(displacement_imag-\((\S+?)\)\)\)/\((\S+?)\);$"
                  r"(.*?)^if \(diff > abs\((\S+?)\)\) fprintf\(iResu,\" NOOK \"\); else", re.M | re.S)


def check_complex_systus(out, m, want, tol):
    have = {}
    for sc, rid, text in systus_blocks(out):
        a = out.asc(sc)
        nm = NodeMap(m.coords, {n: v["xyz"] for n, v in a.nodes.items()})
        for g in CPLX.finditer(text):
            w, n1, n2, c1, c2, c3, c4, re_, im, den, _, t = g.groups()
            if n1 != n2 or len({c1, c2, c3, c4}) != 1:
                bad("test-block", "the test mixes nodes %s %s, freedoms %s", n1, n2, (c1, c2, c3, c4))
            k = (rid - 1, nm.to_in[int(n1)], int(c1) - 1, float("%.5g" % (float(w) / 2 / math.pi)))
            if k in have:
                bad("test-twice", "two tests of %s", k)
            have[k] = complex(float(re_), float(im))
            if not close(float(t), tol, 1e-6):
                bad("test-tolerance", "test within %s instead of %g", t, tol)
            if abs(have[k]) >= 1e-9 and not close(float(den), abs(have[k]), 1e-5):
                bad("test-tolerance", "difference with %s divided by %s", have[k], den)
        if len(CPLX.findall(text)) != text.count("diff = "):
            bad("test-block", "unreadable test")
    same_tests(have, want, "Systus")


def check_mises(out, m, want, tol):
    """want: {(subcase index, element, node): value}"""
    comm, med = out.comm, out.med
    nm = NodeMap(m.coords, med_coords(med))
    names = result_names(comm, m.subs)
    elem = {}
    for key, (cnum, conn, fam) in med.cells.items():
        q = frozenset(nm.to_in.get(n) for n in conn)
        for e, (kind, own) in m.cells.items():
            if q == frozenset(own):
                elem[key] = e
    cell = {g: [elem.get(c) for c in med.members(g)] for g in {f.get("GROUP_MA") for f in tests_aster(comm)} if g}
    have = {}
    for f in tests_aster(comm):
        if f["NOM_CHAM"] != "SIEQ_ELNO" or f["NOM_CMP"] != "VMIS":
            bad("test-field", "test of %s %s", f["NOM_CHAM"], f["NOM_CMP"])
        r = f["RESULTAT"].name
        if r not in names:
            bad("test-result", "test of the result %s", r)
        es = cell.get(f["GROUP_MA"], [])
        if len(es) != 1:
            bad("test-cell", "the group %s tested holds the elements %s", f["GROUP_MA"], es)
        k = (names[r], es[0], nm.to_in.get(node(f["NOEUD"])))
        if k in have:
            bad("test-twice", "two tests of %s", k)
        have[k] = float(f["VALE_CALC"])
        if k in want:
            tolerance(f, want[k], tol)
        done = [c for c in comm.all("CALC_CHAMP") if c.kw.get("RESULTAT") is not None and c.kw["RESULTAT"].name == r and "SIEQ_ELNO" in lst(c.kw.get("CRITERES"))]
        if not done:
            bad("test-field", "SIEQ_ELNO of %s is tested but not computed", r)
    same_tests(have, want, "Aster")


# ---------------------------------------------------------------- cases
def run(ctx):
    ctx.rule = ("reference files written from random values for generated models; every test of the written study is matched with one "
                "reference; distinct by the set of tests")

    def tol_opt(rng):
        if rng.random() < .4:
            return .02, []
        t = dec(rng, 1e-4, .2, 2)
        return t, [rng.choice(["--tolerance=%r", "-x%r"]) % t]

    def go(ctx, d, m, ref, to, name="m.f06", opts=(), rng=None, strict=None):
        if strict is None:
            strict = rng.random() < .3
        return Out(ctx, d.text(None, rng), to=to, opts=["-t", "@D@/" + name] + list(opts) + (["-s"] if strict else []), files={name: ref})

    def judged(ctx, out, chk, *a):
        try:
            chk(out, *a)
        except Violation as v:
            raise out.tag(v)

    def disp(to, unknown=False, nl=False):
        def f(rng, i):
            d, m = static(rng, to, nl)
            ref, want = references(rng, m, unknown)
            if to == "SYSTUS":
                ref = re.sub(r"^ +LOAD STEP.*\n", "", ref, flags=re.M)
                want = {k[:3] + (None,): v for k, v in want.items()}
            tol, o = tol_opt(rng)
            if to == "SYSTUS" and rng.random() < .3:
                o.append("--systus.Subcase=" + "single")
            out = go(ctx, d, m, ref, to, opts=o, rng=rng)
            judged(ctx, out, check_disp_aster if to == "ASTER" else check_disp_systus, m, want, tol)
            ctx.stat("displacement tests matched", len(want))
            ctx.seen((to, tuple(sorted(want.items(), key=repr))) if want else None)
            ctx.sample({"to": to, "tests": len(want), "subcases": m.subs})
        return f

    def csv(rng, i):
        d, m = static(rng, "ASTER")
        m.cd = {}
        d2 = d
        if m.subs != [0]:
            # numbered from 1, as the results of an Aster study are
            for k, s in enumerate(m.subs, 1):
                d.case = [c if c != "SUBCASE %d" % s else "SUBCASE @%d" % k for c in d.case]
            d.case = [c.replace("@", "") for c in d.case]
            m.subs = list(range(1, len(m.subs) + 1))
        cols = ["RESULTAT", "NOM_CHAM", "INST", "NUME_ORDRE", "NOEUD", "COOR_X", "COOR_Y"] + rng.sample(COMP, rng.randint(1, 6))
        if rng.random() < .3:
            rng.shuffle(cols)
        lines = ["#", "#" + "-" * 40, "#D I S P L A C E M E N T S"][:rng.randint(0, 3)]
        lines.append(" ," + ",".join("%-13s" % c for c in cols))
        want = {}
        for k in range(len(m.subs)):
            for n in rng.sample(sorted(m.coords), rng.randint(1, len(m.coords))):
                t = rng.choice([0., 1., .5, 2.25, 12.])
                row = []
                for c in cols:
                    if c in COMP:
                        x = float("%.5E" % value(rng))
                        q = COMP.index(c)
                        if q >= m.dofs[n]:
                            x = 0.
                        else:
                            want[(k, n, q, t)] = x
                        row.append("%12.5E " % x)
                    else:
                        row.append({"RESULTAT": "RESU%-4d" % (k + 1), "NOM_CHAM": "DEPL", "INST": "%12.5E " % t, "NUME_ORDRE": "%12d " % 1,
                                    "NOEUD": "N%-8d" % n}.get(c, "%12.5E " % rng.uniform(0, 9)))
                lines.append(" ," + ",".join(row))
        tol, o = tol_opt(rng)
        out = go(ctx, d2, m, "\n".join(lines) + "\n" * rng.randint(0, 1), "ASTER", "ref.csv", o, rng)
        judged(ctx, out, check_disp_aster, m, want, tol)
        ctx.stat("displacement tests matched", len(want))
        ctx.seen(("csv", tuple(sorted(want.items()))))

    def eigen(family, to):
        def f(rng, i):
            d, m = c18.build(rng, family, to)
            lines, want = [], {}
            scids = [s.id for s in m.subs]
            for k, s in enumerate(m.subs):
                if s.kind == "static":
                    continue
                rows = []
                order = list(range(1, rng.randint(1, 6) + 1))
                if rng.random() < .5:      # modes are numbered by frequency, not as they were extracted
                    rng.shuffle(order)
                for n, o in enumerate(order, 1):
                    c = quant(rng.uniform(.05, 7000.)) if rng.random() < .9 else 0.
                    mg = rng.choice([1., 1., quant(rng.uniform(.1, 9))])
                    l, kg = quant((2 * math.pi * c) ** 2 * rng.choice([1, 1, 1])), quant((2 * math.pi * c) ** 2 * mg)
                    rows.append((n, o, l, quant(2 * math.pi * c), c, mg, kg))
                    want[(k, n)] = (l, c, mg, kg)
                lines += page(rng, "", s.id) + eigen_table(rows)
                if rng.random() < .4:
                    lines += page(rng, "", s.id) + disp_table(rng, [(n, "G", [1.] * 6) for n in list(m.coords)[:3]],
                                                                  "R E A L   E I G E N V E C T O R   N O .          1")
            tol, o = tol_opt(rng)
            if to == "SYSTUS":
                o += ["--solver-version", "2017"]
            out = go(ctx, d, m, "\n".join(lines) + "\n", to, opts=o, rng=rng)
            judged(ctx, out, check_eigen_aster if to == "ASTER" else check_eigen_systus, m, want, tol)
            ctx.stat("modal tests matched", len(want))
            ctx.seen((to, tuple(sorted(want.items()))) if want else None)
        return f

    def harmonic(to):
        def f(rng, i):
            d, m = c28.build(rng, to, simple=True)
            nodes = list(m.coords)
            scid = m.subs[0].id
            lines, want = [], {}
            if rng.random() < .5:
                lines += eigen_table([(1, 1, 1e3, 31.6, 5.03, 1., 1e3)]) if False else []
            for fr in sorted({float('%.5g' % rng.uniform(.5, 200)) for _ in range(rng.randint(1, 4))}):
                rows = []
                for n in rng.sample(nodes, rng.randint(1, len(nodes))):
                    v = [complex(value(rng), value(rng)) for _ in range(6)]
                    rows.append((n, v))
                    for q, z in enumerate(v):
                        want[(0, n, q, float("%.5g" % fr))] = z
                lines += page(rng, "", scid, extra=["      FREQUENCY = %s" % num(fr)]) + complex_table(rows)
            tol, o = tol_opt(rng)
            out = go(ctx, d, m, "\n".join(lines) + "\n", to, opts=o + (["--solver-version", "2017"] if to == "SYSTUS" else []), rng=rng)
            if to == "ASTER":
                judged(ctx, out, check_complex_aster, m, want, tol, None)
            else:
                judged(ctx, out, check_complex_systus, m, want, tol)
            ctx.stat("complex tests matched", len(want))
            ctx.seen((to, tuple(sorted(want))) if want else None)
        return f

    def mises(rng, i):
        for _ in range(50):
            d, m = static(rng, "ASTER")
            if m.cells:
                break
        lines, want = [], {}
        for k, scid in enumerate(m.subs):
            for kind in KINDS:
                es = [e for e, (q, _) in m.cells.items() if q == kind]
                rows = []
                for e in es:
                    pts = [(n, quant(10 ** rng.uniform(-3, 6))) for n in rng.sample(m.cells[e][1], len(m.cells[e][1]))]
                    rows.append((e, pts))
                    for n, v in pts:
                        want[(k, e, n)] = v
                if rows:
                    lines += page(rng, "", scid, head=True) + stress_table(rng, kind, scid or 1, rows)
        tol, o = tol_opt(rng)
        out = go(ctx, d, m, "\n".join(lines) + "\n", "ASTER", opts=o, rng=rng)
        judged(ctx, out, check_mises, m, want, tol)
        ctx.stat("stress tests matched", len(want))
        ctx.seen(tuple(sorted(want.items())) if want else None)

    ctx.cases("aster-displacements", ctx.n(90), disp("ASTER"))
    ctx.cases("aster-unknown-nodes", ctx.n(30), disp("ASTER", unknown=True))
    ctx.cases("aster-nonlinear", ctx.n(20), disp("ASTER", nl=True))
    ctx.cases("systus-displacements", ctx.n(60), disp("SYSTUS"))
    ctx.cases("csv", ctx.n(40), csv)
    ctx.cases("aster-modes", ctx.n(40), eigen("modes", "ASTER"))
    ctx.cases("aster-buckling", ctx.n(20), eigen("buck", "ASTER"))
    ctx.cases("systus-modes", ctx.n(30), eigen("modes", "SYSTUS"))
    ctx.cases("aster-harmonic", ctx.n(40), harmonic("ASTER"))
    ctx.cases("systus-harmonic", ctx.n(30), harmonic("SYSTUS"))
    ctx.cases("mises", ctx.n(40), mises)
