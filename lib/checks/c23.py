"""C23: what each analysis reports: its own result, and the displacements of the nodes its subcase asks for."""
from fem import *  # noqa
from comm import lst
from checks import c18, c28

LEVEL = "exploration"


def bad(key, msg, *a):
    raise Violation(key, msg % a)


def runs(rng, nodes):
    """the text of a set: ids and ranges, on lines that end with a comma; -> (parts, members)"""
    nodes = sorted(nodes)
    parts, want = [], set()
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(len(nodes))
        if rng.random() < .5:
            a = nodes[k]
            b = nodes[min(len(nodes) - 1, k + rng.randint(1, 3))]
            if b > a and b - a < 60:
                parts.append("%d THRU %d" % (a, b))
                want |= {n for n in nodes if a <= n <= b}
                continue
        parts.append(str(nodes[k]))
        want.add(nodes[k])
    if rng.random() < .3:
        n = rng.sample(nodes, min(len(nodes), rng.randint(5, 12)))
        parts += [str(x) for x in n]
        want |= set(n)
    return parts, want


def lines(rng, sid, parts):
    out, line = [], "SET %d%s" % (sid, rng.choice([" = ", "=", " ="]))
    for i, p in enumerate(parts):
        line += p
        if i < len(parts) - 1:
            line += rng.choice([",", ", "])
            if rng.random() < .3 or len(line) > 50:
                out.append(line.rstrip())
                line = rng.choice(["", " ", "   "])
    return out + [line]


def request(rng, sid, to):
    opt = rng.choice(["", "", "(PRINT)", "(PLOT)", "(SORT1,REAL)", "(PUNCH)"])
    return "%s%s%s%s" % (rng.choice(["DISP", "DISPLACEMENT"]), opt, rng.choice([" = ", "=", "= "]), sid)


def dress(rng, d, m, nodes, to, bulk):
    """adds sets and requests to the case control of a deck; m.sets, s.disp"""
    m.sets, m.cellsets = {}, {}
    pool = ids(rng, rng.randint(1, 4), hi=90)
    head, inside = [], {}
    cut = [i for i, l in enumerate(d.case) if l.strip().startswith("SUBCASE")]
    for sid in pool:
        parts, want = runs(rng, nodes)
        m.sets[sid] = want
        if bulk:
            n = sorted(want)
            rng.shuffle(n)
            d.add("SET", *([sid, "GRID", "LIST"] + [None] * 5 + n))
        elif rng.random() < .7:
            head.append(lines(rng, sid, parts))
        else:
            inside.setdefault(rng.randrange(len(cut)), []).append(lines(rng, sid, parts))
    if bulk:
        elements = {f[0]: tuple(f[2:4]) for n, f in d.bulk if n == "CBAR"}
        for sid in ids(rng, rng.randint(0, 2), lo=100, hi=150):
            n = rng.sample(sorted(elements), rng.randint(1, len(elements)))
            m.cellsets[sid] = {elements[k] for k in n}
            d.add("SET", *([sid, "ELEM", "LIST"] + [None] * 5 + n))
        rng.shuffle(d.bulk)
    glob = None
    above = []
    if rng.random() < .5:
        glob = rng.choice(pool + ["ALL", "NONE"])
        above.append([request(rng, glob, to)])
    for h in head:
        above.insert(rng.randint(0, len(above)), h)
    new = list(d.case[:cut[0]]) if cut else list(d.case)
    k = rng.randint(0, len(new))
    new[k:k] = [x for h in above for x in h]
    for q, s in enumerate(m.subs):
        body = list(d.case[cut[q] + 1:cut[q + 1] if q + 1 < len(cut) else None])
        tail = []
        if q + 1 == len(cut):
            for j, l in enumerate(body):
                if l.strip().startswith("SUBCOM"):
                    body, tail = body[:j], body[j:]
                    break
        s.disp = glob
        extra = list(inside.get(q, []))
        if rng.random() < .6:
            s.disp = rng.choice(pool * 2 + ["ALL", "NONE"])
            extra.insert(rng.randint(0, len(extra)), [request(rng, s.disp, to)])
        body = [[x] for x in body]
        for e in extra:
            body.insert(rng.randint(0, len(body)), e)
        new += [d.case[cut[q]]] + [x for b in body for x in b] + tail
    d.case = new


def members(med, nm, names):
    n = set()
    for g in lst(names):
        got = med.nodegroups.get(g)
        if got is None:
            bad("group", "the group %s of a displacement table is not in the mesh", g)
        n |= {nm.to_in[k] for k in got}
    return n


def check_aster(ctx, out, m):
    comm, med = out.comm, out.med
    nm = NodeMap(m.coords, med_coords(med))
    res = ["RESU%d" % (k + 1) for k in range(len(m.subs))]
    for sid, want in m.cellsets.items():
        have = set()
        for k in med.cellgroups.get("SET_%d" % sid, set()):
            have.add(tuple(nm.to_in.get(x) for x in med.cells[k][1]))
        if have != want:
            bad("elements", "the set %d of elements is %s and the group SET_%d has the elements %s", sid, sorted(want), sid, sorted(have))
        ctx.stat("sets of elements judged")
    tables = {}
    for c in comm.all("POST_RELEVE_T", "CREA_TABLE"):
        if not c.name.startswith("TBLO"):
            tables.setdefault(c.name, []).append(c)
    files, units = {}, {}
    for c in comm.all("DEFI_FICHIER"):
        if c.kw.get("ACTION") == "ASSOCIER":
            f = c.kw["FICHIER"]
            if f in files:
                bad("file", "two tables go to %s", f)
            files[f] = c.name
    printed = {}
    for c in comm.all("IMPR_TABLE"):
        if "UNITE" in c.kw:
            printed.setdefault(nameof(c.kw["TABLE"]), []).append(nameof(c.kw["UNITE"]))
    inmed = set()
    for c in comm.all("IMPR_RESU"):
        if c.kw.get("FORMAT") == "MED":
            for r in lst(c.kw.get("RESU")):
                inmed.add(nameof(r["RESULTAT"]))
    for s, r in zip(m.subs, res):
        ctx.stat("analyses judged")
        if r not in inmed:
            bad("result", "the result %s of subcase %s is not written to the MED file of results (%s are)", r, s.id, sorted(inmed))
        t = tables.get("RETB" + r[4:], [])
        if len(t) != 1:
            bad("table", "subcase %s: %d tables of displacements", s.id, len(t))
        t = t[0]
        if len(printed.get(t.name, [])) != 1:
            bad("table", "subcase %s: its table is printed %d times", s.id, len(printed.get(t.name, [])))
        if s.disp in (None, "ALL", "NONE"):
            if t.cmd != "CREA_TABLE":
                bad("request", "subcase %s asks for the displacements of no set (%s) and gets %s", s.id, s.disp, t.kw)
            for f in lst(t.kw.get("RESU")):
                if nameof(f["RESULTAT"]) != r and s.kind != "freq":
                    bad("other-result", "subcase %s: the table of its displacements is made of %s", s.id, nameof(f["RESULTAT"]))
                if f.get("TOUT") != "OUI":
                    bad("request", "subcase %s: its table holds a part of the model: %s", s.id, dict(f))
            ctx.stat("tables of all nodes judged")
            continue
        want = m.sets[s.disp]
        if t.cmd != "POST_RELEVE_T":
            bad("request", "subcase %s asks for the displacements of set %s and its table is a %s", s.id, s.disp, t.cmd)
        count = {}
        for a in lst(t.kw["ACTION"]):
            if a.get("OPERATION") != "EXTRACTION" or a.get("NOM_CHAM") != "DEPL" or a.get("TOUT_CMP") != "OUI":
                bad("request", "subcase %s: %s is not an extraction of displacements", s.id, dict(a))
            if nameof(a["RESULTAT"]) != r:
                bad("other-result", "subcase %s (%s): the displacements of set %s are taken from %s", s.id, r, s.disp, nameof(a["RESULTAT"]))
            have = members(med, nm, a.get("GROUP_NO", []))
            for n in lst(a.get("NOEUD", [])):
                have.add(nm.to_in[int(n[1:]) - 1])
            if have != want:
                bad("nodes", "subcase %s: set %s is %s and the table has the nodes %s", s.id, s.disp, sorted(want), sorted(have))
            if a.get("TOUT_ORDRE", "OUI") != "OUI" or any(k in a for k in ("NUME_ORDRE", "LIST_FREQ", "FREQ")):
                bad("request", "subcase %s: only a part of the steps: %s", s.id, dict(a))
            count[a.get("FORMAT_C")] = count.get(a.get("FORMAT_C"), 0) + 1
        if count.get("REEL") != 1 or max(count.values()) > 1:
            bad("repeated", "subcase %s: the displacements of set %s are extracted %s times", s.id, s.disp, count)
        ctx.stat("tables of a set judged")


def nameof(c):
    return getattr(c, "name", c)


def check_nastran(ctx, out, m):
    """the case control of the written deck"""
    text = out.r.text("_vg.nas") if hasattr(out, "r") else out.nas
    case = []
    on = False
    for l in text.splitlines():
        if l.startswith("CEND"):
            on = True
        elif l.startswith("BEGIN"):
            break
        elif on and l.strip() and not l.startswith("$"):
            case.append(l.split("$")[0].rstrip())
    joined = []
    for l in case:
        if joined and joined[-1].endswith(","):
            joined[-1] += l.strip()
        else:
            joined.append(l.strip())
    sets, glob, subs, cur = {}, None, [], None
    for l in joined:
        k, _, v = l.partition("=")
        k, v = k.strip(), v.strip()
        if k.startswith("SET "):
            i = int(k.split()[1])
            if i in sets:
                bad("set-twice", "SET %d is defined twice", i)
            sets[i] = [int(x) for x in v.split(",")]
        elif k.startswith("SUBCASE"):
            cur = []
            subs.append(cur)
        elif k.startswith("DISP"):
            (cur if cur is not None else subs).append(v)
    if len(subs) != len(m.subs):
        bad("subcases", "%d subcases instead of %d", len(subs), len(m.subs))
    nodes = {c.i(0) for c in out.nas.of("GRID")}
    for s, have in zip(m.subs, subs):
        ctx.stat("written subcases judged")
        if s.disp in (None, "ALL", "NONE"):
            if any(v.isdigit() for v in have):
                bad("request", "subcase %s asks for %s and is written with DISP = %s", s.id, s.disp, have)
            continue
        want = m.sets[s.disp]
        if len(have) != 1 or not have[0].isdigit():
            bad("repeated", "subcase %s asks for set %s and is written with the requests %s", s.id, s.disp, have)
        got = sets.get(int(have[0]))
        if got is None or len(set(got)) != len(got) or set(got) & nodes != want or not set(got) <= nodes | want:
            bad("nodes", "subcase %s: set %s is %s and the written SET %s is %s", s.id, s.disp, sorted(want), have[0], got)
        ctx.stat("written sets judged")


def run(ctx):
    ctx.rule = ("decks of C18 and C28 with SET definitions (ids, THRU, several lines, above and inside the subcases, bulk SET of OptiStruct) "
                "and DISPLACEMENT requests above and inside 1-5 subcases; non-trivial: two analyses ask for different things")

    def one(family, to, kinds="c18", bulk=False):
        def f(rng, i):
            if kinds == "c18":
                d, m = c18.build(rng, family, to)
            else:
                d, m = c28.build(rng, to, simple=False)
                m.coords = {f_[0]: tuple(f_[2:5]) for n, f_ in d.bulk if n == "GRID"}
                for s in m.subs:
                    s.kind = "freq"
            dress(rng, d, m, m.coords, to, bulk)
            fmt = {"fmt": "OPTISTRUCT"} if bulk else {}
            text = d.text(c18.style(rng) if i % 2 else None, rng)
            out = Out(ctx, text, to=to, **dict({"fmt": "NASTRAN"}, **fmt))
            try:
                check_aster(ctx, out, m) if to == "ASTER" else check_nastran(ctx, out, m)
            except Violation as v:
                raise out.tag(v)
            ctx.seen((to, family, repr(d.case)) if len({str(s.disp) for s in m.subs}) > 1 else None)
            ctx.sample({"to": to, "sol": d.exec, "case": d.case})
        return f
    for family in ("static", "modes", "buck", "nl", "opt"):
        ctx.cases("aster-" + family, ctx.n(30, 1500), one(family, "ASTER"))
    ctx.cases("aster-frequency", ctx.n(40, 1500), one("frequency", "ASTER", "c28"))
    for family in ("static", "modes"):
        ctx.cases("nastran-" + family, ctx.n(30, 1500), one(family, "NASTRAN"))
        ctx.cases("optistruct-" + family, ctx.n(20, 1000), one(family, "ASTER", bulk=True))
