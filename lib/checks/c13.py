"""Single point constraints: each analysis imposes exactly the constraints its own subcase selects."""
from fem import *  # noqa
import lineq
import kine
import re

LEVEL = "exploration"


def comp(rng, n6=True):
    k = rng.randint(1, 6 if n6 else 3)
    return "".join(sorted(rng.sample("123456" if n6 else "123", k)))


def build(rng, to, values=True):
    d = Deck()
    nb = rng.randint(4, 14)
    nid = ids(rng, nb + 1)
    coords = {}
    for k, n in enumerate(nid):
        coords[n] = (round(1.5 * k + rng.uniform(-.3, .3), 3), dec(rng, -2, 2, 3), dec(rng, -2, 2, 3))
    want_ps = {}
    cards = []
    gs = comp(rng) if rng.random() < .15 else None  # of the grid points whose own field is blank
    if gs:
        cards.append(("GRDSET", [None, None, None, None, None, None, gs]))
    for n in nid:
        ps = comp(rng) if rng.random() < (.7 if gs else .15) else None
        if ps:
            want_ps[n] = ps
        elif gs:
            want_ps[n] = gs
        cards.append(("GRID", [n, None] + list(coords[n]) + [None, ps]))
    cards.append(("MAT1", [1, 2.1e11, None, .3]))
    cards.append(("PBAR", [1, 1, 2., .4, .3, .5]))
    for k in range(nb):
        cards.append(("CBAR", [k + 1, 1, nid[k], nid[k + 1], 0.1, 0.2, 1.]))
    sets = {}      # sid -> {(node, dof): value}
    nsets = rng.randint(1, 4)
    sids = ids(rng, nsets + 3, hi=400)
    feats = set()

    def put(sid, n, c, v=0.):
        for k in c:
            key = (n, int(k))
            if key in sets[sid] and sets[sid][key] != v:
                return False
        for k in c:
            sets[sid][(n, int(k))] = v
        return True
    for sid in sids[:nsets]:
        sets[sid] = {}
        for _ in range(rng.randint(1, 4)):
            t = rng.random()
            c = comp(rng)
            if t < .4:
                nn = rng.sample(nid, rng.randint(1, min(len(nid), 12)))
                twice = rng.random() < .2  # freedoms fixed by two cards of a set
                for n in nn:
                    if any((n, int(k)) in sets[sid] and not (twice and sets[sid][(n, int(k))] == 0.) for k in c):
                        nn = [x for x in nn if x != n]
                for n in nn:
                    put(sid, n, c)
                if nn:
                    cards.append(("SPC1", [sid, c] + nn))
                    feats.add("SPC1")
            elif t < .6:
                lo, hi = sorted(rng.sample(range(min(nid), max(nid) + 1), 2)) if max(nid) > min(nid) + 1 else (min(nid), max(nid))
                inr = [n for n in nid if lo <= n <= hi]
                # THRU ranges name existing grids only
                run = [n for n in sorted(nid)]
                a = rng.randrange(len(run))
                b = a
                while b + 1 < len(run) and run[b + 1] == run[b] + 1:
                    b += 1
                if b > a and all((n, int(k)) not in sets[sid] for n in run[a:b + 1] for k in c):
                    cards.append(("SPC1", [sid, c, run[a], "THRU", run[b]]))
                    for n in run[a:b + 1]:
                        put(sid, n, c)
                    feats.add("THRU")
            else:
                f = [sid]
                for _ in range(rng.randint(1, 2)):
                    n, c = rng.choice(nid), comp(rng)
                    # one sign and size per node keeps the card legal; values of one dof never conflict
                    v = dec(rng, -.5, .5, 3) if values and rng.random() < .4 else 0.
                    if any((n, int(k)) in sets[sid] for k in c) or (v and n in want_ps and set(c) & set(want_ps[n])):
                        continue
                    if v and any((n, int(k)) in s for s in sets.values() for k in c):
                        continue
                    put(sid, n, c, v)
                    f += [n, c, v]
                    feats.add("SPC" if not v else "SPC-value")
                if len(f) > 1:
                    cards.append(("SPC", f))
    for sid in list(sets):
        if not sets[sid]:
            n = rng.choice(nid)
            sets[sid][(n, 1)] = 0.
            cards.append(("SPC1", [sid, "1", n]))
    basic = list(sets)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        # unions of sets whose values do not contradict each other; unions may share members
        members = rng.sample(basic, rng.randint(1, len(basic)))
        u = {}
        okv = True
        for m in members:
            for k, v in sets[m].items():
                if u.setdefault(k, v) != v:
                    okv = False
        if okv:
            nsets += 1
            sid = sids[nsets - 1]
            cards.append(("SPCADD", [sid] + members))
            sets[sid] = u
            feats.add("SPCADD")
    lsid = 901
    cards.append(("FORCE", [lsid, nid[0], None, 5., 1., 0., 0.]))
    cards.append(("FORCE", [lsid + 1, nid[-1], None, 7., 0., 1., 0.]))
    # case control
    glob = rng.choice(list(sets)) if rng.random() < .6 else None
    if glob:
        d.case.append("SPC=%d" % glob)
    sub_sets = []
    nsub = rng.randint(1, 4)
    scid = 0
    for k in range(nsub):
        scid += rng.randint(1, 4)
        own = rng.choice(list(sets)) if rng.random() < .7 else None
        if to == "SYSTUS" and not own and not glob:
            own = rng.choice(list(sets))
        body = ["  LOAD=%d" % (lsid + k % 2)]
        if own:
            body.append("  SPC=%d" % own)
        if rng.random() < .3:
            # a request of forces selects nodes, not constraints
            w = rng.choice(list(sets))
            if not any(c.startswith("SET %d=" % w) for c in d.case):
                d.case.insert(0, "SET %d=%s" % (w, ",".join(map(str, sorted(rng.sample(nid, min(2, len(nid))))))))
            body.append("  %s%s=%s" % (rng.choice(("SPCFORCES", "SPCF", "MPCFORCES")), rng.choice(("", "(PRINT)", "(SORT1,REAL)")), rng.choice((w, "ALL"))))
        rng.shuffle(body)
        d.case += ["SUBCASE %d" % scid] + body
        sub_sets.append(own or glob)
    # displacements imposed by a load set, on freedoms that every subcase using it fixes
    spcd = {}
    if values and to != "SYSTUS" and rng.random() < .5:
        for j in (0, 1):
            mine = [s for k, s in enumerate(sub_sets) if k % 2 == j]
            if not mine or None in mine:
                continue
            both = {key for key in sets[mine[0]] if all(key in sets[s] for s in mine) and str(key[1]) not in (want_ps.get(key[0]) or "")}
            pick = {}
            for n in sorted({n for n, _ in both}):
                ks = sorted(k for m, k in both if m == n)
                if rng.random() < .5:
                    continue
                ks = rng.sample(ks, rng.randint(1, len(ks)))
                cut = rng.randint(0, len(ks)) if rng.random() < .6 else len(ks)
                for part in (ks[:cut], ks[cut:]):
                    if part:
                        v = dec(rng, .1, .9, 3) * rng.choice((-1, 1))
                        pick.setdefault(len(pick), (n, "".join(map(str, sorted(part))), v))
            rows = list(pick.values())
            rng.shuffle(rows)
            while rows:
                take = rows[:rng.randint(1, 2)]
                rows = rows[len(take):]
                cards.append(("SPCD", [lsid + j] + [x for r in take for x in r]))
                for n, c, v in take:
                    for k in c:
                        spcd.setdefault(j, {})[(n, int(k))] = v
            if j in spcd:
                feats.add("SPCD")
    rng.shuffle(cards)
    for name, f in cards:
        d.add(name, *f)
    want = []
    for j, s in enumerate(sub_sets):
        w = dict(sets[s]) if s else {}
        w.update(spcd.get(j % 2, {}))
        for n, c in want_ps.items():
            for k in c:
                w.setdefault((n, int(k)), 0.)
        want.append(w)
    if want_ps:
        feats.add("PS")
    if gs:
        feats.add("GRDSET")
    return d, coords, want, feats


def fmt(r):
    return " + ".join("%g*N%s.%d" % (v, n, k) for (n, k), v in r.items())


def check_aster(out, coords, want, case):
    nm = NodeMap(coords, med_coords(out.med))
    an = out.comm.analyses()
    if len(an) != len(want):
        raise Violation("analysis-count", "%d analyses for %d subcases" % (len(an), len(want)))
    for i, ((oid, c), w) in enumerate(zip(an, want)):
        rows, used = kine.aster_rows(out.comm, c, nm, coords, out.med.nodegroups)
        d = lineq.compare([({k: 1.}, v) for k, v in w.items()], rows, fmt)
        if d:
            raise Violation("constraints", "subcase number %d: %s" % (i + 1, d))


def check_systus(out, coords, want, case):
    # subcases with equal constraints share a file; the load names say which analyses a file is for
    scids = [int(l.split()[1]) for l in case if l.startswith("SUBCASE")]
    done = set()
    k = 1
    while out.r.text("_SC%d_DATA1.ASC" % k) is not None:
        a = out.asc(k)
        k += 1
        s = set()
        for n, v in a.nodes.items():
            for b in range(6):
                if v["iconst"] >> b & 1:
                    s.add((n, b + 1))
            if v["iconst"] >> 6:
                raise Violation("constraints", "node %d has constraint code %d" % (n, v["iconst"]))
        of = {int(m.group(1)) for v in a.loads.values() for m in [re.match(r"Analysis_(\d+)", v["name"])] if m}
        if not of or not of <= set(scids) or of & done:
            raise Violation("analysis-count", "file %d is for the analyses %s of %s" % (k - 1, sorted(of), scids))
        done |= of
        for c in of:
            w = set(want[scids.index(c)])
            if w != s:
                raise Violation("constraints", "subcase %d: missing %s, spurious %s" % (c, sorted(w - s)[:6], sorted(s - w)[:6]))
    if done != set(scids):
        raise Violation("analysis-count", "subcases %s were not written" % sorted(set(scids) - done))


def check_nastran(out, coords, want, case):
    b = out.nas
    subs, cur = [], None
    for l in b.case:
        m = re.match(r"\s*SUBCASE\s+(\d+)", l)
        if m:
            cur = {}
            subs.append(cur)
        m = re.match(r"\s*(SPC|LOAD)\s*=\s*(\d+)", l)
        if m and cur is not None:
            cur[m.group(1)] = int(m.group(2))
    if len(subs) != len(want):
        raise Violation("analysis-count", "%d subcases written for %d" % (len(subs), len(want)))
    sets = {}
    for c in b.of("SPC1"):
        for f in c.f[2:]:
            if f:
                for k in c.get(1):
                    sets.setdefault(c.i(0), {})[(int(f), int(k))] = 0.
    for c in b.of("SPC"):
        for k0 in (1, 4):
            if c.get(k0):
                for k in c.get(k0 + 1):
                    sets.setdefault(c.i(0), {})[(c.i(k0), int(k))] = c.r(k0 + 2, 0.)
    perm = {(c.i(0), int(k)): 0. for c in b.of("GRID") for k in c.get(6)}
    adds = {c.i(0): [int(x) for x in c.f[1:] if x] for c in b.of("SPCADD")}
    for i, (s, w) in enumerate(zip(subs, want)):
        sid = s.get("SPC")
        have = dict(perm)
        for m in ([sid] if sid not in adds else adds[sid]) if sid is not None else []:
            have.update(sets.get(m, {}))
        for c in b.of("SPCD"):
            for k0 in (1, 4):
                if c.i(0) == s.get("LOAD") and c.get(k0):
                    for k in c.get(k0 + 1):
                        if (c.i(k0), int(k)) not in have:
                            raise Violation("constraints", "subcase number %d: %s imposes a freedom which the SPC set %s leaves free" % (i + 1, c, sid))
                        have[(c.i(k0), int(k))] = c.r(k0 + 2, 0.)
        if set(have) != set(w) or any(not close(have[k], w[k], 1e-3, 1e-6) for k in w):
            raise Violation("constraints", "subcase number %d: SPC set %s constrains %s instead of %s" %
                            (i + 1, sid, sorted(have), sorted(w)))


def run(ctx):
    ctx.rule = ("beam chains with 1-4 SPC sets made of SPC, SPC1 (lists and THRU), SPCADD and GRID PS, selected above or "
                "in 1-4 subcases; non-trivial: at least two distinct dof sets or kinds of card")

    def one(to, chk):
        def f(rng, i):
            d, coords, want, feats = build(rng, to, values=(to != "SYSTUS"))
            opts = ["--nastran.OutputDialect=modern"] if "SPCD" in feats and to == "NASTRAN" else []
            out = Out(ctx, d.text(), to=to, opts=opts)
            try:
                chk(out, coords, want, d.case)
            except Violation as v:
                raise out.tag(v)
            for x in feats:
                ctx.stat(to + " " + x)
            ctx.stat("subcases observed", len(want))
            ctx.seen((to, repr(want)) if len(feats) > 1 or len(want) > 1 else None)
            ctx.sample({"to": to, "case": d.case, "features": sorted(feats)})
        return f
    ctx.cases("aster", ctx.n(250), one("ASTER", check_aster))
    ctx.cases("systus", ctx.n(150), one("SYSTUS", check_systus))
    ctx.cases("nastran", ctx.n(80), one("NASTRAN", check_nastran))
