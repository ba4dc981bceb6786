"""python3 lib/check.py PROPERTY [--tier quick|thorough] [--seed N] [--case I]

Runs one property's check.  Exit 0: held on everything explored (listed findings
print KNOWN-FINDING).  Exit 1: VIOLATION lines.  Exit 2: the check itself failed."""
import argparse
import concurrent.futures
import hashlib
import importlib
import json
import os
import random
import re
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner  # noqa
import vbuild  # noqa

VERIF = vbuild.VERIF
KNOWN_FILE = os.path.join(VERIF, "known-findings.txt")


def known_findings():
    out = []
    if os.path.exists(KNOWN_FILE):
        for l in open(KNOWN_FILE):
            m = re.match(r"^finding: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m:
                out.append((m.group(1), m.group(2), m.group(3)))
    return out


class Violation(Exception):
    """Raised by an oracle: key identifies what fails, detail explains it."""

    def __init__(self, key, detail=""):
        super().__init__("%s: %s" % (key, detail))
        self.key, self.detail = key, detail


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.scratch = runner.Scratch()
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.findings = {}
        self.inconclusive = []
        self.stats = {}
        self.rule = ""
        self.assumptions = []
        self.known = [k for k in known_findings() if k[0] == pid]
        self.only = None
        self.keep = False

    def n(self, quick, thorough=None):
        f = float(os.environ.get("VERIF_SCALE", "1"))
        return max(1, int((quick if self.tier == "quick" else (thorough or quick * 12)) * f))

    def rng(self, *tag):
        return random.Random("%s:%s:%s" % (self.pid, self.seed, ":".join(map(str, tag))))

    def stat(self, name, k=1):
        with self.lock:
            self.stats[name] = self.stats.get(name, 0) + k

    def seen(self, what):
        """counts one evaluation; `what` identifies the distinct non-trivial case (None: trivial)"""
        with self.lock:
            self.evaluations += 1
            if what is not None:
                self.distinct.add(hashlib.sha1(repr(what).encode()).digest()[:10])

    def sample(self, x):
        with self.lock:
            if len(self.samples) < 4:
                self.samples.append(x)

    def vega(self, deck, **kw):
        r = runner.vega(self.scratch, deck, **kw)
        return r

    def violation(self, key, detail, replay):
        with self.lock:
            for _, k, text in self.known:
                if k == key:
                    self.findings.setdefault(k, [text, 0])[1] += 1
                    return
            self.violations.append((key, detail, replay))

    def cases(self, name, n, fn, workers=8):
        """Runs fn(rng, i) for i in range(n); fn raises Violation(key, detail).  fn may attach
        replay data by setting .replay on the exception."""
        def one(i):
            if self.only is not None and (name, i) != self.only:
                return
            if len(self.violations) >= 60:
                return
            rng = self.rng(name, i)
            try:
                fn(rng, i)
            except Violation as v:
                rp = dict(getattr(v, "replay", None) or {})
                rp.update(property=self.pid, key=v.key, detail=v.detail, group=name, case=i, seed=self.seed,
                          tier=self.tier,
                          rerun="python3 %s/lib/check.py %s --tier %s --seed %d --case %s:%d" %
                          (VERIF, self.pid, self.tier, self.seed, name, i))
                self.violation(v.key, v.detail, rp)
            except Inconclusive as e:
                with self.lock:
                    self.inconclusive.append("%s:%d %s" % (name, i, e))
            except Exception:
                # an output no oracle could make sense of
                v = Violation("unreadable-output", traceback.format_exc()[-1500:])
                self.violation(v.key, v.detail, {"property": self.pid, "group": name, "case": i, "seed": self.seed,
                                                 "detail": v.detail,
                                                 "rerun": "python3 %s/lib/check.py %s --tier %s --seed %d --case %s:%d" %
                                                 (VERIF, self.pid, self.tier, self.seed, name, i)})
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            for f in [ex.submit(one, i) for i in range(n)]:
                f.result()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("checks." + a.property.lower())
    ctx = Ctx(a.property, a.tier, a.seed)
    ctx.keep = a.keep
    if a.case:
        g, i = a.case.rsplit(":", 1)
        ctx.only = (g, int(i))
    try:
        runner.vegapp()
        mod.run(ctx)
    finally:
        if a.keep:
            print("kept", ctx.scratch.root)
        else:
            ctx.scratch.close()
    ev = {"property": a.property, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
          "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.distinct),
                       "rule": ctx.rule, "samples": ctx.samples[:4],
                       "observed": dict(sorted(ctx.stats.items())),
                       "inconclusive": ctx.inconclusive[:20],
                       "known_findings_seen": {k: v[1] for k, v in ctx.findings.items()}},
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(ctx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not a.case:
        p = os.path.join(VERIF, "evidence", a.property + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
    for _, k, text in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (a.property, text))
    print("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1fs" % (
        a.property, a.tier, a.seed, ctx.evaluations, len(ctx.distinct), len(ctx.violations), len(ctx.inconclusive),
        time.time() - t0))
    for k in sorted(ctx.stats):
        print("  %-40s %d" % (k, ctx.stats[k]))
    for x in ctx.inconclusive[:5]:
        print("  inconclusive:", x)
    if ctx.violations:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        bykey = {}
        for v in ctx.violations:
            bykey.setdefault(v[0], []).append(v)
        for k, vs in sorted(bykey.items()):
            key, detail, rp = vs[0]
            p = os.path.join(rdir, "%s-%s.json" % (a.property, hashlib.sha1(key.encode()).hexdigest()[:10]))
            with open(p, "w") as f:
                json.dump(rp, f, indent=1)
            print("  [%s] x%d %s" % (key, len(vs), detail[:600]))
            print("VIOLATION property=%s replay=%s" % (a.property, p))
        return 1
    if ctx.evaluations == 0 and not a.case:
        print("nothing was observed")
        return 2
    if ctx.inconclusive and len(ctx.inconclusive) > max(5, ctx.evaluations // 4):
        print("too many inconclusive cases")
        return 2
    return 0


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    try:
        rc = main()
    except vbuild.BuildError as e:
        print("BUILD ERROR", str(e)[-3000:])
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
