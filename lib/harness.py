"""Common parts of all checks: findings, known findings, evidence, exit status."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.findings = []          # (key, text)
        self.counts = {}
        self.samples = []
        self.notes = []
        self.rules = []
        self.assumptions = []
        self.trusted = []
        self.keys = set()

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def rule(self, text):
        self.rules.append(text)

    def violation(self, key, text):
        """key: rule + construct, no line numbers"""
        if key in self.keys:
            return
        self.keys.add(key)
        self.findings.append((key, text))

    def parallel(self, fn, items, procs=8):
        """fn(child_ctx, item) for every item, in forked workers; merges counts, findings and samples in order"""
        import multiprocessing as mp
        items = list(items)
        global _par
        _par = (fn, items, self.prop, self.tier, self.seed)
        with mp.get_context("fork").Pool(min(procs, max(1, len(items)))) as pool:
            for res in pool.map(_par_run, range(len(items)), chunksize=1):
                if res[0] == "broken":
                    from front import AnalysisError
                    raise AnalysisError(res[1])
                if res[0] == "crash":
                    raise RuntimeError(res[1])
                for k, v in res[1].items():
                    self.count(k, v)
                for key, text in res[2]:
                    self.violation(key, text)
                for x in res[3]:
                    self.sample(x)
                self.notes.extend(res[4])

    def require(self, name, minimum):
        """Fail the analysis (not the property) if fewer instances than confirmed by hand were found"""
        from front import AnalysisError
        n = self.counts.get(name, 0)
        if n < minimum and not self.findings:
            raise AnalysisError("only %d %s were found, expected at least %d: the anchors moved" % (n, name, minimum))


_par = None


def _par_run(i):
    from front import AnalysisError
    fn, items, prop, tier, seed = _par
    c = Ctx(prop, tier, seed)
    try:
        fn(c, items[i])
    except AnalysisError as e:
        return ("broken", str(e))
    except Exception:
        return ("crash", traceback.format_exc())
    return ("ok", c.counts, c.findings, c.samples, c.notes)


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def main(prop, fn, technique, argv=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(prop, tier, seed)
    from front import AnalysisError
    try:
        fn(ctx)
    except AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    known = {k["key"]: k for k in known_findings() if k["property"] == prop and k.get("status") == "known"}
    new = []
    seen = 0
    for key, text in ctx.findings:
        if key in known:
            seen += 1
            print("KNOWN-FINDING: property=%s %s" % (prop, text.replace("\n", " ")))
        else:
            new.append((key, text))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's current sources (%s). Rules: %s" % (technique, " | ".join(ctx.rules)),
            "counts": ctx.counts,
            "samples": ctx.samples,
            "notes": ctx.notes,
            "known_findings_seen": seen,
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if new:
        rp = os.path.join(VERIF, "evidence", prop + ".violations.txt")
        with open(rp, "w") as f:
            for key, text in new:
                f.write("%s\n    %s\n" % (key, text))
        for key, text in new[:40]:
            print("  [%s] %s" % (key, text))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK property=%s %s (%.1fs)" % (prop, " ".join("%s=%s" % x for x in sorted(ctx.counts.items())), time.time() - ctx.t0))
    return 0
