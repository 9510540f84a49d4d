"""python3 -m sa.check CXX [--tier quick|thorough]

Decides one property from the source text of the analysed tree.  Exit 0: every decided obligation holds; exit 1 and a VIOLATION
line: an obligation is refuted (the construct is named in the report); exit 2: no answer (a public anchor is gone, or nothing could
be decided)."""
import itertools
import argparse
import gc
import importlib
import json
import os
import pickle
import random
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)

from sa.harness import Analyser, Anchor, bigstack, host, same, diff, reach, site     # noqa: E402
from sa.values import Unsupported                                                     # noqa: E402

EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
FINDINGS = os.path.join(VERIF, "known_findings.txt")
TRUSTED = ["CPython's ast parser", "the analyser's models of Python builtins and of the numpy operations the package calls (sa/builtins_model.py, sa/npmodel.py)",
           "the specification oracles in sa/props"]


class Undetermined(Exception):
    pass


class Violation(object):
    def __init__(self, key, rule, text, sites):
        self.key, self.rule, self.text, self.sites = key, rule, text, sites


class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.A = Analyser()
        self.t0 = time.time()
        self.budget = float(os.environ.get("VERIF_BUDGET", "2400" if self.thorough else "420"))
        self.proved = {}
        self.undet = {}
        self.violations = []
        self.rules = {}
        self.partitions = 0
        self.samples = []
        self.skipped = 0
        self.queue = []
        self.verbose = bool(os.environ.get("VERIF_VERBOSE"))

    # ---- anchors: public API the property is about
    def anchor(self, *paths):
        m = self.A.fresh()
        for p in paths:
            parts = p.split(".")
            o = m.modules["histbook"].ns.get(parts[0])
            if o is None:
                raise Anchor("public name histbook.%s is gone" % p)
            for a in parts[1:]:
                o = o.lookup(a) if hasattr(o, "lookup") else None
                if o is None:
                    raise Anchor("public name histbook.%s is gone" % p)

    # ---- one obligation = one analysis context + one rule
    def ob(self, key, rule, src, env=None, judge=None, onraise=None, path_limit=200, orders=(0,)):
        """orders: iteration orders of sets to analyse (0 insertion, 1 reversed, n shuffled with seed n)."""
        self.queue.append((key, rule, src, env, judge, onraise, path_limit, orders))

    def drain(self):
        """Decide the collected obligations, on all cores (each worker analyses its share and reports the outcomes)."""
        if os.environ.get("VERIF_SHUFFLE"):             # development aid: see many kinds of obligations early
            random.Random(self.seed).shuffle(self.queue)
        n = max(1, min(int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 1), 8, len(self.queue) // 8 + 1))
        if n == 1:
            bigstack(self._share, self.queue)
            return
        self.A.fresh()
        gc.collect()
        gc.freeze()
        gc.set_threshold(100000, 50, 50)
        kids = []
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    os.close(r)
                    bigstack(self._share, self.queue[k::n])
                    data = pickle.dumps((self.proved, self.undet, self.violations, self.rules, self.partitions, self.samples, self.skipped, self.A.covered, self.A.contexts))
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(rc)
            os.close(w)
            kids.append((pid, r))
        lost = 0
        base = dict(self.rules)
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                data = f.read()
            _, st = os.waitpid(pid, 0)
            if st != 0 or not data:
                lost += 1
                continue
            proved, undet, violations, rules, partitions, samples, skipped, covered, contexts = pickle.loads(data)
            self.proved.update(proved)
            self.undet.update(undet)
            self.violations += [v for v in violations if v.key not in set(x.key for x in self.violations)]
            for rule, c in rules.items():
                self.rules[rule] = self.rules.get(rule, 0) + c - base.get(rule, 0)
            self.partitions += partitions
            self.samples = (self.samples + samples)[:6]
            self.skipped += skipped
            for k, c in covered.items():
                self.A.covered[k] = self.A.covered.get(k, 0) + c
            self.A.contexts += contexts
        if lost:
            self.undet["worker"] = "%d of %d analysis workers ended without a report" % (lost, n)

    def _share(self, queue):
        first = os.environ.get("VERIF_FIRST")           # development aid: stop at the first refuted obligation
        for q in queue:
            self.decide(*q)
            if first and self.violations:
                return

    def decide(self, key, rule, src, env=None, judge=None, onraise=None, path_limit=200, orders=(0,)):
        if time.time() - self.t0 > self.budget:
            self.skipped += 1
            return
        self.rules[rule] = self.rules.get(rule, 0) + 1
        bad, und, npart = None, None, 0
        try:
            for taken, (st, v), m in itertools.chain.from_iterable(self.A.run(src, env, path_limit=path_limit, order=o) for o in orders):
                npart += 1
                if st == "unsupported":
                    und = "%s at %s" % (v, getattr(v, "where", None))
                    continue
                try:
                    if st == "raise":
                        if onraise is None:
                            msg = "raises %s(%s)" % (v.name, v.msg())
                        else:
                            msg = onraise(m, v)
                    else:
                        msg = judge(m, v) if judge is not None else None
                except Undetermined as e:
                    und = str(e)
                    continue
                except Unsupported as e:
                    und = "judge: %s" % e
                    continue
                if msg:
                    sites = []
                    if st == "raise":
                        for s in (v.tb or [v.site])[:6]:
                            if s is not None:
                                sites.append("raised in " + site(tuple(s)))
                    for s, n in reversed(list(m.wlog.items())):
                        if s[0].startswith("histbook"):
                            sites.append("storage written at " + site(s))
                    fns = sorted(k if isinstance(k, str) else "%s:%s" % k[:2] for k in self.A.lastcovered)
                    bad = Violation(key, rule, msg, sites[:14])
                    bad.functions = fns
                    bad.taken = [str(t) for t in taken[:12]]
                    bad.src = src
                    break
        except Anchor:
            raise
        except Exception as e:
            und = "analyser/oracle error %s: %s" % (type(e).__name__, e)
            if self.verbose:
                traceback.print_exc()
        self.partitions += npart
        if bad is not None:
            self.violations.append(bad)
        elif und is not None:
            self.undet[key] = und
        elif npart == 0:
            self.undet[key] = "no feasible partition"
        else:
            self.proved[key] = rule
            if len(self.samples) < 6 and (len(self.proved) % 7 == 1):
                self.samples.append({"obligation": key, "rule": rule, "partitions": npart, "context": src.strip()[:600]})

    def static(self, key, rule, msg, sites=()):
        """An obligation decided by a purely syntactic / table analysis: msg is None when it holds."""
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if msg:
            v = Violation(key, rule, msg, list(sites))
            v.functions, v.taken, v.src = [], [], ""
            self.violations.append(v)
        else:
            self.proved[key] = rule


def findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            mt = re.match(r"finding: property=(\S+) key=(\S+) match=\"(.*?)\" (.*)$", line.strip())
            if mt and mt.group(1) == prop:
                out.append((mt.group(2), mt.group(3), mt.group(4)))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("sa.props." + a.prop.lower())
    ck = Check(a.prop, a.tier, seed)
    status = 0
    err = None
    try:
        bigstack(mod.run, ck)
        ck.drain()
    except Anchor as e:
        err = "anchor: %s" % e
    except Unsupported as e:
        err = "cannot analyse: %s at %s" % (e, getattr(e, "where", None))
    decided = len(ck.proved) + len(ck.violations)
    known, fresh = [], []
    fl = findings(a.prop)
    for v in ck.violations:
        for key, match, what in fl:
            if v.key == key and match in v.text:
                known.append((v, what))
                break
        else:
            fresh.append(v)
    wall = time.time() - ck.t0
    os.makedirs(EVIDENCE, exist_ok=True)
    fns = sorted("%s:%s" % (k if isinstance(k, str) else "%s %s" % tuple(k[:2]), n) for k, n in ck.A.covered.items())
    cov = {
        "explanation": getattr(mod, "EXPLAIN", "abstract interpretation of the package source under the listed contexts"),
        "obligations": decided + len(ck.undet), "discharged": len(ck.proved), "undetermined": len(ck.undet),
        "refuted": len(fresh), "known_findings": len(known), "skipped_for_time": ck.skipped,
        "rules": ck.rules, "analysis_contexts": ck.A.contexts, "trace_partitions": ck.partitions,
        "functions_analysed": len(fns), "functions": fns,
        "undetermined_obligations": dict(list(ck.undet.items())[:40]),
        "checker_cmd": "python3 -m sa.check %s --tier %s" % (a.prop, a.tier), "trusted_base": TRUSTED,
        "samples": ck.samples,
    }
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"), "coverage": cov,
          "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(wall, 2), "violations": len(fresh)}
    if err:
        cov["error"] = err
    with open(os.path.join(EVIDENCE, a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s [%s]: %d obligations, %d hold, %d undetermined, %d refuted, %d known; %d contexts, %d trace partitions, %d functions analysed, %.1f s" % (
        a.prop, a.tier, decided + len(ck.undet), len(ck.proved), len(ck.undet), len(fresh), len(known), ck.A.contexts, ck.partitions, len(fns), wall))
    for r, n in sorted(ck.rules.items()):
        print("  rule %-60s %d" % (r, n))
    for k, u in list(ck.undet.items())[:12 if not ck.verbose else 10**6]:
        print("  undetermined %s: %s" % (k, u))
    for v, what in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, v.key, what))
    if fresh:
        path = os.path.join(EVIDENCE, "%s.violation.txt" % a.prop)
        with open(path, "w") as f:
            for v in fresh:
                f.write("property %s\nobligation %s\nrule %s\nrefuted: %s\n" % (a.prop, v.key, v.rule, v.text))
                for s in v.sites:
                    f.write("  %s\n" % s)
                for t in v.taken:
                    f.write("  under %s\n" % t)
                f.write("functions on the path: %s\ncontext:\n%s\n\n" % (", ".join(v.functions), v.src))
        for v in fresh[:8 if not ck.verbose else 10**6]:
            print("  REFUTED %s (%s): %s" % (v.key, v.rule, v.text))
            for s in v.sites[:8]:
                print("      %s" % s)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    if err:
        print("ERROR no answer: %s" % err)
        return 2
    if decided == 0:
        print("ERROR no answer: no obligation could be decided")
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
