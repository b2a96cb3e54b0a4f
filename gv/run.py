"""Running automata over the program and turning what they find into a verdict."""
import json, os, sys, time
from . import anchors, build, engine, ir

KNOWN = os.path.join(build.VERIF, "known-findings.txt")


class Context:
    """the analysed program of one check run"""
    LIMIT = 600.0

    def __init__(self, tier="quick", seed=1):
        self.tier, self.seed = tier, seed
        self.scr = build.Scratch()
        self.scratch = self.scr.__enter__()
        self._mod = None
        self._eff = None
        self.found = []
        self.stats = {"functions": set(), "steps": 0, "obligations": 0, "rules": {}}
        self.extra = {}
        self.assumptions = []
        self.t0 = time.time()

    def close(self):
        self.scr.__exit__(None, None, None)

    @property
    def mod(self):
        if self._mod is None:
            self._mod = ir.Module(build.runtime(self.scratch, anchors.ALL))
        return self._mod

    @property
    def eff(self):
        if self._eff is None:
            self._eff = engine.Effects(self.mod, anchors.API)
        return self._eff

    def roots(self, skip=("crc16_generate", "crc32_generate")):
        return [f for f in self.mod.roots(anchors.ALL) if f.base not in skip]

    def run(self, make, roots=None, seed=None, mod=None, eff=None):
        """make(fn) -> monitor (or None to leave the function out)"""
        mons = []
        for f in (self.roots() if roots is None else roots):
            mon = make(f)
            if mon is None:
                continue
            e = engine.Engine(mod or self.mod, f, mon, eff or self.eff, seed)
            if self.tier == "thorough":
                e.CAP = 20000
            left = self.LIMIT - (time.time() - self.t0)
            e.BUDGET = max(5.0, min(e.BUDGET * (2 if self.tier == "thorough" else 1), left))
            e.run()
            if e.unfinished:
                self.extra.setdefault("unfinished", []).append("%s: %d states left when the time was up" % (f.base, e.unfinished))
                print("note: %s was not explored completely" % f.base)
            self.stats["functions"].add(f.base)
            self.stats["steps"] += e.steps
            self.stats["obligations"] += mon.instances
            mon.eng = e
            mons.append(mon)
            for v in mon.found.values():
                self.found.append(v)
        return mons

    def report(self, function, file, at, rule, message, path=()):
        self.found.append({"function": function, "file": file, "rule": rule, "at": at, "frames": [], "message": message,
                           "path": list(path)})

    def oblige(self, rule, n=1):
        self.stats["obligations"] += n
        self.stats["rules"][rule] = self.stats["rules"].get(rule, 0) + n

    def need(self, cond, what):
        if not cond:
            raise build.Broken(what)


def fingerprint(v):
    return "%s|%s|%s" % (v["rule"], v["function"], v["message"])


def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding:"):
                out.append(l[len("finding:"):].strip())
    return out


def verdict(pid, ctx, level, rule, explanation=None):
    """writes the evidence, prints the verdict and returns the exit code"""
    uniq = {}
    for v in ctx.found:
        uniq.setdefault(fingerprint(v), v)
    listed, fresh = [], []
    kn = [k.split("::", 1) for k in known() if k.startswith("property=%s " % pid)]
    kn = {k[1].strip(): k[0] for k in kn if len(k) == 2}
    for fp, v in uniq.items():
        (listed if fp in kn else fresh).append((fp, v))
    n = ctx.stats["obligations"]
    if n <= 0:
        raise build.Broken("no instance of the rule was found")
    cov = {"rule": rule, "functions": len(ctx.stats["functions"]), "function_names": sorted(ctx.stats["functions"])[:80],
           "abstract_steps": ctx.stats["steps"], "obligations": n, "discharged": n if not uniq else max(0, n - len(uniq)),
           "obligations_by_rule": ctx.stats["rules"]}
    if ctx._mod is not None:
        cov["units"] = ctx._mod.units
    cov.update(ctx.extra)
    if level == "other" or explanation:
        cov["explanation"] = explanation or rule
    if level == "proof":
        cov.setdefault("checker_cmd", "python3 /verif/check.py %s" % pid)
        cov.setdefault("trusted_base", ["clang 18 front end", "LLVM inliner and SROA", "tool/grx.cpp", "gv/ (analysis engine)",
                                        "tables of the rule in props/"])
    if level == "exploration":
        cov.setdefault("evaluations", n)
        cov.setdefault("distinct_nontrivial", n)
        cov.setdefault("samples", sorted(ctx.stats["functions"])[:10] or ["-"])
    ev = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - ctx.t0, 3), "violations": [v for _, v in fresh], "assumptions": ctx.assumptions}
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(build.VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for fp, v in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["at"], v["message"]))
    if fresh:
        d = os.path.join(build.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".txt")
        with open(path, "w") as f:
            for fp, v in fresh:
                t = "%s: [%s] in %s: %s" % (v["at"], v["rule"], v["function"], v["message"])
                f.write(t + "\n")
                for c in v.get("frames", []):
                    f.write("    frame %s\n" % c)
                for c in v.get("path", []):
                    f.write("    path  %s\n" % c)
                f.write("    id    %s\n" % fp)
        for fp, v in fresh[:20]:
            print("%s: [%s] in %s: %s" % (v["at"], v["rule"], v["function"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s: %d obligations in %d functions, %d abstract steps, %.1f s" %
          (pid, n, len(ctx.stats["functions"]), ctx.stats["steps"], time.time() - ctx.t0))
    return 0
