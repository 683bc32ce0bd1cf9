"""Obligations, violations, evidence."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def describe(note):
    if note[0] == "branch":
        return "%s is %s" % (note[1], note[2])
    if note[0] == "elements":
        return "another element of %r (#%d)" % (note[1], note[2])
    if note[0] == "fails":
        return "%s at %s raises %s" % (note[1], note[2], getattr(note[3], "name", note[3]))
    if note[0] == "handler":
        return "handled at %s" % (note[1],)
    return " ".join(map(str, note))


class Check(object):
    def __init__(self, pid, prog, tier="quick"):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.t0 = time.time()
        self.obligations = 0
        self.by_rule = {}
        self.violations = {}
        self.paths = 0
        self.events = 0
        self.functions = set()
        self.sites = set()
        self.samples = []
        self.scenarios = 0
        self.rules = {}
        self.assumptions = []

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, ok, loc, msg, st=None, sample=None):
        """One obligation. loc: 'file:function[:line]'."""
        self.obligations += 1
        c = self.by_rule.setdefault(rule, [0, 0])
        c[0] += 1
        if ok:
            c[1] += 1
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)
        else:
            self.violate(rule, loc, msg, st)
        return ok

    def violate(self, rule, loc, msg, st=None):
        key = "%s|%s|%s" % (rule, ":".join(str(loc).split(":")[:2]), msg)
        if key in self.violations:
            return
        path = []
        if st is not None:
            path = [describe(n) for n in st.all_notes()][-40:]
        self.violations[key] = {"rule": rule, "where": str(loc), "what": msg, "path": path,
                                "effects": [repr(e) for e in st.trace()][-25:] if st is not None else []}

    def absorb(self, it, results=()):
        """Account for one interpreter run."""
        self.scenarios += 1
        self.functions.update(f.loc for f in it.inlined)
        self.paths += len(results)
        for s, _ in results:
            self.events += s.nev

    def site(self, loc):
        self.sites.add(str(loc))

    # -- output -----------------------------------------------------------------
    def known(self):
        res = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith("known: property=%s " % self.pid):
                    body = line.split(" ", 2)[2]
                    key, _, what = body.partition(" :: ")
                    res[key.strip()] = what
        return res

    def finish(self, seed):
        known = self.known()
        bad, listed = [], []
        for key, v in self.violations.items():
            k = "%s@%s" % (v["rule"], ":".join(v["where"].split(":")[:2]))
            if k in known:
                listed.append((k, v))
            else:
                bad.append(v)
        for k, v in listed:
            print("KNOWN-FINDING: property=%s %s %s" % (self.pid, k, v["what"]))
        evd = os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        rep = os.path.join(evd, "%s.report.json" % self.pid)
        cov = {
            "explanation": "Static analysis of /repo's current source; nothing of it was run. Scenarios are abstract "
                           "entry states; every path of the inlined package functions from them was enumerated "
                           "(loops over unknown data bounded) and each obligation below was evaluated on the "
                           "paths, call sites or definitions it applies to.",
            "rules": {n: {"text": self.rules.get(n, ""), "evaluated": c[0], "held": c[1]}
                      for n, c in sorted(self.by_rule.items())},
            "obligations": self.obligations,
            "scenarios": self.scenarios,
            "paths": self.paths,
            "effects_on_paths": self.events,
            "functions_analysed": sorted(self.functions),
            "sites": sorted(self.sites)[:400],
            "samples": self.samples or ["no sample recorded"],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(bad)}
        with open(os.path.join(evd, "%s.json" % self.pid), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        print("%s: %d obligations, %d scenarios, %d paths, %d functions, %.1fs" % (
            self.pid, self.obligations, self.scenarios, self.paths, len(self.functions), time.time() - self.t0))
        if bad:
            with open(rep, "w") as f:
                json.dump(bad, f, indent=1)
                f.write("\n")
            for v in bad[:20]:
                print("  %s [%s] %s" % (v["where"], v["rule"], v["what"]))
                for p in v["path"][-12:]:
                    print("      when %s" % p)
            print("VIOLATION property=%s replay=%s" % (self.pid, rep))
            return 1
        if os.path.exists(rep):
            os.remove(rep)
        if not self.obligations:
            print("%s: nothing was analysed" % self.pid)
            return 2
        return 0
