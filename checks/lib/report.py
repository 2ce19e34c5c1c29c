"""Violations, known findings, evidence."""
import json, os, time
from . import facts as FA

EVID = os.path.join(FA.VERIF, "evidence")
KNOWN = os.path.join(FA.VERIF, "known-findings.txt")


class Anchor(Exception):
    """A rule no longer finds what it is about."""


def known(pid):
    """finding:  property=<id> key=<key> :: text     (fixed: lines suppress nothing)"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith("finding:"):
                continue
            head, _, text = l[len("finding:"):].partition("::")
            kv = dict(x.split("=", 1) for x in head.split())
            if kv.get("property") == pid:
                out[kv["key"]] = text.strip()
    return out


class Report:
    def __init__(self, pid, t0):
        self.pid, self.t0 = pid, t0
        self.viol = []
        self.counts = {}
        self.notes = []
        self.samples = []
        self.rules = []

    def violation(self, key, where, msg, details=()):
        key = key.replace(" ", "_")
        if not any(v[0] == key for v in self.viol):
            self.viol.append((key, where, msg, list(details)))

    def rule(self, name, text, n, floor=1):
        """record a rule with the number of instances it was applied to"""
        self.rules.append({"rule": name, "text": text, "instances": n})
        self.counts["instances:" + name] = n
        if n < floor:
            raise Anchor(f"rule {name}: {n} instances found, at least {floor} expected")

    def count(self, k, n):
        self.counts[k] = self.counts.get(k, 0) + n

    def note(self, t):
        self.notes.append(t)

    def sample(self, t):
        self.samples.append(t)

    def finish(self):
        kn = known(self.pid)
        new, old = [], []
        for v in self.viol:
            (old if v[0] in kn else new).append(v)
        for v in old:
            print(f"KNOWN-FINDING: property={self.pid} {v[0]} {kn[v[0]]}")
        os.makedirs(EVID, exist_ok=True)
        tier = os.environ.get("VERIF_TIER", "quick")
        cov = {"explanation": "Static analysis of the type-checked MIR (and, where a rule says so, the sources) of the current tree. "
                              "Counts are obligations examined in this run.",
               "counts": self.counts, "rules": self.rules, "samples": self.samples, "notes": self.notes[:200],
               "violations": [{"key": v[0], "where": v[1], "message": v[2]} for v in self.viol]}
        ev = {"property": self.pid, "tier": tier if tier in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2)}
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.pid}: " + ", ".join(f"{k}={n}" for k, n in sorted(self.counts.items())))
        if not new:
            return 0
        rp = os.path.join(EVID, self.pid + ".violation.txt")
        with open(rp, "w") as f:
            for key, where, msg, det in new:
                f.write(f"{key}\n  at {where}\n  {msg}\n")
                for d in det:
                    f.write(f"    {d}\n")
        for key, where, msg, det in new:
            print(f"{where}: {key}: {msg}")
            for d in det[:12]:
                print("    " + str(d)[:600])
        print(f"VIOLATION property={self.pid} replay={os.path.relpath(rp, FA.VERIF)}")
        return 1
