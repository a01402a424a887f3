"""Verdicts, evidence and known findings."""
import json, os, sys, time
from facts import VERIF

KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Check:
    def __init__(self, pid, technique):
        self.pid = pid; self.technique = technique; self.t0 = time.time()
        self.viol = {}           # key -> message
        self.cov = {}            # measured counts
        self.samples = []
        self.obl = 0
        self.assume = []

    def ob(self, n=1):
        self.obl += n

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def violation(self, key, msg):
        """key: stable identity of the construct (no line numbers)"""
        self.viol.setdefault(key, msg)

    def floor(self, name, minimum):
        """Fail closed when fewer rule instances were found than were confirmed by hand."""
        n = self.cov.get(name, 0)
        if n < minimum:
            self.violation(f"floor:{name}", f"only {n} instances of '{name}' analysed, at least {minimum} are expected: the rule no longer reaches the code it must decide")

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def finish(self, explanation):
        known = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if not line: continue
                d = json.loads(line)
                if d.get("property") == self.pid and d.get("status") == "open":
                    known[d["key"]] = d
        new = {k: m for k, m in self.viol.items() if k not in known}
        for k, m in sorted(self.viol.items()):
            if k in known:
                print(f"KNOWN-FINDING: property={self.pid} {k}: {known[k]['what']}")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rep = os.path.join(VERIF, "evidence", f"{self.pid}.violations.txt")
        with open(rep, "w") as f:
            for k, m in sorted(new.items()):
                f.write(f"[{k}]\n{m}\n\n")
        cov = dict(self.cov)
        cov["obligations"] = self.obl
        cov["discharged"] = self.obl - len(self.viol)
        cov["explanation"] = explanation
        cov["rule"] = self.technique
        cov["samples"] = self.samples
        cov["known_findings_seen"] = sorted(k for k in self.viol if k in known)
        ev = {"property": self.pid, "tier": os.environ.get("VERIF_TIER", "quick") if os.environ.get("VERIF_TIER") in ("quick", "thorough") else "quick",
              "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other", "coverage": cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            for k, m in sorted(new.items()):
                print(f"  [{k}] {m}")
            print(f"VIOLATION property={self.pid} replay={rep}")
            return 1
        print(f"OK property={self.pid} obligations={self.obl} " + " ".join(f"{k}={v}" for k, v in self.cov.items()))
        return 0
