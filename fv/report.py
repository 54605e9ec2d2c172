"""Obligations, verdicts, evidence and known findings."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.obs = {}            # (rule, where, what) -> [ok, count, detail]
        self.functions, self.lines = set(), set()
        self.counts = {}
        self.assumptions = []
        self.notes = []
        self.files = {}
        self.partitions = 0

    # ------------------------------------------------------------ obligations
    @staticmethod
    def each(*parts):
        """run the parts of an analysis; one that cannot interpret the source does not keep the others from running"""
        from .model import Unsupported
        first = None
        for f in parts:
            try:
                f()
            except Unsupported as e:
                first = first or e
        if first is not None:
            raise first

    def ob(self, ok, rule, where, what, detail=""):
        """one obligation.  The same (rule, where, what) is one obligation, discharged if every
        partition discharges it."""
        k = (rule, str(where), what)
        e = self.obs.setdefault(k, [True, 0, ""])
        e[1] += 1
        if not ok and e[0]:
            e[0], e[2] = False, str(detail)
        return ok

    def interp(self, I, partitions=0):
        from .model import rel
        self.functions |= I.functions
        self.lines |= {(rel(p), l) for p, l in I.covered}
        self.partitions += partitions

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def violated(self):
        return any(not e[0] for e in self.obs.values())

    # ------------------------------------------------------------ verdict
    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith("known:"):
                    parts = line[6:].strip().split(None, 1)
                    if parts and parts[0] == f"property={self.pid}":
                        out.append(parts[1])
        return out

    def finish(self, prog, rule, level="other"):
        bad = [(k, e) for k, e in self.obs.items() if not e[0]]
        known = self.known()
        new, listed = [], []
        for k, e in bad:
            ident = f"{k[0]} | {k[1]} | {k[2]}"
            stable = f"{k[0]} | {k[2]}"
            (listed if any(x in (ident, stable) for x in known) else new).append((k, e))
        os.makedirs(EVID, exist_ok=True)
        cov = {
            "explanation": rule,
            "obligations": len(self.obs),
            "discharged": len(self.obs) - len(bad),
            "obligation_evaluations": sum(e[1] for e in self.obs.values()),
            "functions_analysed": len(self.functions),
            "statements_analysed": len(self.lines),
            "abstract_partitions": self.partitions,
            "samples": [f"{r} @ {w}: {t}" for (r, w, t) in sorted(self.obs)[:40]],
            "functions": sorted(f"{p}:{q}" for p, q in self.functions)[:200],
            "source_digest": prog.digest,
        }
        cov.update(self.counts)
        if self.notes:
            cov["notes"] = self.notes[:60]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        path = os.path.join(EVID, f"{self.pid}.json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join(EVID, f"{self.pid}.replay.txt")
        if os.path.exists(rp):
            os.remove(rp)
        for k, e in listed:
            print(f"KNOWN-FINDING: property={self.pid} {k[0]} | {k[1]} | {k[2]}")
        if new:
            with open(rp, "w") as f:
                for (r, w, t), e in new:
                    f.write(f"{r}\n  at    {w}\n  what  {t}\n  how   {e[2]}\n\n")
            for (r, w, t), e in new[:12]:
                print(f"  {r}\n    at {w}: {t}\n    {e[2][:400]}")
            print(f"VIOLATION property={self.pid} replay={os.path.relpath(rp, HERE)}")
            return 1
        print(f"{self.pid}: {len(self.obs)} obligations, {len(self.obs) - len(bad)} discharged, "
              f"{len(self.functions)} functions, {len(self.lines)} statements, {ev['wall_s']}s")
        return 0
