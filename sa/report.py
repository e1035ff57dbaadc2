"""Obligations, verdicts, evidence, known findings."""
import json
import os
import time

PROVED, VIOLATED, UNKNOWN = "proved", "violated", "undetermined"


class Report:
    def __init__(self, pid, tier, root="/repo", verif="/verif"):
        self.pid = pid
        self.tier = tier
        self.root = root
        self.verif = verif
        self.t0 = time.time()
        self.obs = []
        self.notes = []
        self.analysed = {}
        self.assumptions = []

    def add(self, key, status, detail="", loc=""):
        """key: stable identifier rule@construct (no line numbers)."""
        self.obs.append({"key": key, "status": status, "detail": "" if detail is None else str(detail), "loc": loc})

    def ok(self, key, detail="", loc=""):
        self.add(key, PROVED, detail, loc)

    def bad(self, key, detail, loc=""):
        self.add(key, VIOLATED, detail, loc)

    def unk(self, key, detail="", loc=""):
        self.add(key, UNKNOWN, detail, loc)

    def verdict(self, key, v, detail="", loc=""):
        """v: True / False / None."""
        self.add(key, PROVED if v is True else VIOLATED if v is False else UNKNOWN, detail, loc)

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def dedup(self):
        seen = {}
        out = []
        for o in self.obs:
            k = (o["key"], o["status"])
            if k in seen:
                seen[k]["instances"] = seen[k].get("instances", 1) + 1
                continue
            seen[k] = o
            out.append(o)
        return out

    def known(self):
        p = os.path.join(self.verif, "known_findings.jsonl")
        out = {}
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if not line or line.startswith("#"):
                    continue
                d = json.loads(line)
                if d.get("property") == self.pid and d.get("status") == "known":
                    out[d["key"]] = d
        return out

    def finish(self, rule, floor, level_note=""):
        """Print the outcome, write the evidence file; return the exit code."""
        known = self.known()
        obs = self.dedup()
        viol = [o for o in obs if o["status"] == VIOLATED]
        new = [o for o in viol if o["key"] not in known]
        old = [o for o in viol if o["key"] in known]
        proved = sum(1 for o in self.obs if o["status"] == PROVED)
        unk = [o for o in obs if o["status"] == UNKNOWN]
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": rule,
                "obligations": len(self.obs),
                "discharged": proved,
                "undetermined": [{"obligation": o["key"], "why": o["detail"][:300]} for o in unk][:80],
                "analysed": self.analysed,
                "expected_minimum_discharged": floor,
                "samples": [
                    {"obligation": o["key"], "status": o["status"], "detail": o["detail"][:300], "where": o["loc"]}
                    for o in obs[:60]
                ],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        if proved < floor:
            ev["coverage"]["below_floor"] = True
        scratch = os.path.realpath(self.root) != "/repo"
        d = os.path.join(self.verif if not scratch else "/tmp/sa-scratch", "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for o in old:
            print(f"KNOWN-FINDING: property={self.pid} {o['key']}: {o['detail'][:300]} [{o['loc']}]")
        print(f"{self.pid}: {len(self.obs)} obligations, {proved} proved, {len(unk)} undetermined, {len(new)} violated ({ev['wall_s']}s)")
        for o in unk[:20]:
            print(f"  undetermined: {o['key']}: {o['detail'][:200]}")
        if proved < floor:
            print(f"  note: fewer obligations discharged ({proved}) than confirmed by hand ({floor})")
        if new:
            rd = os.path.join(self.verif if not scratch else "/tmp/sa-scratch", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, self.pid + ".json")
            with open(path, "w") as f:
                json.dump({"property": self.pid, "violations": new}, f, indent=1)
            for o in new:
                print(f"  violated: {o['key']} at {o['loc']}: {o['detail'][:1500]}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        return 0
