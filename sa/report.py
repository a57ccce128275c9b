"""Outcome collection for one property check.

Obligations are three-valued: `ok` (shown for every path of the current source), `bad` (a named construct breaks the
rule) and `unk` (the construct is outside what the rule can read; recorded in the evidence, never an alarm). `floor`
fails closed when an anchor the rule needs has disappeared."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.oks, self.bads, self.unks = [], {}, []
        self.analysed = {}
        self.rules = []
        self.assumptions = []
        self.t0 = time.time()

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, what, n):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def ok(self, key, detail=""):
        self.oks.append((key, detail))

    def bad(self, key, where, msg):
        """key: stable identity without line numbers; where: file:line or function."""
        self.bads.setdefault(key, (where, msg))

    def unk(self, key, msg):
        if (key, msg) not in self.unks:
            self.unks.append((key, msg))

    def floor(self, name, got, want, where=""):
        if got < want:
            self.bad("floor:" + name, where, "the rule needs %d %s in the source and found %d" % (want, name, got))
        else:
            self.analysed[name] = got

    def finish(self):
        known = {}
        kp = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kp):
            for k in json.load(open(kp)).get("findings", []):
                if k["property"] == self.prop:
                    known[k["key"]] = k["what"]
        rc = 0
        viol = []
        for key in sorted(self.bads):
            where, msg = self.bads[key]
            if key in known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, known[key]))
                continue
            viol.append({"key": key, "where": where, "message": msg})
        edir = os.environ.get("SA_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(edir, exist_ok=True)
        replay = os.path.join("evidence", self.prop + ".violations.json")
        rp = os.path.join(edir, self.prop + ".violations.json")
        if viol:
            rc = 1
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "violations": viol}, f, indent=1)
            for v in viol:
                print("  %s\n    at %s\n    %s" % (v["key"], v["where"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        elif os.path.exists(rp):
            os.remove(rp)
        n = len(self.oks) + len(viol) + len(self.unks)
        for k, m in self.unks:
            print("  undecided: %s: %s" % (k, m))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
            "coverage": {
                "explanation": "Static analysis of the current source: " + " ".join(self.rules) +
                " Every obligation below was decided on this run from the type-checked program (Rust MIR) or the syntax tree (Python); nothing was executed.",
                "obligations": n, "discharged": len(self.oks), "undecided": [{"key": k, "why": m} for k, m in self.unks],
                "known_findings": [k for k in self.bads if k in known],
                "analysed": self.analysed,
                "samples": [{"obligation": k, "shown_by": d} for k, d in self.oks[:40]],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(viol),
        }
        with open(os.path.join(edir, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d shown, %d undecided, %d violations (%.1fs)" % (self.prop, n, len(self.oks), len(self.unks), len(viol), ev["wall_s"]))
        return rc
