"""Obligations, their outcome, and what is printed and recorded about them."""
import hashlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERIF_OUT = os.environ.get("VERIF_OUT")


class Broken(Exception):
    """An anchor of the analysis is missing, so that nothing can be said."""


class Report:
    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obligations = []
        self.analysed = {}
        self.rules = []
        self.assumptions = []
        self.notes = []
        self.facts = {}
        self.known_keys = load_known(prop)

    # -- what was analysed

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, name, n=1):
        self.facts[name] = self.facts.get(name, 0) + n

    # -- outcomes

    def _add(self, status, key, where, detail):
        self.obligations.append(dict(status=status, key=key, where=where, detail=detail))

    def ok(self, key, where="", detail=""):
        self._add("ok", key, where, detail)

    def violation(self, key, where, detail):
        self._add("violation", key, where, detail)

    def undecided(self, key, where, detail):
        self._add("undecided", key, where, detail)

    def known(self, kid, key, where, detail):
        """A violation of a form that is recorded as the known finding ``kid``."""
        if kid in self.known_keys:
            self._add("known", key, where, self.known_keys[kid])
        else:
            self._add("violation", key, where, detail)

    # -- the end

    def finish(self):
        by = {}
        for o in self.obligations:
            by.setdefault(o["status"], []).append(o)
        bad = by.get("violation", [])
        wall = time.time() - self.t0
        if not self.obligations:
            raise Broken("no obligations")
        cov = dict(
            obligations=len(self.obligations),
            discharged=len(by.get("ok", [])),
            undecided=[f"{o['key']}: {o['detail']}"[:300] for o in by.get("undecided", [])],
            known_findings=[f"{o['key']}: {o['detail']}"[:300] for o in by.get("known", [])],
            explanation="; ".join(self.rules),
            analysed=self.facts,
            samples=[f"{o['status']}: {o['key']} ({o['where']})" for o in self.obligations][:60],
        )
        if self.notes:
            cov["notes"] = self.notes
        ev = dict(
            property=self.prop,
            tier=self.tier,
            seed=self.seed,
            level="other",
            coverage=cov,
            assumptions=self.assumptions,
            wall_s=round(wall, 3),
            violations=len(bad),
        )
        d = os.path.join(VERIF_OUT or VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        print(
            f"{self.prop}: {len(self.obligations)} obligations, {len(by.get('ok', []))} discharged, "
            f"{len(by.get('known', []))} known, {len(by.get('undecided', []))} undecided, {len(bad)} violated; "
            + ", ".join(f"{k}: {n}" for k, n in self.facts.items())
            + f" ({wall:.1f} s)"
        )
        for o in by.get("undecided", []):
            print(f"  undecided: {o['key']} ({o['where']}): {o['detail'][:200]}")
        for o in by.get("known", []):
            print(f"KNOWN-FINDING: property={self.prop} {o['detail']} [{o['key']}, {o['where']}]")
        if bad:
            path = os.path.join(d, f"{self.prop}.violation.txt")
            with open(path, "w") as f:
                for o in bad:
                    f.write(f"{o['key']}\n  at {o['where']}\n  {o['detail']}\n\n")
            for o in bad:
                print(f"  {o['key']} at {o['where']}: {o['detail'][:400]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        return 0


def load_known(prop):
    """``{id: text}`` of the findings recorded (and not fixed) for a property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            head, _, text = line[len("finding:") :].strip().partition(" ")
            fields = dict(x.split("=", 1) for x in [head])
            rest = text.split(" ", 1)
            fields.update(dict([rest[0].split("=", 1)]))
            if fields.get("property") == prop:
                out[fields["id"]] = rest[1]
    return out
