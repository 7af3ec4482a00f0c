"""Evidence files, violation lines, known findings."""
import json
import os
import sys
import time

from mc import clock
from mc import explore as X

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = clock.real_monotonic()
        self.thorough = self.tier == "thorough"
        self.samples = []
        self.parts = []
        self.tot = {"states": 0, "transitions": 0, "traces": 0, "evaluations": 0, "distinct": 0, "schedules": 0,
                    "probes": 0}
        self.violations = []
        self.known_hits = {}
        self.rule = []
        self.assumptions = []
        self.errors = []
        self.exhaustive = True
        self.known = self._load_known()
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        from mc.op import scratch
        self.dir = scratch()
        self._n = 0

    # -- known findings
    def _load_known(self):
        out = {}
        p = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(p):
            with open(p) as f:
                for e in json.load(f):
                    if e.get("status") == "known" and e.get("property") == self.prop:
                        out[e["sig"]] = e["what"]
        return out

    def is_known(self, sig):
        return sig in self.known

    def shared(self):
        self._n += 1
        return X.Shared(os.path.join(self.dir, f"rec_{self.prop}_{self._n}.jsonl"))

    # -- running
    def left(self, budget):
        return budget - (clock.real_monotonic() - self.t0)

    def explore(self, scn, depth, note=""):
        if self.violations:
            return
        t = clock.real_monotonic()
        pid_samples = []
        sh = self.shared()
        # the scenario's provider is set up in a child so that scenarios cannot influence each other
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                X.explore(scn, depth, sh, self.is_known)
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 3
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
        st = os.waitpid(pid, 0)[1]
        if st != 0:
            self.errors.append(f"{scn.name}: exploration ended with {st}")
        self._collect(sh)
        p = {"scenario": scn.name, "depth": depth, "states": sh.total(X.C_STATES), "transitions": sh.total(X.C_TRANS),
             "merged": sh.total(X.C_DUP), "maximal_traces": sh.total(X.C_LEAF), "probes": sh.total(X.C_PROBE),
             "wall_s": round(clock.real_monotonic() - t, 2)}
        if note:
            p["note"] = note
        self.parts.append(p)
        self.tot["states"] += p["states"]
        self.tot["transitions"] += p["transitions"]
        self.tot["traces"] += p["maximal_traces"]
        self.tot["probes"] += p["probes"]
        del pid_samples

    def sweep(self, name, cases, run, isolate=True, rule="", setup=None, chunk=None):
        if self.violations:
            return {}
        cases = list(cases)
        t = clock.real_monotonic()
        sh = self.shared()
        if setup:
            setup()
        tot = X.sweep(cases, run, sh, self.is_known, isolate=isolate, name=name, chunk=chunk)
        self._collect(sh)
        ev = sh.total(X.C_EVAL)
        p = {"sweep": name, "cases": len(cases), "evaluations": ev, "distinct_outcomes": len(tot),
             "outcomes": dict(sorted(tot.items(), key=lambda kv: -kv[1])[:12]),
             "wall_s": round(clock.real_monotonic() - t, 2)}
        self.parts.append(p)
        self.tot["evaluations"] += ev
        if sh.total(X.C_SCHED):
            p["schedules"] = sh.total(X.C_SCHED)
            self.tot["schedules"] += p["schedules"]
        if sh.total(X.C_PROBE):
            p["requests"] = sh.total(X.C_PROBE)
            self.tot["probes"] += p["requests"]
        self.tot["distinct"] += len({json.dumps(c, default=str, sort_keys=True) for c in cases})
        if rule:
            self.rule.append(f"{name}: {rule}")
        if cases:
            self.sample(name, cases[len(cases) // 2])
        return tot

    def _collect(self, sh):
        for r in sh.records():
            if r["kind"] == "sample":
                self.sample(r["scenario"], r["trace"])
            elif r["kind"] == "known":
                self.known_hits.setdefault(r["sig"], r)
            elif r["kind"] == "crash":
                self.errors.append(r["msg"])
            else:
                self.violations.append(r)

    def violation(self, msg, sig=None, **info):
        sig = sig or msg
        if self.is_known(sig):
            self.known_hits.setdefault(sig, {"msg": msg, "sig": sig, "trace": [], "info": info})
            return
        self.violations.append({"kind": "violation", "msg": msg, "sig": sig, "trace": info.pop("trace", []),
                                "scenario": info.pop("scenario", "?"), "info": info})

    def sample(self, what, s):
        if len(self.samples) < 12:
            self.samples.append({"what": what, "case": json.loads(json.dumps(s, default=str))})

    # -- finishing
    def finish(self, level, explanation=None):
        wall = clock.real_monotonic() - self.t0
        cov = {
            "states": self.tot["states"],
            "transitions": self.tot["transitions"],
            "traces_validated_against_impl": self.tot["traces"],
            "evaluations": self.tot["evaluations"],
            "distinct_nontrivial": self.tot["distinct"],
            "schedules": self.tot["schedules"],
            "invariant_probes": self.tot["probes"],
            "rule": " | ".join(self.rule) or "all operation sequences up to the depth bound; a state is distinct by the "
                                             "canonical hash of provider and reference model",
            "samples": self.samples or [{"what": "none", "case": []}],
            "exhaustive": self.exhaustive and not self.violations,
            "parts": self.parts,
            "known_findings_seen": sorted(self.known_hits),
        }
        if explanation:
            cov["explanation"] = explanation
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for sig in sorted(self.known_hits):
            print(f"KNOWN-FINDING: property={self.prop} {self.known.get(sig, sig)}")
        print(f"{self.prop} [{self.tier}] states={cov['states']} transitions={cov['transitions']} "
              f"traces={cov['traces_validated_against_impl']} evaluations={cov['evaluations']} "
              f"schedules={cov['schedules']} wall={wall:.1f}s")
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            v = min(self.violations, key=lambda r: len(r["trace"]))
            path = os.path.join(d, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, **v}, f, indent=1, default=str)
            print(f"  {v['scenario']}: {v['msg']}")
            for o in v["trace"]:
                print(f"    {o}")
            if v.get("info"):
                print("   ", json.dumps(v["info"], default=str)[:1500])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if self.errors:
            print("ERROR of the check:", self.errors[:3])
            return 2
        return 0
