"""Check driver: command line, known findings, violations, evidence."""
import argparse, hashlib, json, os, sys, time, traceback, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")
MAX_REPORT = 5


class Check:
    """One run of one property's check.

    states       distinct model states / inputs of the bounded space that were visited
    transitions  operations of the model executed
    traces       model traces replayed against the implementation with every observation compared
    """

    def __init__(self, prop, technique_note=""):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.parts = {}
        self.bounds = {}
        self.assumptions = []
        self.violations = {}
        self.known_hit = {}
        self.known = self._load_known()
        self.exhaustive = True

    @property
    def thorough(self):
        return self.tier == "thorough"

    def _load_known(self):
        known = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith("known: "):
                        kv = dict(p.split("=", 1) for p in line[7:].split(" ", 2)[:2])
                        if kv["property"] == self.prop:
                            known[kv["key"]] = line.split(" ", 3)[3] if line.count(" ") >= 3 else ""
        return known

    def count(self, states=0, transitions=0, traces=0, part=None):
        self.states += states
        self.transitions += transitions
        self.traces += traces
        if part:
            d = self.parts.setdefault(part, {"states": 0, "transitions": 0, "traces": 0})
            d["states"] += states
            d["transitions"] += transitions
            d["traces"] += traces

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s if len(str(s)) < 600 else str(s)[:600])

    def violation(self, key, detail):
        """key: short stable identifier of the specific failing input; detail: full replayable description."""
        key = "".join(c if c.isalnum() or c in "-_.:/" else "_" for c in key)[:160]
        if key in self.known:
            self.known_hit.setdefault(key, detail)
            return
        if key not in self.violations:
            self.violations[key] = detail

    def merge(self, res):
        """Merge a worker result dict {states, transitions, traces, violations:[(key,detail)], samples, part}."""
        self.count(res.get("states", 0), res.get("transitions", 0), res.get("traces", 0), res.get("part"))
        for k, d in res.get("violations", []):
            self.violation(k, d)
        for s in res.get("samples", []):
            self.sample(s)

    def finish(self):
        wall = time.time() - self.t0
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces,
                         "exhaustive": self.exhaustive, "samples": self.samples or ["(none)"],
                         "bounds": self.bounds, "parts": self.parts,
                         "known_findings_reproduced": sorted(self.known_hit)},
            "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, self.known.get(k, "")))
        if self.violations:
            rd = os.path.join(VERIF, "replays", self.prop)
            os.makedirs(rd, exist_ok=True)
            for k in list(self.violations)[:MAX_REPORT]:
                path = os.path.join(rd, hashlib.sha1(k.encode()).hexdigest()[:12] + ".json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "key": k, "detail": self.violations[k]}, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + k + ": " + str(self.violations[k])[:700].replace("\n", "\n  "))
            if os.environ.get("ZVF_ALLKEYS"):
                print("\n".join("KEY " + k for k in self.violations))
            print("%d distinct violation(s)" % len(self.violations))
        print("%s %s: states=%d transitions=%d traces=%d wall=%.1fs %s" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, wall,
            "VIOLATED" if self.violations else "ok"))
        sys.stdout.flush()
        return 1 if self.violations else 0


def main(prop, body):
    """Runs body(check); any failure of the code under test that escapes is reported as a violation."""
    from . import zbuild
    chk = Check(prop)
    try:
        body(chk)
    except zbuild.BuildError as e:
        print("BUILD-ERROR (check could not run): %s" % e)
        sys.stdout.flush()
        sys.exit(2)
    except zbuild.GenError as e:
        chk.violation("generated-code-build", str(e))
    except Exception:
        chk.violation("unexpected-exception", traceback.format_exc())
    sys.exit(chk.finish())
