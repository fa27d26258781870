"""Collecting what a check covered, its violations, and the known findings."""
import json, os, re, time
import vlib

KNOWN = os.path.join(vlib.VERIF, "known-findings.txt")


def known_findings(pid):
    """Lines `finding: property=<id> <json> <text>`; the JSON object says which rejection is meant."""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) (\{.*\}) -- (.*)$", l.strip())
            if m and m.group(1) == pid:
                res.append((json.loads(m.group(2)), m.group(3)))
    return res


class Context:
    def __init__(self, pid, d):
        self.pid, self.dir = pid, d
        self.states = self.transitions = self.traces = 0
        self.violations, self.known_hit = [], set()
        self.samples, self.notes, self.extra = [], [], {}
        self.known = known_findings(pid)

    def count(self, judged, traces=None):
        self.states += judged.states
        self.transitions += judged.transitions
        self.traces += len(judged.ok) + len({r["id"] for r in judged.rejected}) if traces is None else traces

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    def violation(self, what, **data):
        for k, (match, text) in enumerate(self.known):
            if all(data.get(f) == v or (f == "what" and what == v) for f, v in match.items()):
                if k not in self.known_hit:
                    self.known_hit.add(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, text), flush=True)
                return
        self.violations.append((what, data))

    def finish(self):
        vdir = os.path.join(vlib.VERIF, "evidence", "replay")
        os.makedirs(vdir, exist_ok=True)
        for f in os.listdir(vdir):
            if f.startswith(self.pid + "-"):
                os.unlink(os.path.join(vdir, f))
        for n, (what, data) in enumerate(self.violations[:20]):
            path = os.path.join(vdir, "%s-%d.json" % (self.pid, n + 1))
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, what=what, **data), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
            print("   ", what, json.dumps(data)[:900], flush=True)
        if len(self.violations) > 20:
            print("... and %d more" % (len(self.violations) - 20))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": "thorough" if vlib.THOROUGH else "quick", "seed": vlib.SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.notes,
              "wall_s": round(time.time() - vlib.T0, 2), "violations": len(self.violations)}
        with open(os.path.join(vlib.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        vlib.log("%s: %d traces, %d states, %d violations" % (self.pid, self.traces, self.states, len(self.violations)))
        return 1 if self.violations else 0
