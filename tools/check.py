"""check.py PROPERTY [quick|thorough]: decides one property.

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check could not decide."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen, rx, suites

VERIF = rx.VERIF


def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                f = json.loads(line)
                if f["property"] == prop:
                    out.append(f)
    return out


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.notes = [], [], []
        self.extra = {}

    def violation(self, what, data):
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump(dict(data, what=what), f, indent=1)
        self.violations.append((what, path))
        if len(self.violations) <= 3:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what[:1500])
            sys.stdout.flush()

    def conformance(self, traces, name, limit=8, module="Trace", keep=None, also=None):
        """Runs traces in the real code and validates what was recorded against the specification.
        keep: which rejections count (all of them by default).
        also: traces of which all must be accepted for the rejection of a trace to count."""
        for i, t in enumerate(traces):
            t["id"] = "%s-%d" % (name, i)
        rs = rx.run_traces(traces, bevy=module == "BevyTrace")
        acc, rej, states, gen_ = rx.validate(rs, module=module)
        self.states += states
        self.transitions += gen_
        self.traces += len(acc) + len(rej)
        other = {k: r for k, r in rej.items() if keep and not keep(r)}
        rej = {k: r for k, r in rej.items() if k not in other}
        by = {t["id"]: t for t in rs}
        order = sorted(rej, key=lambda k: len(json.dumps(by[k]["acts"][:rej[k]["step"]])))
        sure, unsure = self.confirm({k: by[k] for k in order[:40]}, module, keep)
        elsewhere = self.broken({k: also(by[k]) for k in sure}, module) if also and sure else []
        if elsewhere:
            sure = [k for k in sure if k not in elsewhere]
            other.update({k: rej[k] for k in elsewhere})
        self.extra.setdefault("suites", {})[name] = {
            "traces": len(rs), "acts": sum(len(t["acts"]) for t in rs), "accepted": len(acc),
            "rejected": len(sure), "not_reproducible": len(unsure)}
        if other:
            self.extra["suites"][name]["judged_by_another_property"] = len(other)
        if not sure and len(unsure) > max(3, len(rs) // 200):
            sure = unsure        # that is not the order in which subscribers are served any more
        for k in [k for k in order if k in sure][:limit]:
            t, r = by[k], rej[k]
            why = json.dumps(r["why"]) if "ev" not in (r.get("expected") or {}) else json.dumps(r["expected"].get("ev"))
            self.violation("%s: act %d %s: expected %s got %s" % (
                k, r["step"], json.dumps(r["act"]), why if "events" in r["why"] or module != "BevyTrace" else json.dumps(r["expected"]), json.dumps(r["got"])[:400]),
                {"trace": {"cfg": t["cfg"], "acts": t["acts"][:r["step"]]}, "rejection": r, "module": module})
        if rs and len(self.samples) < 4:
            t = rs[len(rs) // 2]
            self.samples.append({"suite": name, "acts": t["acts"][:12],
                                 "observed": [s["ev"] for s in t["steps"]][:12]})
        return {k: rej[k] for k in sure}

    def confirm(self, bad, module, keep, again=9):
        """A subject serves its subscribers in an unspecified order (that of a hash map), so a history may
        have several right outcomes; a rejected one is repeated, and only what is always rejected counts."""
        if not bad:
            return [], []
        copies = [dict(t, id="%s~%d" % (k, i)) for i in range(again) for k, t in bad.items()]
        _, rej, states, gen_ = rx.validate(rx.run_traces(copies, bevy=module == "BevyTrace"), module=module)
        self.states += states
        self.transitions += gen_
        sure = [k for k in bad if all(("%s~%d" % (k, i)) in rej and (not keep or keep(rej["%s~%d" % (k, i)]))
                                      for i in range(again))]
        return sure, [k for k in bad if k not in sure]

    def broken(self, groups, module):
        copies = [dict(t, id="%s/%d" % (k, i)) for k, ts in groups.items() for i, t in enumerate(ts)]
        _, rej, states, gen_ = rx.validate(rx.run_traces(copies, bevy=module == "BevyTrace"), module=module)
        self.states += states
        self.transitions += gen_
        return [k for k, ts in groups.items() if any(("%s/%d" % (k, i)) in rej for i in range(len(ts)))]

    def findings(self):
        """Known findings: recorded inputs on which the real code departs from the property. Reported
        while they are observed as recorded; anything else than that or the right behaviour is a violation."""
        fs = [f for f in load_findings(self.prop) if "trace" in f]
        if not fs:
            return
        rs = {t["id"]: t for t in rx.run_traces([dict(f["trace"], id=f["id"]) for f in fs])}
        for f in fs:
            got = [sorted(s["ev"]) for s in rs[f["id"]]["steps"]]
            if got == [sorted(x) for x in f["ideal"]]:
                continue
            if got == [sorted(x) for x in f["actual"]]:
                print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, f["id"], f["what"]))
            else:
                self.violation("%s: neither the recorded nor the right behaviour: %s" % (f["id"], json.dumps(got)),
                               {"trace": f["trace"]})


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    run = Run(prop, tier, seed)
    suites.SUITES[prop](run)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": dict({"states": run.states, "transitions": run.transitions,
                            "traces_validated_against_impl": run.traces, "samples": run.samples}, **run.extra),
          "wall_s": round(time.time() - t0, 1), "violations": len(run.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d traces validated, %d states, %d violations, %.1fs" % (
        prop, tier, run.traces, run.states, len(run.violations), time.time() - t0))
    sys.exit(1 if run.violations else 0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)
