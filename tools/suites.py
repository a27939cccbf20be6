"""Which suites decide which property."""
import genconc, json
import gen, genbevy, rx


def rand(run, name, fn, quick, thorough, **kw):
    n = quick if run.tier == "quick" else thorough
    base = (run.seed * 1000003 + sum(map(ord, name)) * 7919) % (1 << 40)
    out, step = [], 8000
    for k in range(0, n, step):
        part = [fn(base + i) for i in range(k, min(n, k + step))]
        run.conformance(part, name if n <= step else "%s.%d" % (name, k // step), **kw)
        if run.violations:
            return


def c04(run):
    rx.build()
    run.findings()
    rand(run, "sync", gen.c04, 12000, 150000)


def c05(run):
    rx.build()
    run.findings()
    rand(run, "subjects", gen.c05, 12000, 150000)


def c06(run):
    rx.build()
    run.findings()
    rand(run, "reentrant", gen.c06, 16000, 200000)


def c07(run):
    rx.build()
    run.findings()
    rand(run, "replaying", gen.c07, 12000, 150000)


def c08(run):
    rx.build()
    run.findings()
    rand(run, "scheduler", gen.c08, 12000, 150000)


def c09(run):
    rx.build()
    run.findings()
    rand(run, "timing", gen.c09, 16000, 200000)


def c10(run):
    rx.build()
    run.findings()
    rand(run, "creation", gen.c10, 12000, 150000)


def c11(run):
    rx.build()
    run.findings()
    rand(run, "flattening", gen.c11, 16000, 200000)


def c12(run):
    rx.build()
    run.findings()
    rand(run, "combining", gen.c12, 16000, 200000)


def c13(run):
    rx.build()
    run.findings()
    rand(run, "recovering", gen.c13, 16000, 200000)


def c14(run):
    rx.build()
    run.findings()
    rand(run, "sharing", gen.c14, 16000, 200000)


def c15(run):
    rx.build()
    run.findings()
    # what also happens to a lone subscription of a freshly built observable is not a matter of independence
    rand(run, "independent", gen.c15, 14000, 160000,
         also=lambda t: [gen.alone(t, a[1]) for a in t["acts"] if a[0] == "sub"])


# -- the contract of everything (C01, C02, C03): two specifications judge arbitrary compositions, the
#    contract automaton (Monitor) and the full model; each property counts the departures that are its own
WHY = {"C01": {"notification after the end", "notification after the destination closed", "panic"},
       "C02": {"closed twice", "teardown ran twice", "attached teardown did not run", "teardown ran while open",
               "closed subscription reports open", "reopened"},
       "C03": {"teardown of a source ran twice", "source still subscribed behind a closed consumer",
               "unsubscribing did not close", "work left in the scheduler", "deadlock", "crash"}}


def differs(r):
    """The kinds of events in which what was seen differs from what was expected."""
    def count(evs):
        c = {}
        for e in evs:
            c[json.dumps(e)] = c.get(json.dumps(e), 0) + 1
        return c
    a, b = count(r["expected"].get("ev", [])), count(r["got"].get("ev", []))
    return {json.loads(k)[0] for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)}


def own(prop):
    def keep(r):
        d = differs(r)
        if prop == "C01":
            return 8 in d or (d and d <= {2, 3, 4, 5} and bool(d & {2, 3})) or bool(d & {101, 102, 103})
        if d:
            return d <= {4, 5, 6, 9, 11} and bool(d & {4, 5, 6, 9, 11}) and (prop == "C03" or bool(d & {4, 5}))
        return "closed" in r["why"] or (prop == "C03" and "scheduler" in r["why"])
    return keep


def contract(prop):
    def check(run):
        rx.build()
        run.findings()
        if not run.violations:
            rand(run, "contract" + prop, gen.pl, 16000, 240000, module="Contract",
                 keep=lambda r: bool(set(r["why"]) & WHY[prop]))
        if not run.violations:
            rand(run, "composition" + prop, gen.plc, 16000, 160000, keep=own(prop))
    return check


def c16(run):
    rx.build_bevy()
    rand(run, "entities", genbevy.c16, 16000, 240000, module="BevyTrace")


def c17(run):
    rx.build_bevy()
    rand(run, "engine", genbevy.c17, 16000, 240000, module="BevyTrace")


def c18(run):
    """Programs of several threads: whatever comes out of running them in the real code, again and again, has
    to be among the outcomes of the specification, of which TLC explores every interleaving."""
    rx.build()
    thorough = run.tier == "thorough"
    ps = genconc.programs(run.seed, 160 if thorough else 40)
    reach = rx.outcomes(ps, run)
    seen = rx.run_threads([dict(p, rounds=400000 if thorough else 40000, ms=6000 if thorough else 1500) for p in ps])
    rounds = pairs = 0
    for p in ps:
        o = seen.get(p["id"])
        if o is None:
            raise rx.ToolError("no result for program " + p["id"])
        rounds += o["rounds"]
        pairs += len(o["out"])
        for out, count in o["out"]:
            key = out if out in ("panic", "hang", "crash") else rx.canon(json.loads(out))
            if key not in reach[p["id"]]:
                run.violation("%s %s: %d of %d rounds ended in %s, which no interleaving allows" % (
                    p["id"], json.dumps(p["thr"]), count, o["rounds"], key), {"program": p, "outcome": key})
    run.traces += rounds
    run.extra["suites"] = {"threads": {"programs": len(ps), "rounds": rounds, "distinct_outcomes_observed": pairs,
                                       "outcomes_reachable": sum(map(len, reach.values()))}}
    run.samples.append({"program": ps[-1], "observed": seen[ps[-1]["id"]]["out"][:4]})


SUITES = {"C18": c18, "C16": c16, "C17": c17, "C01": contract("C01"), "C02": contract("C02"), "C03": contract("C03"),
          "C15": c15, "C14": c14, "C13": c13, "C12": c12, "C11": c11, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": c10}
TECH = {"C18": "TLA+ specification of the lock-or-defer protocol, TLC explores every interleaving of small programs; outcomes of running them in the real code with threads have to be among them"}
NOTE = {"C18": "Bounded: enumerated and seeded programs of 2-3 threads with up to 5 calls in total. TLC explores all interleavings of "
               "the specification; the real code is sampled by running each program tens of thousands of times, so a fault needs to "
               "show up in one of those runs."}
HOOKS = None
