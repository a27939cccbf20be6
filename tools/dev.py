"""dev.py FAMILY N [SEED]: run a generator and show rejections"""
import sys, json, time
import gen, genbevy, rx
fam, n = sys.argv[1], int(sys.argv[2])
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
bevy = hasattr(genbevy, fam)
f = getattr(genbevy if bevy else gen, fam)
ts = []
for i in range(n):
    t = f(seed * 1000003 + i)
    t["id"] = i
    ts.append(t)
rx.build_bevy() if bevy else rx.build()
t0 = time.time()
rs = rx.run_traces(ts, bevy=bevy)
t1 = time.time()
acc, rej, st, _ = rx.validate(rs, module=sys.argv[5] if len(sys.argv) > 5 else "BevyTrace" if bevy else "Trace")
print("run %.1fs tlc %.1fs acc %d rej %d states %d acts %d" % (t1 - t0, time.time() - t1, len(acc), len(rej), st, sum(len(t["acts"]) for t in ts)))
for k in sorted(rej, key=lambda k: len(json.dumps(ts[k])))[:int(sys.argv[4]) if len(sys.argv) > 4 else 4]:
    r = rej[k]
    print("----", k, "step", r["step"], r["why"])
    print("cfg", json.dumps({a: b for a, b in ts[k]["cfg"].items() if b and a not in ("cmp", "fin")}))
    for i, a in enumerate(ts[k]["acts"]):
        print("   ", "=>" if i + 1 == r["step"] else "  ", json.dumps(a), json.dumps(rs[k]["steps"][i]["ev"]) if i + 1 < r["step"] else "")
        if i + 1 >= r["step"]:
            break
    print(" expected", json.dumps(r["expected"]))
    print(" got     ", json.dumps(r["got"]))
