"""Small programs of several threads for one subject, shared subscriber or shared subscription (C18)."""
import random

FIXED = [
    ("subject", 2, 2, [], [[["next", 1], ["next", 2]], [["next", 3], ["next", 4]]]),
    ("subject", 2, 1, [], [[["next", 1], ["comp"]], [["sub", 2], ["next", 3]]]),
    ("subject", 2, 2, [], [[["next", 1], ["unsub", 1]], [["next", 3]], [["comp"]]]),
    ("subject", 2, 2, [], [[["next", 1], ["err", 8]], [["next", 3], ["comp"]]]),
    ("subject", 1, 1, [[1, 1, 9]], [[["next", 1], ["next", 2]], [["next", 3], ["all"]]]),
    ("subject", 2, 1, [], [[["comp"]], [["err", 8]], [["sub", 2]]]),
    ("subject", 2, 1, [], [[["err", 7]], [["err", 8]], [["sub", 2]]]),
    ("subject", 2, 1, [], [[["all"]], [["sub", 2]], [["next", 1]]]),
    ("subject", 2, 1, [], [[["all"]], [["sub", 2], ["unsub", 2]], [["comp"]]]),
    ("subject", 2, 2, [], [[["unsub", 1]], [["unsub", 2]], [["next", 1]]]),
    ("subject", 2, 2, [], [[["next", 1]], [["next", 2]], [["next", 3]]]),
    ("subject", 1, 1, [], [[["next", 1], ["next", 2], ["next", 3]], [["next", 4], ["next", 5]]]),
    ("subject", 3, 1, [], [[["sub", 2], ["next", 1]], [["sub", 3], ["next", 2]]]),
    ("subject", 3, 1, [], [[["sub", 2]], [["sub", 3]], [["comp"]]]),
    ("subject", 1, 1, [[1, 1, 9]], [[["next", 1]], [["comp"]]]),
    ("subject", 1, 1, [], [[["all"]], [["all"]], [["comp"]]]),
    ("shared", 1, 1, [], [[["next", 1], ["next", 2]], [["next", 3], ["next", 4]]]),
    ("shared", 1, 1, [], [[["next", 1]], [["next", 2]], [["next", 3]]]),
    ("shared", 1, 1, [], [[["next", 1], ["comp"]], [["next", 3], ["err", 8]]]),
    ("shared", 1, 1, [[1, 1, 9]], [[["next", 1], ["next", 2]], [["next", 3], ["all"]]]),
    ("shared", 1, 1, [], [[["all"]], [["next", 1], ["next", 2]], [["all"]]]),
    ("shared", 1, 1, [], [[["comp"]], [["err", 8]], [["all"]]]),
    ("subscription", 1, 1, [], [[["all"]], [["all"]]]),
    ("subscription", 1, 1, [], [[["all"]], [["all"]], [["all"]]]),
    ("subscription", 1, 1, [], [[["td", 1], ["all"]], [["td", 2]], [["td", 3], ["all"]]]),
    ("shared", 1, 1, [], [[["td", 1], ["comp"]], [["td", 2], ["next", 1]], [["all"]]]),
]


def fixed():
    return [dict(id="f%d" % i, kind=k, n=n, pre=pre, react=r, thr=t) for i, (k, n, pre, r, t) in enumerate(FIXED)]


def one(rng, i):
    kind = rng.choice(["subject", "subject", "subject", "shared", "shared", "subscription"])
    m = 3 if rng.random() < 0.35 else 2
    total = rng.randint(3, 4) if m == 3 else rng.randint(3, 5)
    lens = [1] * m
    for _ in range(total - m):
        j = rng.randrange(m)
        if lens[j] < 3:
            lens[j] += 1
    pre = rng.randint(1, 2) if kind == "subject" else 1
    n, owner, thr, sent = pre, {}, [], []
    for t in range(m):
        ops = []
        for j in range(lens[t]):
            mine = [k for k in range(1, n + 1) if owner.get(k, t) == t and not (k > pre and k not in owner)]
            x = rng.random()
            if kind != "subject" and rng.random() < 0.2 or kind == "subscription" and rng.random() < 0.6:
                ops.append(["td", 10 * (t + 1) + j])
            elif kind == "subscription":
                ops.append(["all"])
            elif x < 0.45:
                v = 10 * (t + 1) + j
                sent.append(v)
                ops.append(["next", v])
            elif x < 0.57:
                ops.append(["comp"])
            elif x < 0.67:
                ops.append(["err", 100 + 10 * t + j])
            elif x < 0.77 or kind == "shared":
                ops.append(["all"])
            elif x < 0.9 and n < 3:
                n += 1
                owner[n] = t
                ops.append(["sub", n])
            elif mine:
                k = rng.choice(mine)
                owner[k] = t
                ops.append(["unsub", k])
            else:
                v = 10 * (t + 1) + j
                sent.append(v)
                ops.append(["next", v])
        thr.append(ops)
    react = [[rng.randint(1, pre), rng.choice(sent), 99]] if sent and rng.random() < 0.25 else []
    return dict(id="r%d" % i, kind=kind, n=n, pre=pre, react=react, thr=thr)


def programs(seed, count):
    rng = random.Random(seed)
    return fixed() + [one(rng, i) for i in range(count)]
