"""Trace generators: a trace is a configuration and a sequence of acts. They only
choose inputs; what must be observed is decided by the specification."""
import json
import random


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.id = 100

    def nid(self):
        self.id += 1
        return self.id

    def v(self):
        return [self.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9])]

    def cfg(self, **k):
        c = {"subjects": [], "obs": [], "conns": [], "react": [], "raw": False, "stored": False,
             "fin": True, "strict": False, "cmp": ["cl", "su"]}
        c.update(k)
        return c

    # -- synchronous operators ------------------------------------------------
    def sync_op(self, allow=None):
        r = self.r
        m = r.randint(2, 3)
        o = r.choice([
            ["map", r.randint(1, 9)], ["maps", self.nid()], ["filter", m, r.randrange(m)], ["fidx", m],
            ["fmap", m, r.randrange(m)], ["take", r.randint(0, 4)], ["skip", r.randint(0, 3)], ["first"],
            ["find", m, r.randrange(m)], ["findi", m, r.randrange(m)], ["elat", r.randint(0, 3)],
            ["elatd", r.randint(0, 4), self.v()], ["isempty"], ["count"], ["scan", self.v()],
            ["reduce", self.v()], ["pair"], ["buf", r.randint(1, 3)], ["sw", self.v()], ["ew", self.v()],
            ["enum"], ["tap", self.nid()], ["tapn", self.nid()], ["onn", m, r.randrange(m)],
            ["lo", m, r.randrange(m)], ["mat"], ["demat"], ["matdemat"], ["intores"],
            ["liftres", m, r.randrange(m)], ["maperr", 100], ["mapinto"], ["ident"], ["erase"],
            ["fin", self.nid()], ["onsub", self.nid()], ["onsub", self.nid(), r.randint(0, 9)],
            ["cmp", r.randrange(4)], ["errb"], ["mapnever"]])
        if o[0] in ("errb", "mapnever"):
            return ["intores"]
        return o

    def sync_ops(self, n):
        """an error swallowing operator is not put behind one that ends on its own: whether what
        the latter receives afterwards is still passed on is not settled by the documentation"""
        ops, own = [], False
        while len(ops) < n:
            o = self.sync_op()
            if o[0] in ("intores", "demat") and own:
                continue
            if o[0] in ("tap", "tapn", "maps") and self.ends(ops):
                continue
            if o[0] in ("take", "cmp", "first", "find", "findi", "elat", "elatd", "matdemat", "mat"):
                own = True
            ops.append(o)
        return ops

    @staticmethod
    def ends(ops):
        return any(o[0] in ("liftres", "demat", "matdemat", "mat") for o in ops)

    def sync_src(self):
        r = self.r
        vs = [self.v() for _ in range(r.randint(0, 5))]
        return r.choice([
            ["iter", vs], ["citer", self.nid(), vs], ["just", self.v()], ["empty"], ["throw", self.v()],
            ["closed"], ["never"], ["create", self.script()]])

    def script(self):
        r = self.r
        xs = [["n", self.v()] for _ in range(r.randint(0, 4))]
        xs.append(r.choice([["c"], ["e", self.v()], ["u"], ["n", self.v()]]))
        return xs

    def script1(self):
        r = self.r
        return [["n", self.v()] for _ in range(r.randint(0, 3))] + [r.choice([["c"], ["e", self.v()], ["c"]])]

    def subject_act(self, k, stop=0.12, prov=False):
        r = self.r
        x = r.random()
        if x < stop:
            return r.choice([["comp", k], ["err", k, self.v()], ["comp", k], ["usub", k]])
        return ["next", k, self.v()] + ([r.randint(0, 2)] if prov else [])


def pipe(o, ops):
    return ["p", o, ops] if ops else o


def c04(seed):
    g = G(seed)
    r = g.r
    ops = g.sync_ops(r.choice([1, 1, 1, 2, 2, 3, 4]))
    sync = r.random() < 0.3
    if any(o[0] in ("sw", "cmp") or o == ["take", 0] or o[0] == "onsub" and len(o) > 2 for o in ops):
        # whether a callback above a consumer that closed during subscribing still runs is not promised
        ops = [o for o in ops if o[0] not in ("tap", "tapn", "maps")] or [["enum"]]
    acts = []
    if sync:
        src = g.sync_src()
        names = {o[0] for o in ops}
        if src[0] == "create" and (names & {"tap", "tapn", "maps"} or
                                   (names & {"take", "elat", "elatd", "cmp"} and names & {"intores", "demat"})):
            src = ["iter", [g.v() for _ in range(3)]]
        acts = [["sub", 1, pipe(src, ops)]]
        if r.random() < 0.3:
            acts.append(["unsub", 1])
        subjects = []
    else:
        subjects = [["pub"]]
        acts = [["sub", 1, pipe(["subj", 0], ops)]]
        for _ in range(r.randint(2, 9)):
            x = r.random()
            if x < 0.04:
                acts.append(["unsub", 1])
            elif x < 0.08:
                acts.append(["td", 1, g.nid()])
            elif x < 0.10:
                acts.append(["drop", 1])
            else:
                acts.append(g.subject_act(0))
    return {"cfg": g.cfg(subjects=subjects, strict=True), "acts": acts}


# -- subjects -----------------------------------------------------------------
def subject_kind(g, kinds=("pub", "beh", "rep", "async", "asum", "prov")):
    r = g.r
    k = r.choice(kinds)
    return {"pub": ["pub"], "beh": ["beh", g.v()], "rep": ["rep", r.randint(1, 3)], "async": ["async"],
            "asum": ["asum"], "prov": ["prov", g.v(), r.randint(0, 2)]}[k]


def view(g, k, kind):
    """the observable of subject k; provenance subjects have several views"""
    if kind == "prov":
        return ["subj", k, g.r.randint(0, 3), g.r.randint(0, 2)]
    return ["subj", k]


def few_ops(g, p=0.4):
    r = g.r
    if r.random() > p:
        return []
    out = []
    for _ in range(r.choice([1, 1, 2])):
        out.append(r.choice([["map", r.randint(1, 9)], ["filter", 2, r.randrange(2)], ["take", r.randint(1, 3)],
                             ["skip", r.randint(0, 2)], ["scan", [0]], ["fin", g.nid()], ["pair"], ["enum"], ["first"],
                             ["tap", g.nid()], ["ew", [77]]]))
    return out


def subjects(g, kinds, nsub, nact, late=True, allow_td=True):
    r = g.r
    ss = [subject_kind(g, kinds) for _ in range(nsub)]
    acts, n = [], 0
    subs, linked = [], set()
    stop = r.choice([0.03, 0.08, 0.15])
    for _ in range(nact):
        x = r.random()
        k = r.randrange(nsub)
        if x < 0.28 or not subs and x < 0.7:
            n += 1
            o = pipe(view(g, k, ss[k][0]), few_ops(g))
            tgt = [j for j in range(nsub) if j > k and ss[j][0] != "prov"]
            if tgt and k not in linked and r.random() < 0.3 and ss[k][0] != "prov":
                linked.add(k)   # one outgoing link per subject: the order among subscribers is not promised
                acts.append(["subj", n, o, r.choice(tgt)])
            else:
                acts.append(["sub", n, o])
            subs.append(n)
        elif x < 0.36 and subs:
            acts.append([r.choice(["unsub", "unsub", "drop"]), r.choice(subs)])
        elif x < 0.40 and subs and allow_td:
            acts.append(["td", r.choice(subs), g.nid()])
        else:
            acts.append(g.subject_act(k, stop, ss[k][0] == "prov"))
    return ss, acts


def c05(seed):
    g = G(seed)
    r = g.r
    kinds = ("pub",) if r.random() < 0.7 else ("pub", "pub", "beh", "rep", "async", "asum", "prov")
    ss, acts = subjects(g, kinds, r.choice([1, 1, 2, 3]), r.randint(4, 16))
    return {"cfg": g.cfg(subjects=ss), "acts": acts}


def c07(seed):
    g = G(seed)
    r = g.r
    if r.random() < 0.5:
        ss, acts = subjects(g, ("beh", "rep", "async", "asum", "prov"), r.choice([1, 1, 2]), r.randint(4, 16))
        return {"cfg": g.cfg(subjects=ss, stored=True, cmp=["cl", "su", "st"]), "acts": acts}
    # somebody joins, leaves, speaks or ends the subject while a notification is being delivered
    ss = [subject_kind(g, ("beh", "rep", "async", "asum"))]
    ids = list(range(1, r.randint(1, 3) + 1))
    react, nested, acts = [], [20], []

    def call(who):
        x = r.random()
        if x < 0.5:
            nested[0] += 1
            return ["sub", nested[0], pipe(["subj", 0], few_ops(g, 0.2))]
        if x < 0.72:
            return ["next", 0, g.v()]
        if x < 0.78:
            return ["comp", 0]
        if x < 0.82:
            return ["err", 0, g.v()]
        if x < 0.85:
            return ["usub", 0]
        return [r.choice(["unsub", "drop"]), r.choice([who, r.choice(ids)])]

    who = r.choice(ids)
    for _ in range(r.randint(1, 3)):
        react.append([who, r.choice(["n", "n", "n", "e", "c", "x"]), r.randint(1, 4), [call(who) for _ in range(r.randint(1, 3))]])
    for i in ids:
        for _ in range(r.randint(0, 2)):
            acts.append(g.subject_act(0, 0.03))
        acts.append(["sub", i, pipe(["subj", 0], few_ops(g, 0.3))])
    for _ in range(r.randint(2, 8)):
        x = r.random()
        if x < 0.1:
            acts.append([r.choice(["unsub", "drop"]), r.choice(ids)])
        elif x < 0.25:
            nested[0] += 1
            acts.append(["sub", nested[0], pipe(["subj", 0], few_ops(g, 0.2))])
        else:
            acts.append(g.subject_act(0, 0.08))
    return {"cfg": g.cfg(subjects=ss, react=react, stored=True, cmp=["cl", "su", "st"]), "acts": acts}


# -- calls made from inside notifications --------------------------------------
def c06(seed):
    g = G(seed)
    r = g.r
    nsub = r.choice([1, 1, 1, 2, 2, 3])
    kinds = ("pub",) if r.random() < 0.75 else ("pub", "beh", "rep", "async")
    ss = [subject_kind(g, kinds) for _ in range(nsub)]
    nd = r.randint(1, 4)
    acts = []
    home = {}
    ids = list(range(1, nd + 1))
    for i in ids:
        k = 0 if i == 1 else r.randrange(nsub)
        home[i] = k
        ops = few_ops(g, 0.3)
        if r.random() < 0.1:
            ops = ops + [["tapn", 50 + i]]
        acts.append(["sub", i, pipe(["subj", k], ops)])
    nested = [20]

    def call(who, depth):
        """something a callback of `who` does"""
        x = r.random()
        k = home[who] if r.random() < 0.6 else r.randrange(nsub)
        if x < 0.40:
            return ["next", k, g.v()]
        if x < 0.48:
            return ["comp", k]
        if x < 0.54:
            return ["err", k, g.v()]
        if x < 0.58:
            return ["usub", k]
        if x < 0.70:
            return [r.choice(["unsub", "unsub", "drop"]), who]
        if x < 0.82:
            return [r.choice(["unsub", "drop"]), r.choice(ids)]
        if x < 0.85:
            return ["nop"]   # attaching a teardown to a subscription that is being notified deadlocks (known finding)
        nested[0] += 1
        home[nested[0]] = k
        return ["sub", nested[0], pipe(["subj", k], few_ops(g, 0.2))]

    react = []
    mode = r.random()
    if mode < 0.8:
        talker = {}
        for k in range(nsub):
            c = [i for i in ids if home[i] == k]
            if c and (k == 0 or r.random() < 0.5):
                talker[k] = r.choice(c)
        for k, i in talker.items():
            for _ in range(r.randint(1, 3)):
                on = r.choice(["n", "n", "n", "n", "e", "c", "x"])
                react.append([i, on, r.randint(1, 4), [call(i, 0) for _ in range(r.randint(1, 3))]])
            if r.random() < 0.2:
                react.append([50 + i, "n", 1, [call(i, 0)]])
        if len(talker) == 1 and len([x for x in react if x[1] == "n"]) == 1 and nested[0] == 21:
            react.append([21, r.choice(["n", "c", "e", "x"]), 1, [call(21, 1)]])
    else:
        # everybody leaves (or makes somebody leave) at the same notification
        at = r.randint(1, 3)
        for i in ids:
            react.append([i, "n", at, [[r.choice(["unsub", "drop"]), r.choice([i, i, r.choice(ids)])]]])
    for _ in range(r.randint(2, 9)):
        x = r.random()
        if x < 0.08:
            acts.append([r.choice(["unsub", "drop"]), r.choice(ids)])
        elif x < 0.13:
            nested[0] += 1
            acts.append(["sub", nested[0], pipe(["subj", r.randrange(nsub)], few_ops(g, 0.2))])
        else:
            acts.append(g.subject_act(r.randrange(nsub) if r.random() < 0.4 else 0, 0.06))
    return {"cfg": g.cfg(subjects=ss, react=react), "acts": acts}


# -- the scheduler ---------------------------------------------------------------
def user_work(g, ids, depth, top):
    """a work, with what it does when it runs"""
    r = g.r
    wid = ids.pop(0)
    kind = r.choice(["d", "d", "r", "r", "c", "i", "v", "v"])
    ms = r.choice([0, 1, 2, 3, 5, 7, 10])
    runs = []
    if r.random() < 0.5:
        for _ in range(r.choice([1, 1, 2])):
            runs.append([r.randint(1, 3), [work_act(g, ids, depth + 1, top + [wid]) for _ in range(r.randint(1, 2))]])
    done = r.choice([0, 0, 1, 2, 3, 5])
    return ["w", wid, kind, ms, r.choice([0, 0, 1]), r.randint(1, 3), runs, done]


def work_act(g, ids, depth, known):
    r = g.r
    x = r.random()
    if x < 0.4 and depth < 3 and ids:
        return user_work(g, ids, depth, known)
    w = r.choice(known)
    if x < 0.6:
        return ["cancel", w % 100]
    if x < 0.9:
        return ["invoke", w]
    return ["cinv", w]


def ticks(g):
    r = g.r
    x = r.random()
    if x < 0.85:
        return ["tick", r.choice([0, 1, 1, 2, 3, 5, 5, 10, 25])]
    return ["tickto", r.choice([0, 5, 10, 20, 40, 60])]


def c08(seed):
    g = G(seed)
    r = g.r
    # ids that agree modulo 100 share a cancellation id
    base = [i for i in range(1, 9)]
    share = [101, 102, 201, 103, 202]
    ids = base[:]
    for s in share:
        if r.random() < 0.5:
            ids.insert(r.randint(1, len(ids)), s)
    known, acts = [], []
    for _ in range(r.randint(4, 16)):
        x = r.random()
        if (x < 0.35 or not known) and ids:
            a = user_work(g, ids, 0, known + [ids[0]])
            known = known + [a[1]]
            acts.append(a)
        elif x < 0.75:
            acts.append(ticks(g))
        elif x < 0.85:
            acts.append(["cancel", r.choice(known) % 100])
        elif x < 0.96:
            acts.append(["invoke", r.choice(known)])
        else:
            acts.append(["cinv", r.choice(known)])
    acts += [["tick", r.choice([1, 5, 20])] for _ in range(r.randint(1, 3))]
    return {"cfg": g.cfg(cmp=["se"], strict=True), "acts": acts}


# -- creation observables ----------------------------------------------------------
def timed_src(g):
    r = g.r
    vs = [g.v() for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
    return r.choice([
        ["interval", r.choice([1, 2, 3, 5, 10]), r.choice([0, 0, 1]), r.choice([1, 2, 3, 10])],
        ["interval", r.choice([1, 2, 3, 5, 10]), r.choice([0, 0, 1]), r.choice([1, 2, 3, 10])],
        ["timer", r.choice([0, 1, 3, 5, 10])],
        ["iot", vs, r.choice([0, 1, 1, 2, 3]), r.choice([0, 0, 1])],
        ["ciot", vs, r.choice([0, 1, 1, 2, 3]), r.choice([0, 0, 1]), g.nid()]])


def sync_src(g):
    s = g.sync_src()
    if g.r.random() < 0.15:
        return ["def", g.nid(), s]
    if s[0] == "create" and g.r.random() < 0.5:
        return ["iter", [g.v() for _ in range(g.r.randint(0, 4))]]
    return s


def c10(seed):
    g = G(seed)
    r = g.r
    acts, ids, react = [], [], []
    n = r.choice([1, 1, 2, 3])
    for i in range(1, n + 1):
        o = timed_src(g) if r.random() < 0.75 else sync_src(g)
        ops = []
        if r.random() < 0.5:
            ops = [r.choice([["take", r.randint(0, 3)], ["take", r.randint(1, 3)], ["first"], ["map", 1], ["fin", g.nid()], ["skip", 1],
                             ["find", 2, r.randrange(2)], ["elat", r.randint(0, 2)], ["count"], ["ew", [77]]])]
        ids.append((i, pipe(o, ops)))
        if r.random() < 0.3:
            on = r.choice(["n", "n", "n", "c", "x", "e"])
            react.append([i, on, r.randint(1, 3), [[r.choice(["unsub", "drop"]), r.choice([i, i, r.randint(1, n)])]]])
    live = []
    for _ in range(r.randint(3, 14)):
        x = r.random()
        if ids and (x < 0.3 or not live):
            i, o = ids.pop(0)
            acts.append(["sub", i, o])
            live.append(i)
        elif x < 0.85:
            acts.append(ticks(g))
        elif x < 0.93:
            acts.append([r.choice(["unsub", "drop"]), r.choice(live)])
        else:
            acts.append(["td", r.choice(live), g.nid()])
    acts.append(["tick", r.choice([1, 10, 50])])
    return {"cfg": g.cfg(cmp=["cl", "se"], react=react), "acts": acts}


# -- timing operators -----------------------------------------------------------------
def timed_op(g):
    r = g.r
    d = r.choice([1, 2, 3, 5, 10])
    return r.choice([
        ["delay", r.choice([0, 1, 2, 3, 5, 10])], ["delay", d], ["obson"], ["subon", r.choice([0, 1, 3, 5])],
        ["deb", d], ["deb", r.choice([0, 1, 2, 3, 5, 10])], ["thr", d, r.randrange(3)], ["thr", d, r.randrange(3)], ["fws"],
        ["adsr", r.choice([0, 0, 1]), r.choice([0, 0, 1]), r.choice([1, 2, 5, 10]), r.choice([1, 2, 5, 10]),
         r.choice([1, 2, 5, 10]), 10 * r.randint(0, 10)]])


def c09(seed):
    g = G(seed)
    r = g.r
    ops = []
    for _ in range(r.choice([1, 1, 1, 2])):
        if r.random() < 0.25:
            ops.append(r.choice([["map", 1], ["filter", 2, 1], ["scan", [0]], ["take", r.randint(1, 4)]]))
        ops.append(timed_op(g))
    if r.random() < 0.3:
        ops.append(r.choice([["take", r.randint(1, 3)], ["map", 1], ["fin", g.nid()], ["skip", 1], ["first"], ["count"]]))
    x = r.random()
    subjects = [["pub"]]
    if x < 0.8:
        o = ["subj", 0]
    elif x < 0.9:
        o = timed_src(g)
    else:
        o = sync_src(g)
    acts = [["sub", 1, pipe(o, ops)]]
    if r.random() < 0.3:
        acts.insert(0, ["tick", r.choice([1, 5, 20])])
    react = []
    if r.random() < 0.3:
        for _ in range(r.choice([1, 1, 2])):
            a = r.choice([["next", 0, g.v()], ["next", 0, g.v()], ["comp", 0], ["err", 0, g.v()], ["unsub", 1], ["drop", 1]])
            react.append([1, r.choice(["n", "n", "n", "n", "c", "e", "x"]), r.randint(1, 3), [a]])
    for _ in range(r.randint(4, 16)):
        x = r.random()
        if x < 0.40:
            acts.append(["next", 0, [r.randint(0, 9)]])
        elif x < 0.85:
            acts.append(["tick", r.choice([0, 1, 1, 2, 3, 4, 5, 7, 10, 25])])
        elif x < 0.88:
            acts.append(["tickto", r.choice([0, 10, 30, 60])])
        elif x < 0.94:
            acts.append(r.choice([["comp", 0], ["comp", 0], ["err", 0, g.v()], ["usub", 0]]))
        elif x < 0.97:
            acts.append([r.choice(["unsub", "drop"]), 1])
        else:
            acts.append(["td", 1, g.nid()])
    acts += [["tick", r.choice([1, 10, 50])], ["tick", 10]]
    return {"cfg": g.cfg(subjects=subjects, cmp=["cl", "su", "se"], react=react), "acts": acts}


# -- flattening -----------------------------------------------------------------------
def inner(g, k, timed=False):
    """an inner observable driven by subject k, or a finished one"""
    r = g.r
    x = r.random()
    if x < 0.75:
        o = ["subj", k]
    elif x < 0.9:
        o = r.choice([["just", g.v()], ["iter", [g.v() for _ in range(r.randint(0, 3))]], ["empty"], ["throw", g.v()],
                      ["never"], ["closed"], ["create", g.script1()]])
    elif timed:
        o = timed_src(g)
    else:
        o = ["subj", k]
    ops = []
    if r.random() < 0.3:
        ops.append(r.choice([["map", r.randint(1, 9)], ["take", r.randint(1, 2)], ["fin", g.nid()], ["fin", g.nid()], ["ew", [77]], ["onsub", g.nid()],
                             ["sw", [66]], ["filter", 2, r.randrange(2)]]))
    if r.random() < 0.4:
        o = ["def", g.nid(), o]
    return pipe(o, ops)


def flat_ops_after(g, p=0.5):
    r = g.r
    if r.random() > p:
        return []
    return [r.choice([["map", r.randint(1, 9)], ["take", r.randint(1, 3)], ["take", r.randint(1, 3)], ["fin", g.nid()], ["scan", [0]],
                      ["first"], ["count"], ["pair"], ["filter", 2, r.randrange(2)], ["ew", [77]]])]


def flat_op(g, nin, timed=False, first=1):
    r = g.r
    ins = [inner(g, first + i, timed) for i in range(nin)]
    return [r.choice(["mm", "mm", "ma", "cm", "ca", "sm", "sm", "sa", "em", "em", "ea"]), r.choice([1, 1, 2, 3, 10, 0]), ins]


def fin_ids(o):
    """the ids of the finalizers of a pipeline's inner observables"""
    out = []

    def go(x, inside):
        if isinstance(x, list):
            if inside and len(x) == 2 and x[0] == "fin":
                out.append(x[1])
            for y in x:
                go(y, inside or x and x[0] in ("mm", "ma", "cm", "ca", "sm", "sa", "em", "ea", "merge", "concat"))
    go(o, False)
    return out


def c11(seed):
    g = G(seed)
    r = g.r
    nin = r.randint(2, 4)
    timed = r.random() < 0.2
    nested = r.random() < 0.15
    acts, react = [], []
    x = r.random()
    if x < 0.25:
        o = [r.choice(["merge", "merge", "concat"])]
        if o[0] == "merge":
            o.append(r.choice([0, 1, 2, 3, 10]))
        o.append([inner(g, 1 + i, timed) for i in range(nin)])
        o = pipe(o, flat_ops_after(g))
    else:
        pre = []
        if r.random() < 0.25:
            pre = [r.choice([["map", r.randint(0, 3)], ["filter", 2, r.randrange(2)], ["scan", [0]], ["skip", 1], ["fin", g.nid()], ["tap", g.nid()]])]
        ops = pre + [flat_op(g, nin, timed)]
        if nested:
            ops += [flat_op(g, 2, False, 1 + nin)]
        o = pipe(["subj", 0], ops + flat_ops_after(g))
    ns = 1 + nin + (2 if nested else 0)
    nd = 1
    acts.append(["sub", 1, o])
    if r.random() < 0.12 and not (o[0] == "p" and any(p[0] == "tap" for p in o[2])):
        acts.append(["sub", 2, o])
        nd = 2
    if nd == 1 and r.random() < 0.3:
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice([0, 0] + list(range(1, ns)))
            a = r.choice([["next", k, g.v()], ["next", k, g.v()], ["next", k, g.v()], ["comp", r.randint(1, ns - 1)], ["err", k, g.v()],
                          ["unsub", 1], ["drop", 1], ["usub", r.randint(1, ns - 1)]])
            react.append([1, r.choice(["n", "n", "n", "n", "c", "e", "x"]), r.randint(1, 3), [a]])
    # something happens while an inner observable is being torn down
    fins = fin_ids(o)
    if nd == 1 and fins and not nested and r.random() < 0.4:
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice([0, 0] + list(range(1, ns)))
            react.append([r.choice(fins), "t", r.choice([1, 1, 2]),
                          [r.choice([["next", k, g.v()], ["next", 0, g.v()], ["comp", k], ["err", k, g.v()]])]])
    stop = r.choice([0.05, 0.15, 0.3])
    for _ in range(r.randint(5, 18)):
        x = r.random()
        if x < 0.3:
            acts.append(["next", 0, [r.randint(0, 9)]])
        elif x < 0.35:
            acts.append(r.choice([["comp", 0], ["comp", 0], ["err", 0, g.v()], ["usub", 0]]))
        elif x < 0.40:
            acts.append(r.choice([["unsub", 1], ["drop", 1], ["td", 1, g.nid()], ["unsub", nd]]))
        elif timed and x < 0.55:
            acts.append(["tick", r.choice([1, 1, 2, 5, 10])])
        else:
            acts.append(g.subject_act(r.randint(1, ns - 1), stop))
    if nested:
        # a head that has finished hides what still runs behind it from its subscription (known finding)
        drop = (lambda a: a[0] in ("unsub", "drop")) if r.random() < 0.5 else (lambda a: a == ["comp", 0])
        acts = [a for a in acts if not drop(a)]
        react = [x for x in react if not any(drop(a) for a in x[3])]
    cmp = ["cl", "su"] + (["se"] if timed else [])
    return {"cfg": g.cfg(subjects=[["pub"]] * ns, cmp=cmp, react=react), "acts": acts}


# -- combining ------------------------------------------------------------------------
def comb_src(g, k, timed=False):
    r = g.r
    x = r.random()
    if x < 0.8:
        o = ["subj", k]
    elif timed and x < 0.9:
        o = timed_src(g)
    else:
        o = r.choice([["just", g.v()], ["iter", [g.v() for _ in range(r.randint(0, 4))]], ["empty"], ["throw", g.v()],
                      ["never"], ["closed"], ["create", g.script1()]])
    ops = []
    if r.random() < 0.3:
        ops.append(r.choice([["map", r.randint(1, 9)], ["take", r.randint(1, 2)], ["fin", g.nid()], ["ew", [77]], ["skip", 1],
                             ["sw", [66]], ["filter", 2, r.randrange(2)]]))
    if r.random() < 0.2:
        o = ["def", g.nid(), o]
    if r.random() < 0.3:
        ops.append(["fin", g.nid()])
    return pipe(o, ops)


def comb(g, a, b):
    r = g.r
    k = r.choice(["cl", "cl", "cc", "zip", "zip", "zip", "join", "wlf"])
    if k == "wlf":
        return pipe(a, [["wlf", b]])
    return [k, a, b] + ([r.choice([1, 2, 2, 3, 100]), r.randint(0, 1)] if k == "zip" else [])


def c12(seed):
    g = G(seed)
    r = g.r
    timed = r.random() < 0.1
    three = r.random() < 0.2
    acts, react = [], []
    o = comb(g, comb_src(g, 0, timed), comb_src(g, 1, timed))
    ns = 2
    if three:
        ns = 3
        o = comb(g, o, comb_src(g, 2)) if r.random() < 0.5 else comb(g, comb_src(g, 2), o)
    o = pipe(o, flat_ops_after(g, 0.35))
    acts.append(["sub", 1, o])
    nd = 1
    if r.random() < 0.1:
        acts.append(["sub", 2, o])
        nd = 2
    if nd == 1 and r.random() < 0.35:
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(ns)
            a = r.choice([["next", k, g.v()], ["next", k, g.v()], ["next", k, g.v()], ["comp", k], ["comp", k], ["err", k, g.v()],
                          ["unsub", 1], ["drop", 1], ["usub", k]])
            react.append([1, r.choice(["n", "n", "n", "n", "c", "e", "x"]), r.randint(1, 3), [a]])
    stop = r.choice([0.05, 0.1, 0.25])
    skew = [r.choice([1, 1, 3]) for _ in range(ns)]
    for _ in range(r.randint(5, 18)):
        x = r.random()
        if x < 0.05:
            acts.append(r.choice([["unsub", 1], ["drop", 1], ["td", 1, g.nid()], ["unsub", nd]]))
        elif timed and x < 0.2:
            acts.append(["tick", r.choice([1, 1, 2, 5, 10])])
        else:
            acts.append(g.subject_act(r.choices(range(ns), skew)[0], stop))
    cmp = ["cl", "su"] + (["se"] if timed else [])
    return {"cfg": g.cfg(subjects=[["pub"]] * ns, cmp=cmp, react=react), "acts": acts}


# -- error handling -------------------------------------------------------------------
def script13(g, sub, timed):
    """a source that fails, finishes or stays open while it is being subscribed to, or later"""
    r = g.r
    x = r.random()
    if x < 0.2:
        return ["throw", g.v()]
    if x < 0.35:
        return ["concat", [["iter", [g.v() for _ in range(r.randint(0, 3))]], ["throw", g.v()]]]
    if x < 0.42:
        return ["create", script1(g)]
    if x < 0.5:
        return r.choice([["just", g.v()], ["empty"], ["iter", [g.v() for _ in range(r.randint(0, 3))]], ["never"], ["closed"]])
    if timed and x < 0.6:
        return r.choice([["p", ["interval", r.choice([1, 2, 5]), r.randint(0, 1), r.randint(1, 3)], [["liftres", r.randint(2, 4), 1]]],
                         ["timer", r.choice([1, 2, 5])]])
    return async13(g, sub)


def script1(g):
    r = g.r
    xs = [["n", g.v()] for _ in range(r.randint(0, 3))]
    x = r.random()
    if x < 0.5:
        xs.append(["e", g.v()])
    elif x < 0.7:
        xs.append(["c"])
    return xs


def async13(g, sub):
    r = g.r
    o = sub()
    x = r.random()
    if x < 0.3:
        o = pipe(o, [["liftres", r.randint(2, 4), r.randint(0, 1)]])
    elif x < 0.5:
        o = pipe(o, [["fin", g.nid()]])
    return o


def pre13(g):
    r = g.r
    ops = []
    while r.random() < 0.3:
        ops.append(r.choice([["map", r.randint(0, 3)], ["filter", 2, r.randrange(2)], ["scan", [0]], ["skip", 1], ["fin", g.nid()],
                             ["pair"], ["enum"], ["maperr", 50]]))
    return ops


def post13(g):
    r = g.r
    ops = []
    while r.random() < 0.25:
        ops.append(r.choice([["map", r.randint(0, 3)], ["take", r.randint(1, 4)], ["first"], ["skip", 1], ["fin", g.nid()], ["count"],
                             ["ew", g.v()], ["sw", g.v()], ["maperr", 50], ["mat"], ["scan", [0]]]))
    return ops


def c13(seed):
    g = G(seed)
    r = g.r
    timed = r.random() < 0.15
    ns = r.randint(2, 3)
    left = list(range(ns))

    def sub():
        return ["subj", r.randrange(ns)]
    acts, react = [], []
    x = r.random()
    if x < 0.6:
        src = ["seq", g.nid(), [script13(g, sub, timed) for _ in range(r.randint(1, 5))]]
        o = pipe(src, pre13(g) + [["retry", r.choice([0, 1, 1, 2, 2, 3, 5])]])
        if r.random() < 0.15:      # recovery that is over at once
            o = pipe(o, [["catch", r.choice([["just", g.v()], ["empty"], ["throw", g.v()], ["iter", [g.v(), g.v()]]])]])
        elif r.random() < 0.1:
            o = pipe(o, [["retry", r.randint(0, 2)]])
    else:
        if r.random() < 0.25:
            src, rec = script13(g, sub, timed), r.choice([["just", g.v()], ["empty"], ["throw", g.v()], ["iter", [g.v(), g.v(), g.v()]],
                                                          ["create", script1(g)]])
            if rec[0] == "create" and rec[1][-1:] and rec[1][-1][0] not in "ec":
                rec[1].append(["c"])
            if rec[0] == "create" and not rec[1]:
                rec = ["empty"]
        else:
            src = async13(g, lambda: ["subj", 0])
            rec = r.choice([["subj", 1], ["p", ["subj", 1], [["fin", g.nid()]]], ["p", ["subj", 1], [["fin", g.nid()], ["map", 1]]],
                            ["def", g.nid(), ["subj", 1]], script13(g, lambda: ["subj", 1], timed)])
        o = pipe(src, pre13(g) + [["catch", rec]])
        if r.random() < 0.15:
            o = pipe(o, [["retry", r.randint(0, 2)]])
    o = pipe(o, post13(g))
    acts.append(["sub", 1, o])
    nd = 1
    if r.random() < 0.35:
        for _ in range(r.choice([1, 1, 2])):
            a = r.choice([["next", r.randrange(ns), g.v()], ["unsub", 1], ["unsub", 1], ["drop", 1], ["usub", r.randrange(ns)]])
            react.append([1, r.choice(["n", "n", "n", "n", "c", "e", "x"]), r.randint(1, 4), [a]])
    stop = r.choice([0.1, 0.2, 0.4])
    for _ in range(r.randint(3, 16)):
        x = r.random()
        if x < 0.05:
            acts.append(r.choice([["unsub", 1], ["drop", 1], ["td", 1, g.nid()], ["unsub", nd]]))
        elif timed and x < 0.3:
            acts.append(["tick", r.choice([1, 1, 2, 5, 10])])
        elif r.random() < stop:
            k = r.randrange(ns)
            acts.append(r.choice([["err", k, g.v()], ["err", k, g.v()], ["comp", k], ["usub", k]]))
        else:
            acts.append(["next", r.randrange(ns), g.v()])
    cmp = ["cl", "su"] + (["se"] if timed else [])
    return {"cfg": g.cfg(subjects=[["pub"]] * ns, cmp=cmp, react=react), "acts": acts}


# -- sharing --------------------------------------------------------------------
def shared_source(g, left, timed):
    """a source of a connectable; every subject is used by one source"""
    r = g.r

    def live():
        if timed and r.random() < 0.5:
            return r.choice([["interval", r.choice([1, 2, 5]), r.randint(0, 1), r.randint(1, 3)], ["timer", r.choice([1, 3, 5])]])
        return ["subj", left.pop()] if left else ["never"]
    x = r.random()
    if x < 0.35:
        o = live()
    elif x < 0.6:      # a different source for every connection
        o = ["seq", g.nid(), [live() if r.random() < 0.8 else r.choice([["just", g.v()], ["empty"], ["throw", g.v()]])
                              for _ in range(r.randint(2, 3))]]
    elif x < 0.75:     # values at once, then live
        o = ["concat", [["just", g.v()] for _ in range(r.randint(1, 2))] + [live()]]
    elif x < 0.82:
        o = ["merge", 2, [live(), live()]]
    elif x < 0.9:
        o = r.choice([["iter", [g.v() for _ in range(r.randint(0, 3))]], ["just", g.v()], ["empty"], ["throw", g.v()]])
    else:
        o = ["def", g.nid(), live()]
    ops = []
    for _ in range(r.choice([0, 1, 1, 2])):
        ops.append(r.choice([["fin", g.nid()], ["fin", g.nid()], ["map", r.randint(1, 9)], ["filter", 2, r.randrange(2)],
                             ["scan", g.v()], ["skip", 1], ["take", r.randint(1, 3)]]))
    return pipe(o, ops)


def c14(seed):
    g = G(seed)
    r = g.r
    timed = r.random() < 0.2
    ns = r.randint(1, 3)
    left = list(range(ns))
    r.shuffle(left)
    conns, obs, views = [], [], []
    for _ in range(r.choice([1, 1, 1, 2])):
        src = shared_source(g, left, timed)
        kind = r.choice(["pub", "pub", "rep", "beh"])
        bits = r.choice([0, 1, 1, 1, 3, 13, 13, 15, 15, r.randrange(16)])
        if r.random() < 0.5:
            if r.random() < 0.1:
                kind = "one"
            views.append(["conn", len(conns)])
            conns.append(["conn", src, kind, bits])
        else:
            views.append(["ref", len(obs)])
            obs.append(["p", src, [["share", kind, bits, 1000 + len(obs)]]])
    ids = [0]
    lone = len(views) == 1

    def consumer():
        v = r.choice(views)
        x = r.random()
        ops = []
        if x < 0.25:
            ops = [["take", r.randint(1, 3)]]
        elif x < 0.35:
            ops = [r.choice([["map", 1], ["fin", g.nid()], ["skip", 1], ["count"], ["first"]])]
        elif x < 0.42:
            ops = [["retry", r.randint(1, 2)]]
        ids[0] += 1
        return ["sub", ids[0], pipe(v, ops)]

    def drive():
        x = r.random()
        k = r.randrange(ns)
        if timed and x < 0.4:
            return ["tick", r.choice([1, 1, 2, 5])]
        if x < 0.75:
            return ["next", k, g.v()]
        return r.choice([["comp", k], ["err", k, g.v()], ["comp", k], ["next", k, g.v()]])
    acts, react = [], []
    acts.append(consumer())
    if conns and r.random() < 0.8:
        acts.append(["conn", 0])
    for _ in range(r.randint(3, 14)):
        x = r.random()
        if x < 0.18 and ids[0] < 5:
            acts.append(consumer())
        elif x < 0.3:
            acts.append([r.choice(["unsub", "drop"]), r.randint(1, max(1, ids[0]))])
        elif x < 0.5 and conns:
            acts.append([r.choice(["conn", "conn", "conn", "disc", "reset"]), r.randrange(len(conns))])
        else:
            acts.append(drive())
    if r.random() < 0.4:
        # one consumer reacts
        who = r.randint(1, ids[0])
        for _ in range(r.choice([1, 1, 2])):
            todo = []
            for _ in range(r.choice([1, 1, 2])):
                x = r.random()
                if x < 0.35:
                    todo.append([r.choice(["unsub", "drop"]), who])
                elif x < 0.5:
                    todo.append([r.choice(["unsub", "drop"]), r.randint(1, ids[0])])
                elif x < 0.75 and ids[0] < 8:
                    todo.append(consumer())
                elif x < 0.87 and conns:
                    todo.append([r.choice(["disc", "reset"]), r.randrange(len(conns))])
                else:
                    k = r.randrange(ns)
                    todo.append(r.choice([["next", k, g.v()], ["next", k, g.v()], ["comp", k], ["err", k, g.v()]]))
            react.append([who, r.choice(["n", "n", "n", "c", "e", "x"]), r.randint(1, 3), todo])
    if not timed and r.random() < 0.1 and conns:
        # connecting again as the connection is released
        fins = [o[1] for c in conns if c[1][0] == "p" and c[1][1][0] == "subj" for o in c[1][2] if o[0] == "fin"]
        if fins and not any(a[0] in ("err", "comp", "usub") for a in acts + [x for e in react for x in e[3]]):
            react.append([r.choice(fins), "t", 1, [["conn", 0]]])
    again = {a[1] for a in acts + [x for e in react for x in e[3]] if a[0] == "sub" and a[2][0] == "p" and a[2][2][0][0] == "retry"}
    for e in react:       # a consumer behind retry leaves at once: who got the value before that is not determined
        e[3] = [["nop"] if a[0] in ("unsub", "drop") and a[1] != e[0] and a[1] in again else a for a in e[3]]
    if again:             # nor whether it is served before or after the one that resets or subscribes anew
        for e in react:
            if e[1] in ("e", "c"):
                e[3] = [["nop"] if a[0] in ("disc", "reset", "sub") else a for a in e[3]]
    cmp = ["cl", "su", "cn"] + (["se"] if timed else [])
    return {"cfg": g.cfg(subjects=[["pub"]] * ns, conns=conns, obs=obs, cmp=cmp, react=react), "acts": acts}


# -- arbitrary pipelines, for the contract --------------------------------------
class Pl:
    """pipelines of anything; every source is wrapped so that its subscription and its teardown show"""
    DRAIN = ("delay", "deb", "obson", "subon", "thr")

    def __init__(self, g, ns, avoid=()):
        self.g, self.r, self.ns, self.avoid = g, g.r, ns, set(avoid)
        self.dest, self.k, self.drain, self.timed = 0, 0, False, g.r.random() < 0.5
        self.size, self.free, self.once = 0, [], False

    def begin(self, d):
        self.dest, self.k, self.drain, self.size = d, 0, False, 0
        self.free = list(range(self.ns))
        self.r.shuffle(self.free)

    def id(self):
        self.k += 1
        return self.dest * 100 + self.k

    def leaf(self):
        g, r = self.g, self.r
        x = r.random()
        if x < 0.55 and not self.once:
            o = ["subj", r.randrange(self.ns)]
        elif x < 0.55 and self.free:        # who of several subscriptions to one subject is served first is not specified
            o = ["subj", self.free.pop()]
        elif self.timed and x < 0.75:
            o = r.choice([["interval", r.choice([1, 2, 5]), r.randint(0, 1), r.randint(1, 3)], ["timer", r.choice([0, 1, 5])],
                          ["iot", [g.v() for _ in range(r.randint(0, 4))], r.randint(1, 3), r.randint(0, 1)]])
        else:
            o = r.choice([["just", g.v()], ["iter", [g.v() for _ in range(r.randint(0, 3))]], ["empty"], ["throw", g.v()],
                          ["never"], ["closed"], ["create", g.script1()]])
        i = self.id()
        return ["def", i, ["p", o, [["fin", i]]]]

    def src(self, depth):
        r = self.r
        x = r.random()
        self.size += 1
        if depth <= 0 or x < 0.5 or self.size > 8:
            return self.leaf()
        if x < 0.62:
            return self.chain(self.src(depth - 1), [self.op(depth - 1)])
        k = r.choice(["merge", "concat", "cl", "cc", "zip", "join"])
        a, b = self.src(depth - 1), self.src(depth - 1)
        if k == "merge":
            return ["merge", r.randint(1, 3), [a, b]]
        if k == "concat":
            return ["concat", [a, b]]
        return [k, a, b] + ([r.choice([1, 2, 100]), r.randint(0, 1)] if k == "zip" else [])

    def op(self, depth):
        r = self.r
        x = r.random()
        if x < 0.5:
            o = self.g.sync_op()
            if o[0] in ("fin", "onsub", "tap", "tapn", "maps"):
                o = ["enum"]
            return o
        if self.timed and x < 0.72:
            o = timing_op(self.g)
            if o[0] in self.DRAIN:
                self.drain = True
            return o
        if depth <= 0 or self.size > 8:
            return ["map", 1]
        if x < 0.86:
            k = r.choice(["mm", "mm", "cm", "sm", "em", "ma", "ca", "sa", "ea"])
            return [k, r.choice([1, 1, 2, 3]), [self.src(depth - 1) for _ in range(r.randint(1, 2))]]
        if x < 0.91:
            return ["catch", self.src(depth - 1)]
        if x < 0.95:
            return ["retry", r.randint(0, 2)]
        return ["wlf", self.src(depth - 1)]

    # what ends a pipeline on its own hides what runs behind it from the subscription (known finding)
    ENDS = ("take", "first", "find", "findi", "elat", "elatd", "cmp", "liftres", "demat", "matdemat", "mat", "isempty",
            "catch", "retry", "fws", "wlf", "mm", "cm", "sm", "em", "ma", "ca", "sa", "ea", "sw",
            "delay", "deb", "thr", "obson")
    OUTLIVES = ("intores", "demat", "mm", "cm", "sm", "em", "ma", "ca", "sa", "ea", "catch", "retry")

    def chain(self, o, ops):
        own = self.ends(o)
        out = []
        for p in ops:
            if own and p[0] in self.OUTLIVES:
                p = ["map", 1]
            if p[0] == "wlf" and '"retry"' in json.dumps([o, out]):
                p = ["map", 1]
            own = own or p[0] in self.ENDS
            out.append(p)
        return pipe(o, out)

    def ends(self, o):
        if o[0] == "p":
            return self.ends(o[1]) or any(p[0] in self.ENDS for p in o[2])
        if o[0] == "def":
            return self.ends(o[2][1])
        return o[0] != "subj"

    def pipeline(self):
        r = self.r
        depth = r.choice([0, 1, 1, 2])
        o = self.src(depth)
        return self.chain(o, [self.op(depth) for _ in range(r.choice([0, 1, 1, 2, 3]))])


def timing_op(g):
    r = g.r
    return r.choice([["delay", r.choice([1, 5, 10])], ["deb", r.choice([1, 5, 10])], ["obson"], ["subon", r.choice([0, 1, 5])],
                     ["thr", r.choice([1, 5]), r.randrange(3)], ["fws"]])


def plc(seed):
    return pl(seed, once=True)


def pl(seed, avoid=(), nreact=0.35, once=False):
    g = G(seed)
    r = g.r
    ns = r.randint(1, 5) if once else r.randint(1, 3)
    p = Pl(g, ns, avoid)
    p.once = once
    acts, react, drain = [], [], []
    nd = r.choice([1, 1, 1, 2, 2, 3])
    late = [d for d in range(2, nd + 1) if r.random() < 0.5]
    subs = {}
    for d in range(1, nd + 1):
        p.begin(d)
        subs[d] = ["sub", d, p.pipeline()]
        if p.drain:
            drain.append(d)
    for d in subs:
        if d not in late:
            acts.append(subs[d])
    here = [d for d in subs if d not in late]
    if r.random() < nreact:
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(ns)
            who = r.randint(1, nd)
            # subscribing to something new while a timed operator delivers deadlocks (known finding)
            if who in drain and any(w in json.dumps(subs[who]) for w in ('"retry"', '"catch"', '"concat"', '"merge"', 'm"', 'a"')):
                continue
            if once and nd > 1:
                react.append([who, r.choice(["n", "n", "n", "c", "e", "x"]), r.randint(1, 3), [[r.choice(["unsub", "drop"]), who]]])
                continue
            react.append([who, r.choice(["n", "n", "n", "c", "e", "x"]), r.randint(1, 3),
                          [r.choice([["next", k, g.v()], ["comp", k], ["err", k, g.v()], ["usub", k], ["unsub", who], ["unsub", who],
                                     ["drop", who], ["drop", r.randint(1, nd)], ["unsub", r.randint(1, nd)]])]])
    stop = r.choice([0.05, 0.1, 0.25])
    for _ in range(r.randint(4, 14)):
        x = r.random()
        if late and x < 0.15:
            d = late.pop(0)
            acts.append(subs[d])
            here.append(d)
        elif x < 0.24:
            acts.append([r.choice(["unsub", "unsub", "drop"]), r.choice(here)])
        elif x < 0.30:
            acts.append(["td", r.choice(here), 10000 + len(acts)])
        elif p.timed and x < 0.6:
            acts.append(["tick", r.choice([1, 1, 2, 5, 10])])
        else:
            acts.append(g.subject_act(r.randrange(ns), stop))
    for d in here:
        if r.random() < 0.7:
            acts.append([r.choice(["unsub", "drop"]), d])
    acts += [["tick", 20], ["tick", 20], ["tick", 3]]      # 3: the end, whatever drained must be gone
    # these pass an error on after having completed; only a consumer that does not guard itself sees that
    raw = r.random() < 0.5 and not any(w in json.dumps(acts) for w in ('"first"', '"find', '"isempty"', '"cl"', '"cc"', '"zip"', '"join"', '"wlf"'))
    return {"cfg": g.cfg(subjects=[["pub"]] * ns, raw=raw, react=react, drain=drain), "acts": acts}


def c15(seed):
    """several subscriptions of the same observables, of clones of them, and of compositions of both"""
    g = G(seed)
    r = g.r
    ns = r.randint(1, 4)
    p = Pl(g, ns)
    p.once = True
    obs, drains = [], []
    for d in range(1, r.choice([1, 1, 1, 2]) + 1):
        p.begin(d)
        obs.append(p.pipeline())
        drains.append(p.drain)
    nd = r.randint(2, 4)
    subs, drain = {}, []
    for d in range(1, nd + 1):
        k = r.randrange(len(obs))
        ref = ["ref", k] + ([1] if r.random() < 0.5 else [])
        if r.random() < 0.2 and not p.ends(obs[k]):
            ref = pipe(ref, few_ops(g, 1))
        subs[d] = ["sub", d, ref]
        if drains[k]:
            drain.append(d)
    acts, react, here = [], [], []
    late = list(subs)
    n = r.randint(1, nd)
    for _ in range(n):
        d = late.pop(0)
        acts.append(subs[d])
        here.append(d)
    if r.random() < 0.25:
        who = r.randint(1, nd)
        react.append([who, r.choice(["n", "n", "c", "e", "x"]), r.randint(1, 3), [[r.choice(["unsub", "drop"]), who]]])
    stop = r.choice([0.03, 0.1])
    for _ in range(r.randint(4, 14)):
        x = r.random()
        if late and x < 0.2:
            d = late.pop(0)
            acts.append(subs[d])
            here.append(d)
        elif x < 0.28:
            acts.append([r.choice(["unsub", "unsub", "drop"]), r.choice(here)])
        elif x < 0.31:
            acts.append(["td", r.choice(here), 10000 + len(acts)])
        elif p.timed and x < 0.6:
            acts.append(["tick", r.choice([1, 1, 2, 5, 10])])
        else:
            acts.append(g.subject_act(r.randrange(ns), stop))
    for d in here:
        if r.random() < 0.5:
            acts.append([r.choice(["unsub", "drop"]), d])
    acts += [["tick", 20], ["tick", 3]]
    return {"cfg": g.cfg(subjects=[["pub"]] * ns, obs=obs, react=react, drain=drain), "acts": acts}


def alone(t, d):
    """what happens to destination d of a trace if nobody else subscribes, and to a freshly built observable"""
    def fresh(x):
        if isinstance(x, list):
            return t["cfg"]["obs"][x[1]] if x and x[0] == "ref" else [fresh(y) for y in x]
        return x
    acts = [fresh(a) for a in t["acts"] if a[0] not in ("sub", "unsub", "drop", "td") or a[1] == d]
    return {"cfg": dict(t["cfg"], obs=[], react=[x for x in t["cfg"]["react"] if x[0] == d]), "acts": acts}
