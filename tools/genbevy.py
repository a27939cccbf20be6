"""Trace generators for the Bevy harness (see Bevy.tla): they only choose inputs."""
import random


class Gb:
    def __init__(self, seed, focus):
        self.r = random.Random(seed)
        self.focus = focus
        self.ns = self.r.randint(1, 3)
        self.ne = 0             # entities made so far
        self.comp = {}          # entity -> observable on it (as far as the generator knows)
        self.dead = set()
        self.subs = []          # subscription ids with an entity
        self.handles = []       # subscription ids with a handle
        self.sid = 0
        self.rid = 500
        self.keyed = []
        self.works = {}
        self.esinks = {}
        self.react = self.r.random() < 0.4
        self.reacting = False
        self.writer = False
        self.evs = 0
        self.exit = False
        self.busy = 0

    def v(self):
        return [self.r.randint(0, 9)]

    def k(self, last=True):
        return self.r.choice([0, 0, 1, 3, 2] if last else [0, 0, 1, 3])

    def nid(self):
        self.rid += 1
        return self.rid

    def some_ent(self):
        """mostly one that is there"""
        r = self.r
        live = [e for e in range(1, self.ne + 1) if e not in self.dead]
        if live and r.random() < 0.9:
            return r.choice(live)
        return r.randint(1, self.ne)

    def obs_ent(self):
        c = [e for e in self.comp if e not in self.dead and e <= self.ne]
        return self.r.choice(c) if c and self.r.random() < 0.75 else self.some_ent()

    def obs(self, below=None, owned=False):
        """owned: the subscription has an entity of its own"""
        r = self.r
        basic = [["subj", r.randrange(self.ns)]] * 3 + [["it", r.randint(0, 3)], ["just", self.v()], ["throw", self.v()],
                 ["never"], ["empty"]]
        src = [["ev", self.some_ent(), self.k()], ["msg", self.k()], ["res", r.randint(0, 1), r.randint(0, 1), self.k()],
               ["key", r.randint(0, 2), self.k()], ["px", self.obs_ent(), self.k(False)],
               ["intv", r.choice([0, 1, 2, 3, 5, 10]), r.randint(1, 3), r.randint(0, 1), self.k()],
               ["timer", r.choice([0, 1, 2, 5, 10]), self.k()]]
        o = r.choice(src) if r.random() < (0.35 if self.focus == "ecs" else 0.8) else r.choice(basic)
        if o[0] == "px" and below is not None and o[1] >= below:
            o = ["subj", r.randrange(self.ns)]
        if o[0] == "ev":
            self.evs += 1
            # leaving the app ends what is on entities in no particular order
            if self.exit and (self.evs > 1 or owned):
                o = ["msg", o[2]]
        if self.exit and o[0] == "px":
            o = ["never"]
        if r.random() < 0.2 and o[0] != "key":
            o = ["take", r.randint(1, 3), o]
        return o

    def has_key(self, o):
        return o[0] == "key" or (o[0] == "take" and self.has_key(o[2]))

    def dest(self, o=None):
        """o: what is subscribed to, when known"""
        r = self.r
        x = r.random()
        if x < 0.3:
            e = self.some_ent()
            if e not in self.esinks and len(self.esinks) < (1 if self.react else 2):
                self.esinks[e] = self.k()
                return ["e", e, self.esinks[e]]
        if x < 0.45:
            w = 1 if not self.writer and r.random() < 0.6 else 0
            self.writer |= bool(w)
            return ["r", self.nid(), self.k(), w]
        return ["d", self.nid()]

    def new_sub(self):
        self.sid += 1
        return self.sid

    def key_dest(self, o, d):
        """keys of one poll come in no particular order"""
        if self.keyed_any(o):
            if d[0] == "e" or (d[0] == "r" and d[3] == 1):
                d = ["d", self.nid()]
            self.keyed.append(d[1])
        return d

    def keyed_any(self, o):
        return self.has_key(o)

    def act(self, inside=False):
        """one act; inside: it is done by a reaction or inside a frame"""
        r = self.r
        ecs = self.focus == "ecs"
        menu = (["ent"] * (3 if self.ne < 4 and not inside else 0) + ["comp"] * (6 if ecs else 3) + ["rmcomp"] * (2 if ecs else 1) +
                ["csub"] * (7 if ecs else 3) + ["qsub"] * 2 + ["esub"] * (4 if ecs else 2) + ["wsub"] * (3 if ecs else 4) +
                ["dsub"] * (2 if ecs else 8) + ["kill"] * 2 + ["killsub"] * (3 if ecs else 2) + ["rmsub"] + ["unsub"] * 3 +
                ["drop"] * 2 + ["td"] * 2 + ["ctd"] * 2 + ["next"] * (6 if ecs else 3) + ["err", "done"] + ["sig"] * (3 if ecs else 1) +
                ["ev"] * (2 if ecs else 4) + ["msg"] * (1 if ecs else 5) + ["res", "resmut"] * (1 if ecs else 3) + ["resrm"] +
                ["press", "release"] * (0 if ecs else 2) + ["keys"] * (0 if ecs else 1) + ["adv"] * (2 if ecs else 7) +
                ["work"] * (1 if ecs else 3) + ["cancel"] * (0 if ecs else 2))
        a = r.choice(menu)
        if a == "ent":
            self.ne += 1
            return ["ent", self.ne]
        if a == "comp":
            free = [e for e in range(1, self.ne + 1) if e not in self.comp and e not in self.dead]
            if not free or self.reacting:
                return None
            e = r.choice(free)
            o = ["S", r.randrange(self.ns)] if r.random() < 0.45 else self.obs(below=e, owned=True)
            if self.keyed_any(o):
                o = ["S", r.randrange(self.ns)]
            self.comp[e] = o
            return ["comp", e, o]
        if a == "rmcomp":
            c = [e for e in self.comp if e not in self.dead and e <= self.ne]
            if not c:
                return None
            e = r.choice(c)
            if not self.reacting:
                del self.comp[e]
            return ["rmcomp", e]
        if a in ("csub", "qsub", "esub"):
            e = self.obs_ent()
            if self.exit and a != "qsub" and (e not in self.comp or e in self.dead):
                return None      # nothing is waiting for a retry when the app is left
            s = self.new_sub()
            self.subs.append(s)
            d = self.dest()
            if d[0] == "e" and d[1] == e:
                d = ["d", self.nid()]
            if a == "esub":
                self.handles.append(s)
                return [a, s, e, d, self.k()]
            return [a, s, e, d]
        if a in ("wsub", "dsub"):
            o = self.obs(owned=a == "wsub")
            s = self.new_sub()
            d = self.key_dest(o, self.dest())
            if a == "dsub" and d[0] == "d" and o[0] in ("msg", "res", "intv", "timer", "ev", "px") and r.random() < 0.3:
                d = d + [r.randint(1, 3), s]     # unsubscribes itself from within that notification
            self.handles.append(s)
            if a == "wsub":
                self.subs.append(s)
                return [a, s, o, d, self.k()]
            return [a, s, o, d]
        if a == "kill":
            if self.ne == 0 or r.random() < 0.3:
                return None
            e = self.some_ent()
            self.dead.add(e)
            return ["kill", e]
        if a in ("killsub", "rmsub", "ctd"):
            if not self.subs:
                return None
            s = r.choice(self.subs)
            return [a, s] + ([self.nid()] if a == "ctd" else [])
        if a in ("unsub", "drop", "td"):
            if not self.handles:
                return None
            s = r.choice(self.handles)
            if a == "drop" and not self.reacting:
                self.handles.remove(s)
            return [a, s] + ([self.nid()] if a == "td" else [])
        if a == "next":
            return ["next", r.randrange(self.ns), self.v()]
        if a in ("err", "done"):
            if r.random() < 0.5:
                return None
            s = r.randrange(self.ns)
            return ["err", s, self.v()] if a == "err" else ["done", s]
        if a == "sig":
            if self.ne == 0:
                return None
            return ["sig", self.some_ent(), r.choice([1, 1, 1, 1, 2, 3]), self.v()]
        if a == "ev":
            return ["ev", self.some_ent(), self.v()] if self.ne else None
        if a in ("msg", "res", "resmut"):
            return [a, self.v()]
        if a == "resrm" or a == "keys":
            return [a]
        if a in ("press", "release"):
            return [a, r.randrange(4)]
        if a == "adv":
            return ["adv", r.choice([0, 0, 1, 2, 3]), r.choice([1, 1, 2, 3, 5, 10])]
        if a == "work":
            if inside and self.busy > 2:
                return None
            self.busy += 1
            i = r.choice(sorted(self.works)) if self.works and r.random() < 0.3 else self.nid()
            k = self.works.setdefault(i, self.k())
            return ["work", i, r.choice(["imm", "del", "del", "con"]), r.choice([0, 1, 2, 5, 10]), k]
        if a == "cancel":
            return ["cancel", r.choice(sorted(self.works))] if self.works else None

    def acts(self, n, inside=False):
        out = []
        for _ in range(n * 4):
            if len(out) >= n:
                break
            a = self.act(inside)
            if a:
                out.append(a)
        return out


def trace(seed, focus):
    g = Gb(seed, focus)
    r = g.r
    g.exit = r.random() < 0.08
    acts = []
    for _ in range(r.randint(1, 3)):
        g.ne += 1
        acts.append(["ent", g.ne])
    first = g.ne
    for _ in range(r.randint(3, 8)):
        acts += g.acts(r.randint(0, 4))
        f = ["frame", [], [], []]
        if r.random() < 0.5:
            f[r.randint(1, 3)] = g.acts(r.randint(1, 2), True)
        acts.append(f)
    if g.exit:
        i = r.randrange(len(acts))
        acts.insert(i, ["exit"])
    acts += [["frame", [], [], []], ["frame", [], [], []]]
    react = []
    made, g.ne = g.ne, first        # a reaction may come before the other entities are made
    g.reacting = True
    if g.react and g.ne and not g.exit:
        fed = sorted(e for e in g.esinks if g.esinks[e] != 2)
        e = r.choice(fed or [1]) if r.random() < 0.8 else r.randint(1, made)
        if g.esinks.get(e) == 2:
            e = made + 1
        if e not in g.keyed:
            for _ in range(r.randint(1, 2)):
                react.append([e, r.randint(1, 2), g.acts(r.randint(1, 2), True)])
    return {"cfg": {"subjects": g.ns, "res": g.v() if r.random() < 0.6 else [], "react": react, "keyed": g.keyed}, "acts": acts}


def c16(seed):
    return trace(seed, "ecs")


def c17(seed):
    return trace(seed, "sources")
