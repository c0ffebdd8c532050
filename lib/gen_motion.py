"""Scripts for velocity profiles, paths and trajectories."""
from gen_geom import n
from rnd import PI, Rnd, about, mm, op

KINDS = ["Trap", "TrapHalf", "Rect", "Dirac", "Spline"]


class Motions(Rnd):
    def speed(self):
        return self.choice([1.0, 0.5, 2.0]) if self.random() < 0.4 else 10.0 ** self.uniform(-1.5, 1)

    def limits(self, kind):
        return {"Trap": lambda: [self.speed(), self.speed()], "TrapHalf": lambda: [self.speed(), self.speed(), self.random() < 0.5],
                "Rect": lambda: [self.speed()]}.get(kind, lambda: [])()

    def ends(self):
        a = self.uniform(-4, 4) if self.random() < 0.6 else self.choice([0.0, 1.0, -2.0])
        k = self.random()
        d = 0.0 if k < 0.12 else self.uniform(-6, 6) if k < 0.7 else self.choice([1.0, -1.0, 0.5, -3.0]) if k < 0.85 else self.choice([-1, 1]) * 10.0 ** self.uniform(-4, 2)
        return [a, a + d]

    def duration(self, zero=False):
        k = self.random()
        return 0.0 if zero and k < 0.1 else self.choice([1.0, 2.0, 10.0]) if k < 0.3 else 10.0 ** self.uniform(-2, 2)

    def look(self, name):
        f = sorted([0.0, 1.0] + [self.random() for _ in range(5)] + [self.choice([0.5, 0.25, 1 / 3.0, 0.1])])
        return op("m.look", name, f + [-self.uniform(0.01, 1), self.uniform(1.01, 2)], [-1.0, self.uniform(0, 3), 1e4])

    def plan(self, name, kind):
        e = self.ends()
        k = self.random()
        if kind == "Trap" and k < 0.3:
            return op("m.setat", name, e[0], e[1], self.choice([0.5, 1.0, 0.1, 0.0, 1e-7, -1.0, 3.0]) if self.random() < 0.5 else self.uniform(0, 1))
        if kind == "Spline":
            if k < 0.4:
                return op("m.spline", name, e[0], self.uniform(-2, 2), e[1], self.uniform(-2, 2), self.duration(True))
            if k < 0.8:
                return op("m.spline", name, e[0], self.uniform(-2, 2), self.uniform(-2, 2), e[1], self.uniform(-2, 2), self.uniform(-2, 2), self.duration(True))
            if k > 0.97:
                return op("m.set", name, e[0], e[1])
            return op("m.setdur", name, e[0], e[1], self.duration(True))
        if k < 0.55:
            return op("m.set", name, e[0], e[1])
        return op("m.setdur", name, e[0], e[1], self.duration(True))


def profiles(seed, count, copies):
    r = Motions(seed)
    out = []
    for i in range(count):
        kind = r.choice(KINDS)
        u = [op("m.new", "p", kind, r.limits(kind)), r.look("p")]
        names = ["p"]
        for k in range(r.choice([1, 2, 3, 5])):
            p = r.choice(names)
            w = r.random()
            if w < 0.2 and kind in ("Trap", "TrapHalf", "Rect"):
                u.append(op("m.max", p, r.limits(kind)))
            elif w < 0.2 + copies:
                c = "p%d" % k
                u.append(op("m.clone", c, p))
                names.append(c)
                if r.random() < 0.3:
                    u.append(op("m.drop", p))
                    names.remove(p)
            else:
                u.append(r.plan(p, kind))
            u += [r.look(x) for x in names]
        out.append(u)
    return out


def c27(tier, seed):
    return profiles(seed * 1000 + 270, n(tier, 700, 20000), 0.05)


def c28(tier, seed):
    return profiles(seed * 1000 + 280, n(tier, 700, 20000), 0.3)


class Paths(Motions):
    def turned(self, m):
        """a rotation some way from m, but not half a turn"""
        k = self.random()
        return [list(x) for x in m] if k < 0.25 else mm(m, about(self.unit(), self.choice([0.5, 1.0, PI / 2, 3.0]) if k < 0.5 else self.uniform(1e-3, 3.1)))

    def pose(self, f, size=1.0):
        return {"M": self.turned(f["M"]), "p": [x + y for x, y in zip(f["p"], self.step(size))]}

    def step(self, size=1.0):
        if self.random() < 0.15:
            return [0.0, 0.0, 0.0]
        s = size * self.uniform(0.3, 3)
        return [s * x for x in self.unit()]

    def eq(self):
        return self.choice([0.5, 1.0, 0.1, 2.0, 10.0])

    def line(self, f=None, size=1.0):
        f = f or self.frame()
        if self.random() < 0.25:
            t = {"vel": self.step(size), "rot": [x * self.choice([0.0, 1.0, 3.0]) * self.uniform(0.01, 1) for x in self.unit()]}
            return {"k": "twist", "f": f, "t": t, "eq": self.eq(), "own": self.random() < 0.8}
        return {"k": "line", "f": f, "to": self.pose(f, size), "eq": self.eq(), "own": self.random() < 0.8}

    def circle(self, bad=0.1):
        f, k = self.frame(), self.random() if bad else 1.0
        c = [x + y for x, y in zip(f["p"], [self.uniform(0.3, 3) * z for z in self.unit()])]
        p = self.vec()
        d = [x - y for x, y in zip(f["p"], c)]
        if k < bad / 2:
            c = list(f["p"]) if k < bad / 4 else [f["p"][0] + 1e-8, f["p"][1], f["p"][2]]
        elif k < bad:
            s = self.choice([1.0, -1.0, 2.0, -0.5])
            p = [x + s * y for x, y in zip(c, d)]
        else:
            while True:     # not on the line of the centre and the start
                e = [x - y for x, y in zip(p, c)]
                x = [d[1] * e[2] - d[2] * e[1], d[2] * e[0] - d[0] * e[2], d[0] * e[1] - d[1] * e[0]]
                if sum(y * y for y in x) > 1e-3 * sum(y * y for y in d) * sum(y * y for y in e) > 0:
                    break
                p = [self.uniform(-3, 3) for _ in range(3)]
        a = self.choice([PI, PI / 2, 2 * PI, 1.0, 0.0]) if self.random() < 0.4 else self.uniform(0.01, 7)
        return {"k": "circle", "f": f, "c": c, "p": p, "m": self.turned(f["M"]), "alpha": a, "eq": self.eq(), "own": self.random() < 0.8}

    def round(self, bad=0.25):
        size = self.choice([1.0, 1.0, 1e-2, 1e-3, 30.0])
        f = self.frame()
        pts, d = [f], [x * size for x in self.unit()]
        rad = size * self.choice([0.1, 0.3, 0.02])
        for i in range(self.choice([0, 1, 1, 2, 3, 4])):
            k, s = self.random(), self.uniform(0.5, 3)
            if k < 0.2:
                d = [x * s for x in d] if i else d
            elif k < 0.2 + bad:
                w = self.choice(["same", "back", "tight"])
                q = [0.0] * 3 if w == "same" else [-x * s for x in d] if w == "back" else [-x + y * 0.05 * size for x, y in zip(d, self.unit())]
                pts.append({"M": self.turned(pts[-1]["M"]), "p": [x + y for x, y in zip(pts[-1]["p"], q)]})
                d = [x * size for x in self.unit()]
                pts.append({"M": self.turned(pts[-2]["M"]), "p": [x + 2 * y for x, y in zip(pts[-2]["p"], d)]})
                continue
            else:
                d = [x * size * s for x in self.unit()]
            pts.append({"M": self.turned(pts[-1]["M"]), "p": [x + y for x, y in zip(pts[-1]["p"], d)]})
        return {"k": "round", "pts": pts, "rad": rad, "eq": self.choice([0.0, -1.0]) if self.random() < bad / 5 else self.eq() * size, "own": self.random() < 0.8}

    def point(self):
        return {"k": "point", "f": self.frame()}

    def comp(self, deep, bad):
        f, parts = self.frame(), []
        for i in range(self.choice([1, 2, 3, 4])):
            k = self.random()
            if k < 0.6:
                x = self.line(f)
                if x["k"] == "line":
                    f = x["to"]
            else:
                x = self.path(deep - 1, bad)
            parts.append(x)
        return {"k": "comp", "parts": parts, "mine": [self.random() < 0.8 for _ in parts]}

    def short(self, x):
        """perhaps without any length"""
        if x["k"] == "comp":
            return all(self.short(y) for y in x["parts"])
        return x["k"] in ("point", "twist", "round") or x["k"] == "circle" and x["alpha"] == 0.0 or x["k"] == "line" and x["f"]["p"] == x["to"]["p"]

    def path(self, deep=2, bad=0.1):
        k = self.random()
        if k < 0.3 or deep == 0:
            return self.line()
        if k < 0.36:
            return self.point()
        if k < 0.6:
            return self.circle(bad)
        if k < 0.75:
            return self.round(bad)
        if k < 0.9:
            return self.comp(deep, bad)
        while True:
            x = self.path(deep - 1, bad)
            if x["k"] in ("line", "circle", "comp") and not self.short(x):
                break
        return {"k": "cyc", "part": x, "n": self.choice([1, 2, 3]), "mine": self.random() < 0.8}

    def fracs(self):
        f = [0.0, 1.0, self.random(), self.random(), self.random(), self.choice([0.5, 0.25, 1 / 3.0, 2 / 3.0])]
        self.shuffle(f)
        return f

    def args(self, x):
        return [x, self.fracs(), self.choice([0.0, 1.0, self.uniform(-3, 3)]), self.choice([0.0, 1.0, self.uniform(-3, 3)]), self.uniform(0.01, 2)]

    def profile(self):
        kind = self.choice(KINDS)
        how = {"Trap": ["set", "setdur", "setat", "ctor"], "Spline": ["spline", "setdur", "ctor"]}.get(kind, ["set", "setdur", "ctor"])
        how = self.choice(how)
        k = self.random()
        a, b = (0.0, 1.0) if k < 0.6 or how == "ctor" else (1.0, 0.0) if k < 0.75 else (self.random(), self.random())
        return {"kind": kind, "lim": self.limits(kind), "how": how, "from": a, "to": b, "dur": self.uniform(0.05, 1) if how == "setat" else 10.0 ** self.uniform(-1, 1.2)}

    def turns(self):
        m = self.rot()
        return op("o.look", m, self.turned(m), self.fracs(), self.uniform(-2, 2), self.uniform(-2, 2))

    def traj(self, deep=1):
        k = self.random()
        if k < 0.1:
            return {"k": "still", "dur": self.choice([0.0, 1.0, self.uniform(0, 3)]), "pos": self.frame()}
        if deep and k < 0.45:
            return {"k": "comp", "parts": [self.traj(deep - 1 if self.random() < 0.3 else 0) for _ in range(self.choice([1, 2, 3]))], "before": self.random() < 0.3}
        while True:
            x = self.path(1, 0.0)
            if not (x["k"] == "round" and len(x["pts"]) == 0):
                return {"k": "seg", "path": x, "prof": self.profile(), "own": self.random() < 0.8}

    def targs(self, x):
        f = self.fracs() + [-self.uniform(0.01, 1), self.uniform(1.01, 2)]
        return [x, f, [-1.0, self.uniform(0, 3), 1e4]]


def c29(tier, seed):
    r = Paths(seed * 1000 + 290)
    return [[op("p.look", *r.args(f())) for f in (r.line, r.circle, r.round, lambda: r.comp(2, 0.05), r.path, r.path)] + [r.turns()] for _ in range(n(tier, 250, 8000))]


def c30(tier, seed):
    r = Paths(seed * 1000 + 300)
    return [[op("p.life", *r.args(r.path())), op("p.life", *r.args(r.path())), op("p.life", *r.args(r.round())), r.turns(), op("j.life", *r.targs(r.traj()))] for _ in range(n(tier, 250, 8000))]


def c31(tier, seed):
    r = Paths(seed * 1000 + 310)
    return [[op("j.look", *r.targs(r.traj())) for _ in range(5)] for _ in range(n(tier, 250, 8000))]
