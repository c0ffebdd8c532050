"""Scripts for joints, segments, chains, trees, forward kinematics and Jacobians."""
from gen_geom import n
from gen_inertia import Inertias
from rnd import FID, op

KINDS = ["RotAxis", "RotX", "RotY", "RotZ", "TransAxis", "TransX", "TransY", "TransZ", "Fixed"]
MOVING = KINDS[:8]
Z3 = [0.0, 0.0, 0.0]
NOBODY = {"m": 0.0, "c": Z3, "I": [0.0] * 6}


class Mechs(Inertias):
    def joint(self, kind=None, plain=0.5, dyn=True):
        k = kind or (self.choice(MOVING) if self.random() < 0.8 else "Fixed")
        j = {"n": "j%d" % self.randrange(100), "k": k, "o": Z3, "a": [0.0, 0.0, 1.0], "s": 1.0, "f": 0.0, "i": 0.0, "d": 0.0, "t": 0.0}
        if k in ("RotAxis", "TransAxis"):
            j["o"] = self.vec() if self.random() < 0.7 else Z3
            j["a"] = self.axis()
        if self.random() > plain:
            j["s"] = self.choice([1.0, -1.0, 2.0, 0.5, -0.3, self.nz()])
            j["f"] = self.choice([0.0, self.uniform(-2, 2)])
            if dyn:
                j["i"], j["d"], j["t"] = self.choice([0.0, self.pos()]), self.choice([0.0, self.pos()]), self.choice([0.0, self.pos()])
        return j

    def segment(self, name="s", kind=None, plain=0.5):
        k = self.random()
        tip = FID if k < 0.1 else {"M": FID["M"], "p": self.vec()} if k < 0.35 else self.frame()
        return {"n": name, "j": self.joint(kind, plain), "tip": tip, "in": NOBODY if self.random() < 0.2 else self.body()}

    def chain(self, m, plain=0.5, fixed=0.2):
        return [self.segment("s%d" % i, "Fixed" if self.random() < fixed else self.choice(MOVING), plain) for i in range(m)]

    def qs(self, k):
        return [self.angle() if self.random() < 0.8 else self.real() for _ in range(k)]

    def vs(self, k):
        return [self.real() for _ in range(k)]

    def locks(self, k):
        p = self.choice([0.0, 0.3, 0.6, 1.0])
        return [self.random() < p for _ in range(k)]


def moving(segs):
    return sum(s["j"]["k"] != "Fixed" for s in segs)


def c11(tier, seed):
    r = Mechs(seed * 1000 + 110)
    out = []
    for k in KINDS:
        for axis in (True, False):
            out.append([op("jnt.make", k, axis, named, r.vec(), r.axis(), r.nz(), r.real(), r.pos(), r.pos(), r.pos()) for named in (True, False)])
    for _ in range(n(tier, 60, 3000)):
        out.append([op("jnt.motion", r.joint(k, 0.2), r.real(), r.real()) for k in KINDS]
                   + [op("seg.motion", r.segment("s", k, 0.2), r.angle(), r.real(), r.frame(), r.body()) for k in KINDS])
    return out


def c12(tier, seed):
    r = Mechs(seed * 1000 + 120)
    out = []
    for _ in range(n(tier, 80, 3000)):
        names, u = ["ca"], [op("c.new", "ca", r.chain(r.randrange(4)))]
        size = {"ca": len(u[0]["a"][1])}
        for k in range(r.randrange(3, 14)):
            c, d, w = r.choice(names), r.choice(names), r.random()
            if w < 0.3 or size[c] == 0 and w > 0.7:
                u.append(op("c.add", c, r.segment("n%d" % k)))
                size[c] += 1
            elif w < 0.45:
                if size[c] + size[d] > 40:
                    continue
                u.append(op("c.addchain", c, d))
                size[c] += size[d]
            elif w < 0.55:
                names.append("c%d" % k)
                u.append(op("c.copy", names[-1], d))
                size[names[-1]] = size[d]
            elif w < 0.7:
                u.append(op("c.assign", c, d))
                size[c] = size[d]
            elif w < 0.8:
                u.append(op("c.addown", c, r.randrange(size[c])))
                size[c] += 1
            elif w < 0.9:
                u.append(op("c.seti", c, r.randrange(size[c]), r.body()))
            else:
                u.append(op("c.settip", c, r.randrange(size[c]), r.frame()))
            if r.random() < 0.1 and len(names) > 1:
                u.append(op("c.drop", names.pop(0)))
            u += [op("c.look", x) for x in names]
        u += [op("c.text", x) for x in names]
        out.append(u)
    return out


def c14(tier, seed):
    r = Mechs(seed * 1000 + 140)
    out = []
    for i in range(n(tier, 90, 3000)):
        segs = r.chain(r.choice([0, 1, 2, 3, 4, 5, 6, 8]), r.choice([0.2, 1.0]), r.choice([0.0, 0.3, 1.0 if i % 15 == 0 else 0.5]))
        nj, ns = moving(segs), len(segs)
        u = [op("c.new", "c", segs)]
        for nr in [-1] + list(range(ns + 1)):
            u.append(op("c.fk", "c", r.qs(nj), r.vs(nj), nr, ns if nr < 0 else nr))
        u += [op("c.fk", "c", r.qs(nj), r.vs(nj), ns + 1, ns + 1), op("c.fk", "c", r.qs(nj), r.vs(nj), ns + 7, ns),
              op("c.fk", "c", r.qs(nj + 1), r.vs(nj + 1), -1, ns), op("c.fk", "c", r.qs(nj), r.vs(nj + 1), -1, ns),
              op("c.fk", "c", r.qs(nj), r.vs(nj), -1, ns + 1), op("c.fk", "c", r.qs(nj), r.vs(nj), -7, max(0, ns - 1))]
        if nj:
            u += [op("c.fk", "c", r.qs(nj - 1), r.vs(nj - 1), -1, ns), op("c.fk", "c", r.qs(nj), r.vs(nj - 1), ns, ns)]
        out.append(u)
    return out


def c16(tier, seed):
    r = Mechs(seed * 1000 + 160)
    out = []
    for i in range(n(tier, 90, 3000)):
        segs = r.chain(r.choice([0, 1, 2, 3, 4, 5, 6, 8]), r.choice([0.2, 1.0]), r.choice([0.0, 0.3, 1.0 if i % 15 == 0 else 0.5]))
        nj, ns = moving(segs), len(segs)
        u = [op("c.new", "c", segs)]
        for nr in [-1] + list(range(ns + 1)):
            u.append(op("c.jac", "c", r.qs(nj), nr, r.locks(nj), nj))
        u += [op("c.jac", "c", r.qs(nj), ns + 1, r.locks(nj), nj), op("c.jac", "c", r.qs(nj + 1), -1, r.locks(nj), nj),
              op("c.jac", "c", r.qs(nj), -1, r.locks(nj), nj + 1), op("c.jac", "c", r.qs(nj), -1, r.locks(nj + 1), nj)]
        if nj:
            u += [op("c.jac", "c", r.qs(nj - 1), -1, r.locks(nj), nj), op("c.jac", "c", r.qs(nj), -1, r.locks(nj), nj - 1),
                  op("c.jac", "c", r.qs(nj), -1, r.locks(nj - 1), nj), op("c.jac", "c", r.qs(nj), -1, [True] * nj, nj)]
        m = [r.twist() for _ in range(r.randrange(0, 8))]
        eps = 10.0 ** -r.randrange(2, 8)
        o = [dict(t) for t in m]
        if m and r.random() < 0.7:
            t = r.choice(o)
            t["vel"] = [x + d * eps for x, d in zip(t["vel"], r.choice([[0.5, 0.0, 0.0], [0.0, 2.0, 0.0], [0.0, 0.0, 1.5], [0.3, 0.4, 0.2]]))]
        if r.random() < 0.1:
            o.append(r.twist())
        u.append(op("jac.ops", m, r.rot(), r.vec(), r.frame(), r.vs(len(m)), o, eps))
        out.append(u)
    return out


REPS = ["hybrid", "body", "inertial", "default", "nonsense"]


def c17(tier, seed):
    r = Mechs(seed * 1000 + 170)
    out = []
    for i in range(n(tier, 90, 3000)):
        segs = r.chain(r.choice([0, 1, 2, 3, 4, 5, 6, 7]), r.choice([0.2, 1.0]), r.choice([0.0, 0.3, 1.0 if i % 15 == 0 else 0.5]))
        nj, ns = moving(segs), len(segs)
        u = [op("c.new", "c", segs)]
        for nr in [-1] + list(range(ns + 1)):
            k = r.locks(nj)
            u.append(op("c.jdot", "c", r.qs(nj), r.vs(nj), nr, k, r.choice(REPS), k.count(False)))
        k = r.locks(nj)
        f = k.count(False)
        u += [op("c.jdot", "c", r.qs(nj), r.vs(nj), ns + 1, k, r.choice(REPS), f), op("c.jdot", "c", r.qs(nj + 1), r.vs(nj + 1), -1, k, r.choice(REPS), f),
              op("c.jdot", "c", r.qs(nj), r.vs(nj + 1), -1, k, r.choice(REPS), f), op("c.jdot", "c", r.qs(nj), r.vs(nj), -1, k, r.choice(REPS), f + 1),
              op("c.jdot", "c", r.qs(nj), r.vs(nj), -1, [False] * (nj + 1), r.choice(REPS), nj), op("c.jdot", "c", r.qs(nj), r.vs(nj), ns, [True] * nj, r.choice(REPS), 0)]
        if nj:
            u += [op("c.jdot", "c", r.qs(nj - 1), r.vs(nj - 1), -1, k, r.choice(REPS), f), op("c.jdot", "c", r.qs(nj), r.vs(nj - 1), -1, k, r.choice(REPS), f)]
        out.append(u)
    return out


def grow(r, t, names, m, hooks=None):
    """operations which add m segments to tree t; names in a shuffled order, so that numbers differ from the order of names"""
    u, here = [], list(hooks or ["root"])
    for x in names[:m]:
        hook = r.choice(here[-3:]) if r.random() < 0.7 else r.choice(here)
        u.append((op("t.add", t, r.segment(x), hook), x))
        here.append(x)
    return [o for o, _ in u], here


LETTERS = "abcdefghijklmnopqrstuvwxyz"


def tree_units(tier, seed, kin):
    r = Mechs(seed * 1000 + (150 if kin else 130))
    out = []
    for i in range(n(tier, 60, 2500)):
        pool = list(LETTERS[:14])
        r.shuffle(pool)
        root = r.choice(["root", "base", "k"])
        if root in pool:
            pool.remove(root)
        m = r.choice([0, 1, 2, 4, 6, 8])
        u = [op("t.new", "t", root)]
        ops, here = grow(r, "t", pool, m, [root])
        u += ops
        rest = pool[m:]
        nj = moving([o["a"][1] for o in ops])
        nj2 = 0
        if r.random() < 0.5 and rest:      # a chain
            k = r.randrange(1, min(4, len(rest)) + 1)
            segs = r.chain(k)
            for s, x in zip(segs, rest):
                s["n"] = x
            rest = rest[k:]
            u += [op("c.new", "c", segs), op("t.addchain", "t", "c", r.choice(here))]
            here += [s["n"] for s in segs]
            nj += moving(segs)
        if r.random() < 0.5 and rest:      # another tree
            k = r.randrange(1, len(rest) + 1)
            ops, there = grow(r, "s", rest, k, ["other"])
            u += [op("t.new", "s", "other")] + ops + [op("t.addtree", "t", "s", r.choice(here))]
            here += there[1:]
            nj2 = moving([o["a"][1] for o in ops])
            nj += nj2
        if not kin:
            u += [op("t.add", "t", r.segment(r.choice(here)), r.choice(here)), op("t.add", "t", r.segment("zz"), "nowhere"),
                  op("c.new", "d", [r.segment("y1"), r.segment("y2"), r.segment(r.choice(here)), r.segment("y3")])]
        u.append(op("t.copy", "w", "t"))
        if r.random() < 0.5:
            u += [op("t.new", "x", "q"), op("t.add", "x", r.segment("q1"), "q"), op("t.assign", "x", "t"), op("t.assign", "x", "x")]
        else:
            u += [op("t.copy", "x", "w"), op("t.copy", "x", "x")] if r.random() < 0.3 else [op("t.copy", "x", "w")]
        trees = ["t", "w", "x"]
        if kin:
            for x in here if len(here) < 9 else r.sample(here, 8):
                q = r.qs(nj)
                for t in trees:
                    u += [op("t.fk", t, q, x), op("t.jac", t, q, x, nj)]
            u += [op("t.fk", "t", r.qs(nj + 1), r.choice(here)), op("t.fk", "t", r.qs(nj), "nowhere"), op("t.jac", "t", r.qs(nj), "nowhere", nj),
                  op("t.jac", "t", r.qs(nj), r.choice(here), nj + 1), op("t.jac", "t", r.qs(nj + 1), r.choice(here), nj)]
        else:
            for k in range(8):
                u.append(op("t.chain", "e", r.choice(trees), r.choice(here + ["nowhere"] if k == 7 else here), r.choice(here)))
            u += [op("t.chain", "e", "t", r.choice(here), "nowhere"), op("t.chain", "e", "t", root, here[-1]), op("t.chain", "e", "t", here[-1], root)]
            u += [op("t.sub", "y", "t", r.choice(here)), op("t.sub", "z", "t", root), op("t.sub", "z", "t", "nowhere"),
                  op("t.copy", "s", "t"), op("t.sub", "s", "s", r.choice(here)), op("t.look", "s"), op("t.text", "s", " ", ""), op("t.sub", "s", "s", "nowhere"), op("t.drop", "s"),
                  op("t.add", "t", r.segment("z1"), r.choice(here)), op("t.look", "w"), op("t.look", "x"), op("t.look", "y"), op("t.drop", "t"), op("t.look", "w"), op("t.text", "w", r.choice(["  ", "\t", "->"]), r.choice(["", "| "])),
                  op("t.addchain", "w", "d", r.choice(here)), op("t.addchain", "x", "d", "nowhere"), op("t.addtree", "x", "w", r.choice(here)),
                  op("t.addtree", "x", "w", "nowhere"), op("t.add", "w", r.segment("z2"), r.choice(here)), op("t.look", "x"), op("t.look", "w"), op("t.text", "x", " ", ""), op("t.text", "z", "+", "")]
        out.append(u)
    return out


def c13(tier, seed):
    return tree_units(tier, seed, False)


def c15(tier, seed):
    return tree_units(tier, seed, True)
