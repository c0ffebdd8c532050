"""Scripts for solvers through the life of their chain."""
import copy
from gen_geom import n
from gen_ik import Iks
from rnd import op

KINDS = ["jac", "jacdot", "dyn", "id", "fd", "hd", "treeid", "pinv", "givens", "nso", "wdls", "nr", "nrjl", "lma", "est"]
MOVING = ["RotX", "RotY", "RotZ", "TransX", "TransZ", "RotAxis", "TransAxis"]


def joints(segs):
    return sum(1 for s in segs if s["j"]["k"] != "Fixed")


class Lives(Iks):
    def seg(self, kind=None):
        self.count += 1
        s = self.segment("s%d" % self.count, kind or self.choice(MOVING + ["Fixed"]), 1.0)
        s["in"] = {"m": self.uniform(0.5, 2), "c": [self.uniform(-0.2, 0.2) for _ in range(3)], "I": self.spd()}
        return s

    def life(self, kind, name="l"):
        self.count = 0
        segs = [self.seg(self.choice(MOVING))] + [self.seg() for _ in range(self.randrange(0, 7))]
        s = self.settings(kind, joints(segs))
        out = [op("l.new", name, kind, copy.deepcopy(segs), copy.deepcopy(s))]
        st = {"segs": segs, "set": s, "nj": joints(segs), "ns": len(segs)}
        for _ in range(self.randrange(3, 14)):
            w = self.random()
            if w < 0.2:
                x = self.seg()
                st["segs"].append(x)
                out.append(op("l.add", name, copy.deepcopy(x)))
            elif w < 0.3:
                st["segs"] = [self.seg(self.choice(MOVING)) for _ in range(1)] + [self.seg() for _ in range(self.randrange(0, 8))]
                self.shuffle(st["segs"])
                out.append(op("l.assign", name, copy.deepcopy(st["segs"])))
            elif w < 0.5:
                out.append(op("l.update", name))
                st["nj"], st["ns"] = joints(st["segs"]), len(st["segs"])
                self.resize(kind, st["set"], st["nj"])
            elif w < 0.6 and (st["nj"], st["ns"]) == (joints(st["segs"]), len(st["segs"])):
                x = self.setting(kind, st["nj"])
                if x:
                    what, v, ok = x
                    out.append(op("l.set", name, what, v))
                    if ok:
                        st["set"][what] = copy.deepcopy(v)
            elif w < 0.6 and kind != "nrjl":     # set before it was told: whether that is taken or refused is left open, so it is told, and set, afterwards
                x = self.setting(kind, self.choice([st["nj"], joints(st["segs"])]))
                if x:
                    what = x[0]
                    out += [op("l.set", name, what, x[1]), op("l.update", name)]
                    st["nj"], st["ns"] = joints(st["segs"]), len(st["segs"])
                    self.resize(kind, st["set"], st["nj"])
                    x = None
                    while not x or x[0] != what or not x[2]:
                        x = self.setting(kind, st["nj"])
                    out.append(op("l.set", name, what, x[1]))
                    st["set"][what] = copy.deepcopy(x[1])
            elif w < 0.65 and kind in ("pinv", "givens", "nso", "wdls"):
                out.append(op("l.other", name))
            elif w < 0.68 and kind in ("nr", "nrjl"):
                out.append(op("l.inner", name))
            elif w < 0.7:
                out.append(op("l.texts", name))
            else:
                if self.random() < 0.35 and (st["nj"], st["ns"]) != (joints(st["segs"]), len(st["segs"])):
                    out.append(op("l.update", name))
                    st["nj"], st["ns"] = joints(st["segs"]), len(st["segs"])
                    self.resize(kind, st["set"], st["nj"])
                now = self.choice([True, False])    # sized for the chain as it is, or as it was told
                m, k = (joints(st["segs"]), len(st["segs"])) if now else (st["nj"], st["ns"])
                out.append(op("l.call", name, self.args(kind, m, k, st["set"]), copy.deepcopy(st["set"])))
        out.append(op("l.call", name, self.args(kind, st["nj"], st["ns"], st["set"]), copy.deepcopy(st["set"])))
        out.append(op("l.drop", name))
        return out

    def sizes(self, kind, name="l"):
        """used, told of a chain of another size, and used again, some times"""
        self.count = 0
        chain = lambda: [self.seg(self.choice(MOVING)) for _ in range(self.randrange(1, 9))]
        segs = chain()
        s = self.settings(kind, joints(segs))
        out = [op("l.new", name, kind, copy.deepcopy(segs), copy.deepcopy(s))]
        nj, ns = joints(segs), len(segs)
        off, self.off = self.off, lambda m: m
        for _ in range(3):
            out += [op("l.call", name, self.args(kind, nj, ns, s), copy.deepcopy(s)) for _ in range(2)]
            segs = chain()
            nj, ns = joints(segs), len(segs)
            out += [op("l.assign", name, copy.deepcopy(segs)), op("l.update", name)]
            self.resize(kind, s, nj)
        out += [op("l.call", name, self.args(kind, nj, ns, s), copy.deepcopy(s)) for _ in range(2)]
        self.off = off
        return out + [op("l.drop", name)]

    def bools(self, m):
        return [self.random() < 0.3 for _ in range(m)]

    def near(self, m):
        return [self.uniform(-1, 1) for _ in range(m)]

    def posw(self, m):
        return [self.uniform(0.5, 2) for _ in range(m)]

    def off(self, m):
        """a size, mostly the right one"""
        return m if self.random() < 0.93 else self.choice([m + 1, max(0, m - 1), m + 3])

    def settings(self, kind, m):
        if kind == "jac":
            return {"locked": self.bools(m)}
        if kind == "jacdot":
            return {"locked": self.bools(m), "rep": self.choice([0, 1, 2])}
        if kind in ("dyn", "id", "fd", "treeid"):
            return {"g": [0.0, self.choice([0.0, 1.0]), -9.81]}
        if kind == "hd":
            return {"acc": {"vel": [0.0, 0.0, 9.81], "rot": [0.0, 0.0, 0.0]}, "nc": self.choice([1, 2, 3])}
        if kind == "pinv":
            return {"eps": 1e-5}
        if kind == "givens":
            return {"none": 0}
        if kind == "nso":
            return {"opt": self.near(m), "w": self.posw(m), "alpha": self.choice([0.0, 0.25, 1.0]), "eps": 1e-5}
        if kind == "wdls":
            return {"mq": self.spdm(m), "mx": self.spdm(6), "lambda": self.choice([0.0, 0.1, 1.0]), "eps": 1e-5}
        if kind == "nr":
            return {"eps": 1e-6, "maxiter": 100}
        if kind == "nrjl":
            return {"eps": 1e-6, "maxiter": 100, "lim": [[-3.0] * m, [3.0] * m] if self.random() < 0.7 else []}
        if kind == "lma":
            return {"eps": 1e-5, "maxiter": 500}
        if kind == "est":
            return {"g": [0.0, 0.0, -9.81], "freq": 500.0, "gain": 45.0, "filter": 0.5, "eps": 1e-3}

    def spdm(self, m):
        d = self.posw(m)
        return [[d[i] if i == j else (0.1 if self.count % 2 else 0.0) for j in range(m)] for i in range(m)]

    def setting(self, kind, m):
        """what, a value, and whether it has the right size"""
        k = m if self.random() < 0.7 else self.choice([m + 1, m - 1 if m > 0 else m + 2])
        ok = k == m
        if kind == "jac":
            return "locked", self.bools(k), ok
        if kind == "jacdot":
            return ("locked", self.bools(k), ok) if self.random() < 0.6 else ("rep", self.choice([0, 1, 2]), True)
        if kind == "nso":
            w = self.choice(["opt", "w", "alpha"])
            return ("alpha", self.choice([0.0, 0.5]), True) if w == "alpha" else (w, self.posw(k), ok)
        if kind == "wdls":
            w = self.choice(["mq", "mx", "lambda"])
            if w == "lambda":
                return w, self.choice([0.0, 0.3]), True
            if w == "mx":
                return w, self.spdm(6 if ok else 5), ok
            return w, self.spdm(k), ok
        if kind == "nrjl":
            j = m if self.random() < 0.8 else m + 1
            return "lim", [[-2.5] * k, [2.5] * j], ok and j == m

    def resize(self, kind, s, m):
        pad = lambda v, x: [v[k] if k < len(v) else x for k in range(m)]
        if kind in ("jac", "jacdot"):
            s["locked"] = pad(s["locked"], False)
        elif kind == "nso":
            s["opt"], s["w"] = pad(s["opt"], 0.0), pad(s["w"], 1.0)
        elif kind == "wdls":
            q = s["mq"]
            s["mq"] = [[q[j][k] if j < len(q) and k < len(q) else float(j == k) for k in range(m)] for j in range(m)]
        elif kind == "nrjl" and s["lim"]:
            s["lim"] = [pad(s["lim"][0], -1e300), pad(s["lim"][1], 1e300)]

    def wr(self, k):
        return [self.wrench() for _ in range(k)]

    def args(self, kind, m, k, s):
        o = self.off
        if kind == "jac":
            return [self.near(o(m)), o(m)]
        if kind == "jacdot":
            free = sum(1 for x in (s["locked"] + [False] * m)[:m] if not x)
            j = o(m)
            return [self.near(j), self.near(j), o(free)]
        if kind == "dyn":
            return [self.choice(["mass", "coriolis", "gravity"]), self.near(o(m)), self.near(o(m)), o(m)]
        if kind in ("id", "fd"):
            return [self.near(o(m)), self.near(o(m)), self.near(o(m)), self.wr(o(k)), o(m)]
        if kind == "hd":
            nc = s["nc"]
            alfa = [{"vel": [float(i == j) for i in range(3)], "rot": [0.0] * 3} for j in range(o(nc) % 4)]
            return [self.near(o(m)), self.near(o(m)), alfa, [0.0] * o(nc), self.wr(o(k)), self.near(o(m)), o(m)]
        if kind == "treeid":
            return [self.near(o(m)), self.near(o(m)), self.near(o(m)), o(m)]
        if kind == "est":
            return [self.near(o(m)), self.near(o(m)), self.near(o(m))]
        if kind in ("nr", "nrjl", "lma"):
            return [self.near(o(m)), self.frame() if self.random() < 0.3 else {"M": [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], "p": [0.3, 0.1, 0.4]}, o(m)]
        return [self.near(o(m)), self.twist(), o(m)]


def c26(tier, seed):
    r = Lives(seed * 1000 + 260)
    return [r.life(k) for _ in range(n(tier, 60, 1500)) for k in KINDS] + [r.sizes(k) for _ in range(n(tier, 25, 500)) for k in KINDS]
