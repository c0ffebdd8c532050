"""Scripts for numbers, vectors, rotations, frames and twists with their derivatives."""
import copy
from gen_geom import n, near
from rnd import ANGLES, CUBE, I3, PI, Rnd, about, mm, op

FUNS = ["exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "sqr", "pow", "sqrt", "asin", "acos", "atan"]


# numbers nested into one another, and the number of derivatives they carry
NESTED = [("1 in 1", 2), ("1 in 1 in 1", 3), ("2 in 1", 3), ("1 in 2", 3), ("3", 3), ("4", 4), ("5", 5)]


class Jets(Rnd):
    """k: the number of derivatives."""
    k = 1

    def num(self):
        return [self.real() for _ in range(self.k + 1)]

    def nzj(self):
        return [self.choice([-1, 1]) * self.uniform(0.3, 3)] + [self.real() for _ in range(self.k)]

    def vecj(self):
        return [self.vec() for _ in range(self.k + 1)]

    def rotj(self):
        r = {"R": self.rot(), "w": self.vec()}
        if self.k == 2:
            r["dw"] = self.vec()
        return r

    def framej(self):
        return {"M": self.rotj(), "p": self.vecj()}

    def twistj(self):
        return {"vel": self.vecj(), "rot": self.vecj()}

    def arg(self, f):
        """a value inside the domain of the function, away from its singularities"""
        x = self.num()
        lo, hi = {"log": (0.1, 5), "sqrt": (0.1, 5), "pow": (0.2, 3), "asin": (-0.95, 0.95), "acos": (-0.95, 0.95), "tan": (-1.4, 1.4)}.get(f, (-2.5, 2.5))
        x[0] = self.uniform(lo, hi)
        if f not in ("log", "sqrt", "pow") and self.random() < 0.15:
            x[0] = 0.0
        return x

    def v1(self):
        """a jet of a vector whose length is not near zero"""
        while True:
            v = self.vecj()
            if sum(x * x for x in v[0]) > 0.2:
                return v


def c06(tier, seed):
    out = []
    r = Jets(seed * 1000 + 63)
    for _ in range(n(tier, 15, 400)):
        for kind, k in NESTED:
            r.k = k
            out.append([op("nd.num", kind, r.nzj(), r.nzj(), r.choice([-1, 1]) * r.pos())]
                       + [op("nd.fn", kind, f, r.arg(f), r.choice([2.0, 3.0, 0.5, -1.0, 1.0, 2.5, -0.5])) for f in FUNS])
        for k in range(1, 7):
            r.k = k
            out.append([op("nd.given", k, r.num())])
    for k in (1, 2):
        r = Jets(seed * 1000 + 60 + k)
        r.k = k
        for _ in range(n(tier, 120, 4000)):
            out.append([op("j%d.num" % k, r.nzj(), r.nzj(), r.choice([-1, 1]) * r.pos())]
                       + [op("j%d.fn" % k, f, r.arg(f), r.choice([2.0, 3.0, 0.5, -1.0, 1.0, 2.5, -0.5])) for f in FUNS])
        for x in (0.0, 1.0, -1.0, 2.0):
            for d in (0.0, 1.0, -2.0):
                for dd in ((0.0,) if k == 1 else (0.0, 1.0, -3.0)):
                    j = [x, d] + ([dd] if k == 2 else [])
                    out.append([op("j%d.fn" % k, f, j, 2.0) for f in FUNS
                                if not (f in ("log", "sqrt", "pow") and x <= 0) and not (f in ("asin", "acos") and abs(x) > 0.9)])
    return out


def jets(prop, k):
    def gen(tier, seed):
        r = Jets(seed * 1000 + 10 * prop)
        r.k = k
        j = "j%d." % k
        out = []
        for _ in range(n(tier, 150, 4000)):
            u = [op(j + "vec", r.v1(), r.vecj(), r.vec(), r.choice([-1, 1]) * r.pos(), r.nzj()),
                 op(j + "rot", r.rotj(), r.rotj(), r.rot(), r.vecj(), r.vec(), r.twistj(), r.twist()),
                 op(j + "frame", r.framej(), r.framej(), r.frame(), r.vecj(), r.vec(), r.twistj(), r.twist()),
                 op(j + "twist", r.twistj(), r.twistj(), r.choice([-1, 1]) * r.pos(), r.nzj(), r.vecj())]
            if k == 1:
                u.append(op("j1.get", r.framej(), r.twistj(), r.vecj(), r.twist(), r.twist()))
                u.append(op("j1.turn", [r.angle(), r.real()], [x * r.choice([0.0, 1e-8, 1e-4]) for x in r.unit()] if r.random() < 0.2 else r.axis(), r.unit(), r.rotj()))
                x, y, f, g = r.rotj(), r.rotj(), r.framej(), r.framej()
                y["R"] = mm(about(r.unit(), r.angle()), x["R"])
                u.append(op("j1.diff", r.num(), r.num(), r.vecj(), r.vecj(), x, y, f, g, r.choice([1.0, 1.0, 0.5, 2.0, -1.0])))
                u.append(op("j1.add", r.num(), r.num(), r.vecj(), r.vecj(), r.rotj(), r.vecj(), r.framej(), r.twistj(), r.choice([1.0, 0.5, 0.01, -1.0])))
            else:
                u.append(op("j2.get", r.framej()))
            out.append(u)
        return out
    return gen


c07 = jets(7, 1)
c08 = jets(8, 2)


def c09(tier, seed):
    out = []
    for k in (1, 2):
        r = Jets(seed * 1000 + 90 + k)
        r.k = k
        for _ in range(n(tier, 200, 4000)):
            u = []
            for name, make in (("v", r.vecj), ("m", r.rotj), ("f", r.framej), ("t", r.twistj), ("d", r.num)):
                x = make()
                if r.random() < 0.3:        # no derivatives, so that the mixed comparison can be true
                    z = make()
                    if name == "v":
                        x[1:] = [[0.0] * 3] * k
                    elif name == "d":
                        x[1:] = [0.0] * k
                    elif name == "m":
                        x = dict(x, **{d: [0.0] * 3 for d in x if d != "R"})
                    elif name == "f":
                        x = {"M": dict(x["M"], **{d: [0.0] * 3 for d in x["M"] if d != "R"}), "p": [x["p"][0]] + [[0.0] * 3] * k}
                    else:
                        x = {f: [x[f][0]] + [[0.0] * 3] * k for f in x}
                    x = copy.deepcopy(x)
                e = r.choice([1e-6, 1e-6, 1e-3, 1e-9, 0.5])
                u.append(op("eq.j%d%s" % (k, name), x, near(r, x, r.choice([e, 1e-6])), e))
            out.append(u)
    return out
