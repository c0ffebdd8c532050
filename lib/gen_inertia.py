"""Scripts for inertias."""
from gen_geom import n
from rnd import Rnd, op


class Inertias(Rnd):
    def spd(self):
        """a rotational inertia a body can have, as xx yy zz xy xz yz"""
        b = [[self.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
        g = [[sum(b[i][k] * b[j][k] for k in range(3)) for j in range(3)] for i in range(3)]
        tr = g[0][0] + g[1][1] + g[2][2]
        return [tr - g[0][0], tr - g[1][1], tr - g[2][2], -g[0][1], -g[0][2], -g[1][2]]

    def body(self):
        return {"m": 0.0 if self.random() < 0.1 else self.pos(), "c": self.vec() if self.random() < 0.85 else [0.0, 0.0, 0.0], "I": self.spd()}

    def sym(self):
        s = [self.real() for _ in range(6)]
        return [[s[0], s[3], s[4]], [s[3], s[1], s[5]], [s[4], s[5], s[2]]]

    def art(self):
        return {"M": self.sym(), "H": [self.vec(), self.vec(), self.vec()], "I": self.sym()}


def c10(tier, seed):
    r = Inertias(seed * 1000 + 100)
    out = []
    for _ in range(n(tier, 200, 5000)):
        out.append([op("i.rot", [r.real() for _ in range(6)], r.spd(), r.real(), r.vec()),
                    op("i.rb", r.body(), r.body(), r.pos(), r.twist(), r.frame(), r.rot(), r.vec()),
                    op("i.ab", r.art(), r.art(), r.real(), r.twist(), r.frame(), r.rot(), r.vec(), r.body())])
    return out
