"""Scripts for joint arrays and joint-space inertia matrices."""
import copy
from gen_geom import n
from gen_mech import Mechs
from rnd import op


class Arrays(Mechs):
    def arr(self, kind, m):
        return [self.vs(m) for _ in range(kind + 1)]

    def scalar(self, kind):
        return [self.choice([-1, 1]) * self.uniform(0.3, 3)] + self.vs(kind)

    def mat(self, m):
        return [self.vs(m) for _ in range(m)]


def c18(tier, seed):
    r = Arrays(seed * 1000 + 180)
    out = []
    for _ in range(n(tier, 60, 3000)):
        u = []
        m = r.choice([1, 2, 3, 6, 7, 0])
        for k in ("00", "11", "10", "22", "21", "20"):
            u.append(op("q.sum", r.arr(int(k[0]), m), r.arr(int(k[1]), m), k))
            u.append(op("q.prod", r.arr(int(k[0]), m), r.scalar(int(k[1])), k))
        for k in (0, 1, 2):
            u += [op("q.copy", r.arr(k, m), k), op("q.size", r.arr(k, m), r.choice([0, 1, m, m + 1, m + 4, max(0, m - 1)]), k)]
            x, eps = r.arr(k, m), 10.0 ** -r.randrange(2, 8)
            y = copy.deepcopy(x)
            if m:
                y[r.randrange(k + 1)][r.randrange(m)] += eps * r.choice([0.5, -0.5, 2.0, -2.0, 0.0])
            u += [op("q.eq", x, y, eps, k), op("q.eq", x, r.arr(k, m), eps, k), op("q.eq", x, r.arr(k, m + 1), 10.0, k), op("q.eq", r.arr(k, m + 2), x, eps, k)]
        u.append(op("q.get", r.vs(m), r.arr(1, m), r.arr(2, m)))
        u.append(op("q.jac", [r.twist() for _ in range(m)], r.vs(m)))
        x, eps = r.mat(m), 10.0 ** -r.randrange(2, 8)
        y = copy.deepcopy(x)
        if m and r.random() < 0.7:
            y[r.randrange(m)][r.randrange(m)] += eps * r.choice([0.5, -0.5, 2.0, -2.0, 0.0])
        elif m:
            y = r.mat(m)
        u.append(op("q.mat", x, y, r.vs(m), r.nz(), eps, r.choice([0, 1, m, m + 2])))
        out.append(u)
    return out
