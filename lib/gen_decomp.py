"""Scripts for the matrix decompositions."""
import math
from gen_geom import n
from gen_ik import Iks
from rnd import op


class Decomps(Iks):
    def entries(self, kind):
        if kind == "ints":
            return float(self.choice([-2, -1, 0, 0, 1, 1, 2]))
        if kind == "signs":
            return float(self.choice([-1, 1]))
        if kind == "sparse":
            return self.gauss(0, 1) if self.random() < 0.3 else 0.0
        if kind == "wild":
            return self.choice([-1, 1]) * 10.0 ** self.uniform(-12, 3)
        return self.gauss(0, 1)

    def orth(self, k):
        """a k x k orthogonal matrix"""
        m = [[1.0 if i == j else 0.0 for j in range(k)] for i in range(k)]
        if self.random() < 0.15:
            self.shuffle(m)
            return m
        for _ in range(2 * k if k > 1 else 0):
            i, j = self.sample(range(k), 2)
            t = self.choice([self.uniform(-math.pi, math.pi), math.pi / 2, math.pi / 4])
            c, s = math.cos(t), math.sin(t)
            for row in m:
                row[i], row[j] = c * row[i] - s * row[j], s * row[i] + c * row[j]
        return m

    def spectrum(self, u, s, v):
        return [[sum(u[i][k] * s[k] * v[j][k] for k in range(len(s))) for j in range(len(v))] for i in range(len(u))]

    def shaped(self, m, k, scales=(1e-5, 1e6, 1e-60, 1e80, 1e-120)):
        """an m x k matrix"""
        w = self.random()
        if w < 0.08:
            x = [[0.0] * k for _ in range(m)]
            if m and k and self.random() < 0.7:
                x[self.randrange(m)][self.randrange(k)] = self.choice([1.0, -3.0, 1e-9])
        elif w < 0.2 and m and k:      # (bi)diagonal, with zeros and repetitions
            x = [[0.0] * k for _ in range(m)]
            for i in range(min(m, k)):
                x[i][i] = self.choice([1.0, 1.0, -1.0, 0.0, 2.0, 1e-8])
                if i + 1 < k and self.random() < 0.5:
                    x[i][i + 1] = self.choice([1.0, -1.0, 1e-8])
        elif w < 0.4 and m and k:      # given singular values
            s = [self.choice([0.0, 1.0, 1.0, 2.0, 1e-3, 1e-7, 1e-12, 3.0, self.uniform(0, 5)]) for _ in range(min(m, k))]
            x = self.spectrum(self.orth(m), s, self.orth(k))
        elif w < 0.5 and m and k:      # low rank
            rk = self.randrange(1, max(2, min(m, k)))
            a = [[self.gauss(0, 1) for _ in range(rk)] for _ in range(m)]
            b = [[self.gauss(0, 1) for _ in range(k)] for _ in range(rk)]
            x = [[sum(a[i][q] * b[q][j] for q in range(rk)) for j in range(k)] for i in range(m)]
        elif w < 0.6 and m and k:      # columns or rows alike or opposite
            x = [[self.entries("ints") for _ in range(k)] for _ in range(m)]
            if k > 1:
                i, j = self.sample(range(k), 2)
                f = self.choice([1.0, -1.0, 2.0])
                for row in x:
                    row[i] = f * row[j]
            if m > 1 and self.random() < 0.5:
                i, j = self.sample(range(m), 2)
                x[i] = list(x[j])
        else:
            kind = self.choice(["ints", "signs", "sparse", "wild", "gauss", "gauss"])
            x = [[self.entries(kind) for _ in range(k)] for _ in range(m)]
        if self.random() < 0.15:
            f = self.choice(scales)
            x = [[f * y for y in row] for row in x]
        return x

    def definite(self, m, easy=False):
        u = self.orth(m)
        s = [self.choice([1.0, 1.0, 2.0, 5.0, self.uniform(0.1, 3)]) * (1 if easy else self.choice([1, 1, 1e-2, 1e-4])) for _ in range(m)]
        x = self.spectrum(u, s, u)
        f = self.choice([1.0, 1.0, 1e-6, 1e5])
        return [[f * (x[i][j] + x[j][i]) / 2 for j in range(m)] for i in range(m)]


def c33(tier, seed):
    r = Decomps(seed * 1000 + 330)
    out = []
    many = lambda m, k, *sc: [r.shaped(m, k, *sc) for _ in range(r.choice([1, 1, 2, 3]))]
    for _ in range(n(tier, 400, 8000)):
        m, k = r.choice([1, 2, 3, 4, 5, 6, 6, 6, 7, 8, 9]), r.choice([1, 2, 3, 4, 5, 6, 6, 7, 8, 9, 0])
        it = r.choice([-1, -1, -1, 150, 0, 1, 2, 5, 100])
        before = r.choice([0.0, 7.0, -1e3])
        u = [op("d.svd", many(m, k), k, it, before), op("d.svdjac", many(6, k), k, r.choice([150, 150, 150, 0, 1, 3]), before)]
        k = r.randrange(1, m + 1)
        u.append(op("d.macie", many(m, k, (1e-5, 1e6, 1e-50, 1e50)), k, r.orth(m), r.orth(k), r.choice([1e-15, 1e-15, 1e-12, 1e-20]), r.random() < 0.5))
        d = r.choice([0, 1, 2, 3, 4, 6, 7, 8])
        a, v = r.definite(d), [r.gauss(0, 1) for _ in range(d)]
        if r.random() < 0.1:
            v = [0.0] * d
        sizes = [d] * 5
        w = r.random()
        if w < 0.15:
            sizes[r.randrange(5)] = r.choice([d + 1, d + 3, max(0, d - 1)])
        elif w < 0.2:
            v = v + [1.0]
        elif w < 0.25 and d:
            a = [row + [1.0] for row in a]
        elif w < 0.3 and d:
            a = a[:-1]
        u.append(op("d.ldl", a, v, sizes, before))
        out.append(u)
    return out
