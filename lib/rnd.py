"""Seeded choices of the values the scripts are made of."""
import math
import random

PI = math.pi
ANGLES = [0.0, PI / 2, -PI / 2, PI, -PI, PI / 4, -PI / 4, 3 * PI / 4, PI / 3, PI / 6, 2 * PI, 1e-3, -1e-3, 1.0, 2.5, -2.5, 7.0, -11.0]
NICE = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, 0.1, 10.0]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def about(u, q):
    c, s, v = math.cos(q), math.sin(q), 1 - math.cos(q)
    x, y, z = u
    return [[c + v * x * x, v * x * y - s * z, v * x * z + s * y],
            [v * x * y + s * z, c + v * y * y, v * y * z - s * x],
            [v * x * z - s * y, v * y * z + s * x, c + v * z * z]]


I3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
# the 24 rotations which map the axes onto each other, exactly
CUBE = []


def _cube():
    gens = [[[1.0, 0.0, 0.0], [0.0, 0.0, -1.0], [0.0, 1.0, 0.0]], [[0.0, -1.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]]
    todo = [I3]
    while todo:
        m = todo.pop()
        if m in CUBE:
            continue
        CUBE.append(m)
        todo += [[[x + 0.0 for x in row] for row in mm(m, g)] for g in gens]


_cube()


class Rnd(random.Random):
    def real(self, big=False):
        k = self.random()
        if k < 0.25:
            return self.choice(NICE)
        if k < 0.3:
            return self.choice([-1, 1]) * 10.0 ** self.uniform(-4, 3 if big else 1.5)
        return self.uniform(-3, 3)

    def nz(self):
        while True:
            x = self.real()
            if abs(x) > 1e-2:
                return x

    def pos(self, lo=0.1, hi=3.0):
        return self.uniform(lo, hi)

    def angle(self):
        return self.choice(ANGLES) if self.random() < 0.4 else self.uniform(-PI, PI)

    def vec(self):
        return [self.real() for _ in range(3)]

    def unit(self):
        if self.random() < 0.3:
            return self.choice([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]])
        if self.random() < 0.15:
            s = math.sqrt(0.5)
            return self.choice([[s, s, 0.0], [s, 0.0, -s], [0.0, s, s], [-s, s, 0.0], [0.6, -0.8, 0.0], [0.0, 0.6, 0.8]])
        while True:
            v = [self.gauss(0, 1) for _ in range(3)]
            n = math.sqrt(sum(x * x for x in v))
            if n > 1e-3:
                return [x / n for x in v]

    def axis(self):
        s = self.choice([1.0, 1.0, 2.0, 0.1, 7.5, 1e-3])
        return [x * s for x in self.unit()]

    def rot(self):
        k = self.random()
        if k < 0.15:
            return [list(r) for r in self.choice(CUBE)]
        if k < 0.2:
            return [list(r) for r in I3]
        return about(self.unit(), self.angle())

    def frame(self):
        return {"M": self.rot(), "p": self.vec()}

    def twist(self):
        return {"vel": self.vec(), "rot": self.vec()}

    def wrench(self):
        return {"f": self.vec(), "t": self.vec()}

    def vec2(self):
        return [self.real(), self.real()]

    def frame2(self):
        return {"th": self.angle(), "p": self.vec2()}


FID = {"M": I3, "p": [0.0, 0.0, 0.0]}


def op(name, *args):
    return {"op": name, "a": list(args)}
