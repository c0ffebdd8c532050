"""Scripts for inverse, forward and constrained dynamics."""
from gen_geom import n
from gen_mech import LETTERS, Mechs, grow, moving
from rnd import op

G = [[0.0, 0.0, -9.81], [0.0, 0.0, 0.0], [3.0, -2.0, 9.0]]


class Dyns(Mechs):
    def g(self):
        return self.choice(G) if self.random() < 0.7 else self.vec()

    def ws(self, k):
        none = self.random() < 0.3
        return [{"f": [0.0] * 3, "t": [0.0] * 3} if none or self.random() < 0.3 else self.wrench() for _ in range(k)]

    def heavy(self, m, fixed=0.2, plain=0.5):
        """a chain whose inertia matrix is positive definite"""
        segs = self.chain(m, plain, fixed)
        for s in segs:
            if s["in"]["m"] == 0.0:
                s["in"] = dict(self.body(), m=self.pos())
            if s["j"]["k"] != "Fixed" and (self.random() < 0.4 or s["j"]["k"].startswith("Trans")):
                s["j"]["i"] = self.pos()
        return segs

    def small(self, k):
        return [self.uniform(-2, 2) for _ in range(k)]


def c19(tier, seed):
    r = Dyns(seed * 1000 + 190)
    out = []
    for i in range(n(tier, 110, 3000)):
        segs = r.chain(r.choice([0, 1, 2, 2, 3, 4, 5, 6, 7]), r.choice([0.2, 0.5, 1.0]), r.choice([0.0, 0.3, 1.0 if i % 15 == 0 else 0.5]))
        nj, ns = moving(segs), len(segs)
        u = [op("c.new", "c", segs)]
        z = [0.0] * nj
        for k in range(3):
            u.append(op("c.id", "c", r.g(), r.qs(nj), r.vs(nj), r.vs(nj), r.ws(ns), nj))
            u.append(op("c.dynpar", "c", r.g(), r.qs(nj), r.vs(nj), nj))
        u += [op("c.id", "c", r.g(), r.qs(nj), z, z, r.ws(ns), nj), op("c.id", "c", [0.0] * 3, r.qs(nj), r.vs(nj), z, r.ws(ns), nj),
              op("c.id", "c", r.g(), r.qs(nj + 1), r.vs(nj), z, r.ws(ns), nj), op("c.id", "c", r.g(), r.qs(nj), r.vs(nj + 1), z, r.ws(ns), nj),
              op("c.id", "c", r.g(), r.qs(nj), r.vs(nj), r.vs(nj + 1), r.ws(ns), nj), op("c.id", "c", r.g(), r.qs(nj), r.vs(nj), z, r.ws(ns + 1), nj),
              op("c.id", "c", r.g(), r.qs(nj), r.vs(nj), z, r.ws(ns), nj + 1),
              op("c.dynpar", "c", r.g(), r.qs(nj + 1), r.vs(nj), nj), op("c.dynpar", "c", r.g(), r.qs(nj), r.vs(nj + 1), nj), op("c.dynpar", "c", r.g(), r.qs(nj), r.vs(nj), nj + 1)]
        if nj:
            u += [op("c.dynpar", "c", r.g(), r.qs(nj - 1), r.vs(nj), nj), op("c.dynpar", "c", r.g(), r.qs(nj), r.vs(nj), nj - 1),
                  op("c.id", "c", r.g(), r.qs(nj - 1), r.vs(nj - 1), r.vs(nj - 1), r.ws(ns), nj - 1), op("c.id", "c", r.g(), r.qs(nj), r.vs(nj), z, r.ws(ns - 1), nj)]
        out.append(u)
    return out


def c20(tier, seed):
    r = Dyns(seed * 1000 + 200)
    out = []
    for i in range(n(tier, 110, 3000)):
        segs = r.heavy(r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6]), r.choice([0.0, 0.3]))
        nj, ns = moving(segs), len(segs)
        u = [op("c.new", "c", segs)]
        for k in range(4):
            u.append(op("c.fd", "c", r.g(), r.qs(nj), r.vs(nj), r.vs(nj), r.ws(ns), nj))
        u += [op("c.fd", "c", r.g(), r.qs(nj + 1), r.vs(nj), r.vs(nj), r.ws(ns), nj), op("c.fd", "c", r.g(), r.qs(nj), r.vs(nj + 1), r.vs(nj), r.ws(ns), nj),
              op("c.fd", "c", r.g(), r.qs(nj), r.vs(nj), r.vs(nj + 1), r.ws(ns), nj), op("c.fd", "c", r.g(), r.qs(nj), r.vs(nj), r.vs(nj), r.ws(ns + 1), nj),
              op("c.fd", "c", r.g(), r.qs(nj), r.vs(nj), r.vs(nj), r.ws(ns), nj + 1)]
        if ns <= 4:
            dt = r.choice([0.01, 0.001, 0.05, -0.02])
            u.append(op("c.rk4", "c", r.g(), r.qs(nj), r.small(nj), r.small(nj), r.ws(ns), dt, r.choice([1, 1, 2, 4])))
        out.append(u)
    return out


def c21(tier, seed):
    r = Dyns(seed * 1000 + 210)
    out = []
    for _ in range(n(tier, 90, 2500)):
        pool = list(LETTERS[:12])
        r.shuffle(pool)
        root = "root"
        m = r.choice([0, 1, 2, 3, 5, 7, 9])
        ops, here = grow(r, "t", pool, m, [root])
        nj = moving([o["a"][1] for o in ops])
        u = [op("t.new", "t", root)] + ops
        t = "t"
        if r.random() < 0.3:
            u.append(op("t.copy", "w", "t"))
            t = "w"
        ext = lambda: [[x, r.wrench()] for x in here if r.random() < 0.5] + ([["nowhere", r.wrench()]] if r.random() < 0.2 else [])
        for k in range(4):
            u.append(op("t.id", t, r.g(), r.qs(nj), r.vs(nj), r.vs(nj), ext() if k else [], nj))
        u += [op("t.id", t, r.g(), r.qs(nj + 1), r.vs(nj), r.vs(nj), [], nj), op("t.id", t, r.g(), r.qs(nj), r.vs(nj + 1), r.vs(nj), [], nj),
              op("t.id", t, r.g(), r.qs(nj), r.vs(nj), r.vs(nj + 1), [], nj), op("t.id", t, r.g(), r.qs(nj), r.vs(nj), r.vs(nj), [], nj + 1)]
        out.append(u)
    return out


def c22(tier, seed):
    r = Dyns(seed * 1000 + 220)
    out = []
    e = [[1.0 if i == k else 0.0 for i in range(6)] for k in range(6)]
    tw = lambda v: {"vel": v[:3], "rot": v[3:]}
    for _ in range(n(tier, 140, 4000)):
        n_s = r.choice([1, 2, 3, 4, 5, 6, 6, 7])
        segs = r.heavy(n_s, r.choice([0.0, 0.0, 0.3]))
        m = sum(1 for x in segs if x["j"]["k"] != "Fixed")
        u = [op("c.new", "c", segs)]
        for k in range(5):
            nc = r.choice([0, 1, 1, 2, 3, min(6, m)])
            nc = min(nc, m)
            w = r.random()
            if w < 0.15:
                alfa = [tw([0.0] * 6) for _ in range(nc)]
            elif w < 0.6:
                alfa = [tw(x) for x in r.sample(e, nc)]
            else:
                alfa = [tw([r.uniform(-1, 1) for _ in range(6)]) for _ in range(nc)]
            if nc and r.random() < 0.3:
                alfa[r.randrange(nc)] = tw([0.0] * 6)
            root = {"vel": [-x for x in r.g()], "rot": [0.0] * 3 if r.random() < 0.8 else r.vec()}
            ff = [0.0] * m if r.random() < 0.3 else r.vs(m)
            beta = [0.0 if a == tw([0.0] * 6) else r.real() for a in alfa]
            u.append(op("c.hd", "c", root, r.qs(m), r.small(m) if r.random() < 0.8 else [0.0] * m, alfa, beta, r.ws(n_s), ff, m, nc))
        root, alfa, beta = {"vel": [0.0, 0.0, 9.81], "rot": [0.0] * 3}, [tw(e[0])], [0.0]
        for bad in range(9):
            q, qd, ff, w, k, al, be, nc = m, m, m, n_s, m, alfa, beta, 1
            if bad == 0: q += 1
            if bad == 1: qd += 1
            if bad == 2: ff += 1
            if bad == 3: w += 1
            if bad == 4: k += 1
            if bad == 5: al = alfa * 2
            if bad == 6: be = [0.0, 0.0]
            if bad == 7 and m: q, qd, ff, k = m - 1, m - 1, m - 1, m - 1
            if bad == 8: nc = 2
            u.append(op("c.hd", "c", root, r.qs(q), r.vs(qd), al, be, r.ws(w), r.vs(ff), k, nc))
        out.append(u)
    return out


def c34(tier, seed):
    r = Dyns(seed * 1000 + 340)
    out = []
    for i in range(n(tier, 70, 1500)):
        segs = r.heavy(r.choice([1, 1, 2, 2, 3, 4, 5, 6, 7]), r.choice([0.0, 0.2]))
        nj = moving(segs)
        u = [op("c.new", "c", segs)]
        for k in range(2):
            f = r.choice([100.0, 1000.0, 10.0])
            gain = r.choice([0.3, 0.1, 0.6]) * f * r.choice([1.0, 1.0, 0.1])
            keep = r.choice([0.0, 0.0, 0.5, 0.3, 0.9])
            u.append(op("e.new", "e", "c", r.g(), f, gain, keep, r.choice([1e-5, 1e-5, 1e-3, 0.1]), 150))
            for m in range(2):
                q, v = r.qs(nj), r.small(nj)
                if m or r.random() < 0.7:
                    u.append(op("e.start", "e", q, v))
                rows = []
                for s in range(r.choice([1, 2, 3, 4])):
                    rows.append([q, v, r.small(nj)])
                    v = [x + r.uniform(-0.1, 0.1) for x in v]
                    q = [x + y / f for x, y in zip(q, v)]
                w = r.random()
                if w < 0.3:
                    rows.insert(r.randrange(len(rows) + 1), r.choice([[q + [0.0], v, v], [q, v + [0.0], v], [q, v, v + [0.0]], [q[1:], v, v], [q[1:], v[1:], v[1:]]]))
                few = r.random() < 0.25
                if few:
                    u.append(op("e.its", "e", r.choice([0, 1, 2, 3])))
                u.append(op("e.run", "e", rows))
                if few:
                    u.append(op("e.its", "e", 150))
                if r.random() < 0.3:
                    u.append(op("e.start", "e", q + [1.0], v))
                if r.random() < 0.3:
                    u.append(op("e.eps", "e", r.choice([1e-5, 1e-3, 0.2])))
                if r.random() < 0.6:
                    u.append(op("e.rest", "e", q if r.random() < 0.7 else r.qs(nj), r.small(nj), r.choice([60, 300, 900])))
        out.append(u)
    return out
