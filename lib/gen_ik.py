"""Scripts for inverse kinematics."""
from gen_geom import n
from gen_dyn import Dyns
from gen_mech import LETTERS, grow, moving
from rnd import FID, PI, op


class Iks(Dyns):
    def arm(self, m):
        """a chain of m moving joints, often one with singular poses"""
        w = self.random()
        if w < 0.2:     # planar
            k = self.choice(["RotX", "RotY", "RotZ"])
            return [dict(self.segment("s%d" % i, k, 1.0), tip={"M": FID["M"], "p": [self.choice([0.0, 1.0, 0.5]), self.choice([0.0, 1.0]), 0.0]}) for i in range(m)]
        if w < 0.35:    # gantry
            return [self.segment("s%d" % i, self.choice(["TransX", "TransY", "TransZ"] if i < 3 else ["RotX", "RotY", "RotZ"]), 1.0) for i in range(m)]
        if w < 0.6:     # like a robot with a wrist
            kinds = ["RotZ", "RotY", "RotY", "RotZ", "RotY", "RotZ", "RotY", "RotX"]
            tips = [[0, 0, 0.5], [0, 0, 1.0], [0, 0, 0.7], [0, 0, 0], [0, 0, 0], [0, 0, 0.2], [0.1, 0, 0.1], [0, 0.2, 0]]
            return [dict(self.segment("s%d" % i, kinds[i], 1.0), tip={"M": FID["M"], "p": [float(x) for x in tips[i]]}) for i in range(m)]
        segs = self.chain(m, self.choice([0.3, 1.0]), 0.0)
        if self.random() < 0.4:
            segs.insert(self.randrange(m + 1), self.segment("f", "Fixed"))
        return segs

    def pose(self, m):
        w = self.random()
        if w < 0.15:
            return [0.0] * m
        if w < 0.4:
            return [self.choice([0.0, PI / 2, -PI / 2, PI, PI / 4]) for _ in range(m)]
        if w < 0.55:
            return [self.choice([0.0, 1e-2, 1e-3, 1e-4, 1e-7, 1e-9]) for _ in range(m)]
        return [self.uniform(-PI, PI) for _ in range(m)]

    def twists(self):
        return {"vel": [0.0] * 3, "rot": [0.0] * 3} if self.random() < 0.1 else self.twist()

    def calls(self, m, k):
        return [[self.pose(m), self.twists()] for _ in range(k)]

    def weight(self, m, zeros=0.3):
        """a symmetric positive definite matrix, or a diagonal one with zeros"""
        w = self.random()
        if w < 0.3:
            return [[1.0 if i == k else 0.0 for i in range(m)] for k in range(m)]
        if w < 0.7:
            d = [0.0 if self.random() < zeros else self.choice([1.0, 0.1, 0.01, 2.0, self.pos()]) for _ in range(m)]
            return [[d[k] if i == k else 0.0 for i in range(m)] for k in range(m)]
        a = [[self.uniform(-1, 1) for _ in range(m)] for _ in range(m)]
        return [[sum(a[i][l] * a[k][l] for l in range(m)) + (0.3 if i == k else 0.0) for i in range(m)] for k in range(m)]

    def eye(self, m):
        return [[1.0 if i == k else 0.0 for i in range(m)] for k in range(m)]

    def near(self, q, d):
        return [x + self.uniform(-d, d) for x in q]

    def far(self):
        """a frame out of reach"""
        return {"M": self.rot(), "p": [self.choice([50.0, -80.0]), self.uniform(-9, 9), self.uniform(-9, 9)]}

    def goal_calls(self, nj, frame):
        """calls [q, goal q, frame, size]: near, at, far from the goal, out of reach; frame makes the goal of a frame and a q"""
        q = lambda: self.pose(nj) if self.random() < 0.5 else self.qs(nj)
        u = []
        for d in (0.0, 0.0, 1e-7, 1e-4, 0.003, 0.003, 0.01, 0.03, 0.03, 0.3, 1.0):
            a = [self.uniform(-2.5, 2.5) for _ in range(nj)] if self.random() < 0.7 else q()
            u.append([a, self.near(a, d), frame(None), nj])
        u += [[q(), q(), frame(None), nj] for _ in range(3)]
        u += [[q(), q(), frame(self.frame()), nj], [q(), [], frame(self.frame()), nj], [q(), [], frame(self.far()), nj]]
        u += [[self.pose(nj + 1), self.pose(nj), frame(None), nj], [q(), self.pose(nj), frame(None), nj + 1]]
        if nj:
            u.append([q()[1:], self.pose(nj), frame(None), nj])
        for _ in range(3):      # within the tolerance, where the step to the goal is long
            p = self.pose(nj)
            k = self.choice([1e-6, 1e-5, 1e-4, 1e-2])
            u.append([p, p, frame({"M": FID["M"], "p": [self.choice([0.0, 0.8 * k, -0.8 * k]) for _ in range(3)]}), nj])
        self.shuffle(u)
        return u

    def limits(self, nj):
        w = self.random()
        if w < 0.4:
            return [[-4.0] * nj, [4.0] * nj]
        lo = [self.choice([-3.0, -1.0, 0.0, 0.5, -100.0]) for _ in range(nj)]
        return [lo, [x + self.choice([0.0, 0.5, 3.0, 200.0]) for x in lo]]


def c23(tier, seed):
    r = Iks(seed * 1000 + 230)
    out = []
    for i in range(n(tier, 90, 3000)):
        segs = r.arm(r.choice([0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 8]))
        nj = moving(segs)
        bad = [[r.pose(nj + 1), r.twist()], [r.pose(nj), r.twist()]]
        eps = r.choice([1e-5, 1e-5, 1e-3, 1e-2, 0.2])
        lam = r.choice([0.0, 0.0, 1e-3, 0.1, 1.0])
        mq, mx = r.weight(nj), r.weight(6)
        opt, w = r.pose(nj), [r.choice([1.0, 0.0, 0.5, r.pos()]) for _ in range(nj)]
        u = [op("c.new", "c", segs), op("c.pinv", "c", eps, nj, r.calls(nj, 6) + bad), op("c.givens", "c", nj, r.calls(nj, 8) + bad),
             op("c.nso", "c", eps, r.choice([0.25, 0.0, 1.0]), opt, w, r.random() < 0.5, nj, r.calls(nj, 5) + bad),
             op("c.wdls", "c", eps, lam, mq, mx, nj, r.calls(nj, 6) + bad)]
        u += [op("c.pinv", "c", eps, nj + 1, r.calls(nj, 1)), op("c.givens", "c", nj + 1, r.calls(nj, 1)), op("c.wdls", "c", eps, lam, mq, mx, nj + 1, r.calls(nj, 1)),
              op("c.nso", "c", eps, 0.25, opt, w, True, nj + 1, r.calls(nj, 1)), op("c.nso", "c", eps, 0.25, opt + [0.0], w, r.random() < 0.5, nj, r.calls(nj, 1)),
              op("c.nso", "c", eps, 0.25, opt, w + [1.0], r.random() < 0.5, nj, r.calls(nj, 1)),
              op("c.wdls", "c", eps, lam, r.weight(nj + 1), mx, nj, r.calls(nj, 1)), op("c.wdls", "c", eps, lam, mq, r.weight(7), nj, r.calls(nj, 1))]
        u.append(op("c.wdls", "c", eps, lam, mq, [[1.0] * 4] * 9, nj, r.calls(nj, 1)))
        u += [op("c.pinv", "c", 1e-5, nj, r.calls(nj, 3), 0), op("c.nso", "c", 1e-5, 0.25, opt, w, r.random() < 0.5, nj, r.calls(nj, 3), 0),
              op("c.wdls", "c", 1e-5, 0.0, r.eye(nj), r.eye(6), nj, r.calls(nj, 3), 0)]
        it = r.choice([1, 1, 2, 3, 5, 10])
        u += [op("c.pinv", "c", eps, nj, r.calls(nj, 3), it), op("c.nso", "c", eps, 0.25, opt, w, r.random() < 0.5, nj, r.calls(nj, 3), it),
              op("c.wdls", "c", eps, lam, mq, mx, nj, r.calls(nj, 3), it)]
        if nj == 4 or nj == 6:
            u.append(op("c.wdls", "c", eps, lam, [[1.0] * 8] * 2 if nj == 4 else [[1.0] * 9] * 4, mx, nj, r.calls(nj, 1)))
        if nj:
            u += [op("c.pinv", "c", eps, nj, [[r.pose(nj - 1), r.twist()]]), op("c.nso", "c", eps, 0.25, opt[1:], w, True, nj, r.calls(nj, 1))]
        out.append(u)
    return out


def c24(tier, seed):
    r = Iks(seed * 1000 + 240)
    out = []
    for i in range(n(tier, 60, 2000)):
        segs = r.arm(r.choice([0, 1, 2, 3, 4, 5, 6, 6, 6, 7, 8]))
        nj = moving(segs)
        f = lambda x: FID if x is None else x
        it = lambda: r.choice([1, 2, 10, 60, 100, 300])
        eps = lambda: r.choice([1e-6, 1e-5, 1e-4, 1e-2])
        vel = lambda: r.choice(["pinv", "pinv", "givens", "wdls", "nso"])
        lim = r.limits(nj)
        u = [op("c.new", "c", segs)]
        u.append(op("c.ikp", "c", "nr", vel(), [], it(), eps(), r.goal_calls(nj, f)))
        u.append(op("c.ikp", "c", "nr_jl", vel(), [], it(), eps(), r.goal_calls(nj, f)))
        u.append(op("c.ikp", "c", r.choice(["nr_jl", "nr_jl_set"]), vel(), lim, it(), eps(), r.goal_calls(nj, f)))
        u.append(op("c.ikp", "c", r.choice(["nr_jl", "nr_jl_set"]), vel(), [lim[0], lim[1] + [1.0]], it(), eps(), r.goal_calls(nj, f)[:3]))
        u.append(op("c.ikp", "c", r.choice(["nr_jl", "nr_jl_set"]), vel(), [[-1.0] + lim[0], lim[1]], it(), eps(), r.goal_calls(nj, f)[:3]))
        u.append(op("c.ikp", "c", "nr", vel(), [], 100, 1e-6, r.goal_calls(nj, f), True))
        u.append(op("c.ikp", "c", "nr_jl", vel(), r.choice([[], lim]), 100, 1e-6, r.goal_calls(nj, f), True))
        u.append(op("c.ikp", "c", r.choice(["nr", "nr_jl"]), "pinv1", [], it(), eps(), r.goal_calls(nj, f)[:5]))
        if nj == 0:
            out.append(u)
            continue        # Eigen has no decomposition of a matrix without columns
        u.append(op("c.ikp", "c", "lma", "pinv", [], r.choice([5, 60, 500]), eps(), r.goal_calls(nj, f)))
        u.append(op("c.ikp", "c", "lma", "pinv", [], 500, 1e-5, r.goal_calls(nj, f)[:12], True))
        u.append(op("c.ikp", "c", "lma_w", "pinv", [r.choice([1.0, 1.0, 0.1, 0.5, 2.0, 0.0]) for _ in range(6)], r.choice([5, 60, 500]), eps(), r.goal_calls(nj, f)))
        out.append(u)
    return out


def c25(tier, seed):
    r = Iks(seed * 1000 + 250)
    out = []
    for i in range(n(tier, 60, 2000)):
        pool = list(LETTERS[:12])
        r.shuffle(pool)
        ops, here = grow(r, "t", pool, r.choice([0, 1, 2, 3, 5, 7, 9]), ["root"])
        nj = moving([o["a"][1] for o in ops])
        ends = r.sample(here, min(len(here), r.choice([1, 1, 2, 2, 3])))
        tw = lambda names: [[x, r.twists()] for x in names]
        wq = [] if r.random() < 0.5 else r.weight(nj)
        wx = [] if r.random() < 0.5 else r.weight(6 * len(ends))
        if wx:
            ends.sort()
        lam = lambda: r.choice([0.0, 0.0, 0.0, 1e-3, 0.1, 1.0])
        u = [op("t.new", "t", "root")] + ops
        wrong = [[r.pose(nj + 1), tw(ends)], [r.pose(nj), tw(ends) + tw(["nowhere"])], [r.pose(nj), tw(ends[1:])], [r.pose(nj), tw(ends)]]
        u.append(op("t.wdls", "t", ends, lam(), wq, wx, nj, [[r.pose(nj) if r.random() < 0.5 else r.qs(nj), tw(ends)] for _ in range(6)] + wrong))
        u.append(op("t.wdlsset", "t", ends, r.pos(), wq, wx))
        u.append(op("t.wdls", "t", ends + ["nowhere"], lam(), [], [], nj, [[r.pose(nj), tw(ends + ["nowhere"])]]))

        def goals(x):
            names = ends if r.random() < 0.7 else r.sample(ends, r.randrange(len(ends) + 1))
            if r.random() < 0.05:
                names = names + ["nowhere"]
            return [[e, FID if x is None else x] for e in names]
        lim = r.limits(nj)
        free = [[-9.0] * nj, [9.0] * nj]
        for l in (free, lim):
            u.append(op("t.ikp", "t", ends, l[0], l[1], r.choice([1, 10, 60, 100]), r.choice([1e-5, 1e-4, 1e-2]), r.choice([0.0, 0.0, 0.01]), r.goal_calls(nj, goals)))
            v = [r.choice([0.01, 0.1, 1.0, 50.0]) for _ in range(nj)]
            u.append(op("t.online", "t", ends, l[0], l[1], v, r.choice([0.1, 1.0, 50.0]), r.choice([0.1, 1.0, 50.0]), lam(), r.goal_calls(nj, goals)))
        u.append(op("t.ikp", "t", ends, free[0], free[1], 100, 1e-6, 0.0, r.goal_calls(nj, goals)[:12], True))
        u.append(op("t.ikp", "t", ends, free[0] + [0.0], free[1], 10, 1e-4, 0.0, r.goal_calls(nj, goals)[:3]))
        u.append(op("t.online", "t", ends, free[0], free[1] + [0.0], [1.0] * nj, 1.0, 1.0, 0.0, r.goal_calls(nj, goals)[:3]))
        u.append(op("t.online", "t", ends, free[0], free[1], [1.0] * (nj + 1), 1.0, 1.0, 0.0, r.goal_calls(nj, goals)[:3]))
        out.append(u)
    return out
