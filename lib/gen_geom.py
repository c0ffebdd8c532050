"""Scripts for vectors, rotations, frames, twists, wrenches, the plane, differences and equality."""
import copy
import math
from rnd import ANGLES, CUBE, I3, PI, Rnd, about, mm, op


def n(tier, quick, thorough):
    return thorough if tier == "thorough" else quick


def c01(tier, seed):
    r = Rnd(seed * 1000 + 1)
    out = []
    for q in ANGLES + [r.angle() for _ in range(n(tier, 40, 2000))]:
        out.append([op("m.rotx", q), op("m.roty", q), op("m.rotz", q), op("m.dorot", r.rot(), q),
                    op("m.rot", r.axis(), q), op("m.rot2", r.unit(), q), op("m.rotvec", [x * q for x in r.unit()])])
    for v in ([0.0, 0.0, 0.0], [1e-8, 0.0, 0.0], [0.0, -1e-8, 0.0], [1e-9, 1e-9, 1e-9]):
        out.append([op("m.rot", v, r.angle()), op("m.rotvec", v)])
    for e in (1e-3, 1e-5, 2e-6, 1e-7, 1e-8, 1e-9):
        out.append([op("m.rotvec", [x * e for x in r.unit()]) for _ in range(3)] + [op("m.rotvec", [e, 0.0, 0.0]), op("m.rotvec", [0.0, e, 0.0])])
    for _ in range(n(tier, 120, 5000)):
        m, k = r.rot(), r.rot()
        out.append([op("m.mul", m, k), op("m.selfmul", m), op("m.apply", m, r.vec(), r.twist(), r.wrench()),
                    op("m.inverse", m, r.vec(), r.twist(), r.wrench()), op("m.columns", m)])
    return out


def special_rots(r):
    out = [copy.deepcopy(m) for m in CUBE]
    for a in (0.0, PI / 4, PI / 2, PI, -PI / 2, -2.0):
        for b in (0.0, PI / 2, -PI / 2, PI, PI / 3, PI / 2 - 1e-4, 1e-5 - PI / 2, 1e-5):
            for g in (0.0, 0.7, -PI / 2, PI):
                out.append(mm(about([0, 0, 1], a), mm(about([0, 1, 0], b), about([1, 0, 0], g))))
                out.append(mm(about([0, 0, 1], a), mm(about([0, 1, 0], b), about([0, 0, 1], g))))
    for u in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [0.6, 0.8, 0.0], [0.6, -0.8, 0.0], [0.0, -0.6, 0.8], [0.8, 0.0, -0.6]):
        for q in (PI, -PI, PI - 1e-9, PI - 1e-3, -PI + 1e-3, PI - 1e-5, -PI + 2e-5, 1e-9, 5e-6, 1e-5, 1e-4, 1e-3, PI / 2, 2 * PI / 3):
            out.append(about(u, q))
    for _ in range(12):
        out.append(about(r.unit(), PI))
        out.append(about(r.unit(), PI - r.choice([1e-3, 1e-2])))
    return out


def c02(tier, seed):
    r = Rnd(seed * 1000 + 2)
    out = []
    rots = special_rots(r) + [r.rot() for _ in range(n(tier, 300, 6000))]
    for m in rots:
        out.append([op("m.getrpy", m), op("m.getzyx", m), op("m.getzyz", m), op("m.getquat", m), op("m.getrot", m),
                    op("m.getrotangle", m, r.choice([1e-6, 1e-6, 1e-4, 1e-9]))])
    for _ in range(n(tier, 100, 3000)):
        q = [r.gauss(0, 1) for _ in range(4)]
        k = math.sqrt(sum(x * x for x in q))
        out.append([op("m.rpy", r.angle(), r.angle(), r.angle()), op("m.zyx", r.angle(), r.angle(), r.angle()),
                    op("m.zyz", r.angle(), r.angle(), r.angle()), op("m.quat", *[x / k for x in q])])
    return out


def c03(tier, seed):
    r = Rnd(seed * 1000 + 3)
    out = []
    for _ in range(n(tier, 100, 4000)):
        v, w = r.vec(), r.vec()
        out.append([op("v.add", v, w), op("v.sub", v, w), op("v.muls", v, r.real()), op("v.divs", v, r.nz()), op("v.neg", v),
                    op("v.cross", v, w), op("v.dot", v, w), op("v.iadd", v, w), op("v.isub", v, w), op("v.selfops", v, w),
                    op("v.norm", v, 1e-6), op("v.normalize", v, 1e-6), op("v.comp", v)])
        f = r.frame()
        t, u = r.twist(), r.twist()
        x, y = r.wrench(), r.wrench()
        out.append([op("f.make", r.rot(), v), op("f.mul", f, r.frame()), op("f.selfmul", f), op("f.apply", f, v, t, x),
                    op("f.inverse", f, v, t, x), op("f.dh", r.real(), r.angle(), r.real(), r.angle())])
        out.append([op("t.lin", t, u, r.nz()), op("w.lin", x, y, r.nz()), op("t.cross", t, u), op("t.crossw", t, x), op("t.dot", t, x),
                    op("t.refpoint", t, v), op("w.refpoint", x, v), op("t.comp", t, x),
                    op("stiff", [r.pos() for _ in range(6)], [r.pos() for _ in range(6)], t, x)])
    for s in (1e-12, 1e-7, 3e-7, 1e-5, 1e-3, 1e6, 1e100, 1e200):
        for v in ([s, 0.0, 0.0], [0.0, s, 0.0], [0.0, 0.0, -s], [s, s / 2, -s / 3], [s / 3, s, s / 2], [-s / 2, s / 3, s], [s, s, s], [-s, s, 0.0]):
            for e in (1e-6, 1e-10, 1e-3):
                out.append([op("v.norm", v, e), op("v.normalize", v, e)] if s < 1e100 else [op("v.norm", v, e)])
    out.append([op("v.norm", [0.0, 0.0, 0.0], 1e-6), op("v.normalize", [0.0, 0.0, 0.0], 1e-6)])
    out.append([op("random", k) for k in range(1, n(tier, 6, 60))])
    return out


def c04(tier, seed):
    r = Rnd(seed * 1000 + 4)
    out = []
    dts = [1.0, 1.0, 0.5, 0.01, 2.0, -1.0]
    for _ in range(n(tier, 150, 5000)):
        dt = r.choice(dts)
        m = r.rot()
        k = mm(about(r.unit(), r.choice([r.angle(), r.angle(), PI, PI - 1e-3, PI - 2e-5, 1e-3, 1e-4, 3e-5, 4e-6, 1e-8, 0.0])), m)
        f, g = {"M": m, "p": r.vec()}, {"M": k, "p": r.vec()}
        out.append([op("diff.v", r.vec(), r.vec(), dt), op("diff.m", m, k, dt), op("diff.f", f, g, dt), op("diff.t", r.twist(), r.twist(), dt),
                    op("diff.w", r.wrench(), r.wrench(), dt), op("add.v", r.vec(), r.vec(), dt), op("add.m", m, r.vec(), dt),
                    op("add.f", f, r.twist(), dt), op("add.t", r.twist(), r.twist(), dt), op("add.w", r.wrench(), r.wrench(), dt),
                    op("f.integrate", f, r.twist(), r.choice([1.0, 10.0, 100.0, 1000.0]))])
    for e in (1e-3, 1e-5, 1e-7, 1e-8, 1e-9):
        for v in ([e, 0.0, 0.0], [0.0, e, 0.0], [0.0, 0.0, e], [e, e, -e]):
            out.append([op("add.m", r.rot(), v, 1.0), op("add.m", r.rot(), [x * 100 for x in v], 0.01), op("add.f", r.frame(), {"vel": r.vec(), "rot": v}, 1.0),
                        op("f.integrate", r.frame(), {"vel": r.vec(), "rot": v}, 1.0)])
    for m in CUBE:
        for k in CUBE[::1 if tier == "thorough" else 5]:
            out.append([op("diff.m", m, k, 1.0)])
    return out


def c05(tier, seed):
    r = Rnd(seed * 1000 + 5)
    out = []
    for q in ANGLES + [r.angle() for _ in range(n(tier, 100, 3000))]:
        f, g = r.frame2(), r.frame2()
        h = {"th": f["th"] + r.choice([0.0, 1e-8, 1e-4, 2 * PI]), "p": [f["p"][0] + r.choice([0.0, 1e-8, 1e-3]), f["p"][1] + r.choice([0.0, 0.0, -1e-3])]}
        v = r.vec2()
        w = [v[0] + r.choice([0.0, 1e-8, 1e-3]), v[1] + r.choice([0.0, 0.0, -1e-3])]
        out.append([op("p.rot", q), op("p.rotmul", q, r.angle(), v), op("p.vec", v, r.vec2(), r.nz()), op("p.norm", v if abs(v[0]) + abs(v[1]) > 1e-3 else [1.0, 2.0]),
                    op("p.from3d", r.vec(), r.frame()), op("v.from2d", v, r.frame()), op("p.frame", f, g, v),
                    op("p.eq", v, w, r.choice([1e-6, 1e-2, 1e-10]), f, h)])
    out.append([op("p.norm", v) for v in ([0.0, 0.0], [1.0, 0.0], [0.0, -1.0], [3.0, -4.0], [-4.0, 3.0], [1e-3, 0.0], [0.0, 1e-4], [1e4, 1.0])])
    return out


def near(r, x, eps):
    """x with some of its reals moved, by less or more than eps."""
    y = copy.deepcopy(x)
    leaves = []

    def walk(z):
        for k in (range(len(z)) if isinstance(z, list) else z):
            if isinstance(z[k], float):
                leaves.append((z, k))
            else:
                walk(z[k])
    walk(y)
    kind = r.random()
    if kind < 0.25:
        return y
    some = [r.choice(leaves)] if kind < 0.8 else leaves
    scale = r.choice([0.5, 0.9, 1.1, 2.0, 10.0, 1e-3])
    for z, k in some:
        z[k] += r.choice([-1, 1]) * eps * scale
    return y


def c09(tier, seed):
    r = Rnd(seed * 1000 + 9)
    out = []
    for _ in range(n(tier, 300, 6000)):
        u = []
        for name, make in (("eq.v", r.vec), ("eq.m", r.rot), ("eq.f", r.frame), ("eq.t", r.twist), ("eq.w", r.wrench)):
            x = make()
            e = r.choice([1e-6, 1e-6, 1e-3, 1e-9, 0.5])
            u.append(op(name, x, near(r, x, r.choice([e, 1e-6])), e))
        out.append(u)
    for name, x in (("eq.v", [0.0, 1.0, -0.0]), ("eq.t", {"vel": [0.0, 0.0, 1.0], "rot": [0.0, 0.0, 0.0]})):
        y = copy.deepcopy(x)
        if isinstance(y, list):
            y = [-0.0, 1.0, 0.0]
        else:
            y["rot"] = [-0.0, 0.0, -0.0]
        out.append([op(name, x, y, 1e-6)])
    return out
