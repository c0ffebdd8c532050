"""Scripts for the Python bindings."""
import copy
from gen_dual import Jets
from gen_geom import n
from gen_life import Lives, joints
from gen_mech import KINDS, LETTERS, MOVING, grow, moving
from rnd import FID, PI, op

V, W, T, M, F, D, I = "Vector", "Wrench", "Twist", "Rotation", "Frame", "double", "int"
DV, VV, TV, MV, FV = "doubleVel", "VectorVel", "TwistVel", "RotationVel", "FrameVel"
JA, JV, JA6, MASS, RI, BI = "JntArray", "JntArrayVel", "Jacobian", "JntSpaceInertiaMatrix", "RotationalInertia", "RigidBodyInertia"
GEOM = [V, W, T, M, F, DV, VV, TV, MV, FV]
ALL = GEOM + [JA, JV, JA6, MASS, RI, BI]
ODD = [D, I, "str", "None", "tuple", "list"]
SCALED = [V, W, T, VV, TV]
PLUS = [(t, t) for t in (V, W, T, VV, TV, RI, BI)] + [(V, VV), (VV, V)]
MINUS = [(t, t) for t in SCALED] + [(V, VV), (VV, V)]
TIMES = ([(t, D) for t in SCALED] + [(D, t) for t in SCALED + [RI, BI]] + [(t, DV) for t in (VV, TV)] + [(DV, t) for t in (VV, TV)]
         + [(V, V), (VV, VV), (V, VV), (VV, V)] + [(M, t) for t in (V, T, W, M, VV, MV, BI)] + [(F, t) for t in (V, T, W, F, FV, BI)]
         + [(MV, t) for t in (VV, V, TV, T, MV, M)] + [(FV, t) for t in (VV, V, TV, T, FV, F)] + [(RI, V), (BI, T)])
OVER = [(t, D) for t in SCALED] + [(t, DV) for t in (VV, TV)]
MIXED = [(V, VV), (VV, V), (T, TV), (TV, T), (M, MV), (MV, M), (F, FV), (FV, F)]
SAME = [(t, t) for t in GEOM + [JA, MASS]] + MIXED
PARTS = {T: {"vel": V, "rot": V}, W: {"force": V, "torque": V}, F: {"M": M, "p": V}, VV: {"p": V, "v": V}, TV: {"vel": VV, "rot": VV},
         MV: {"R": M, "w": V}, FV: {"M": MV, "p": VV}, JV: {"q": JA, "qdot": JA}, DV: {"t": D, "grad": D}}
LISTED = {V: 3, T: 6, W: 6, RI: 9}
BACK = [(M, t) for t in (V, W, T)] + [(F, t) for t in (V, W, T)] + [(MV, t) for t in (VV, V, TV, T)] + [(FV, t) for t in (VV, V, TV, T)]
NEW = ([("Vector", (), ()), ("Vector", (D, D, D), ("x", "y", "z")), ("Vector", (V,), ()), ("Rotation", (), ()), ("Rotation", (D,) * 9, ("xx", "yx", "zx", "xy", "yy", "zy", "xz", "yz", "zz")),
        ("Rotation", (V, V, V), ("x", "y", "z")), ("Rotation", (M,), ()), ("Frame", (), ()), ("Frame", (M, V), ("R", "V")), ("Frame", (V,), ()), ("Frame", (M,), ()), ("Frame", (F,), ()),
        ("Twist", (), ()), ("Twist", (V, V), ("vel", "rot")), ("Twist", (T,), ()), ("Wrench", (), ()), ("Wrench", (V, V), ("force", "torque")), ("Wrench", (W,), ()),
        ("doubleVel", (), ()), ("doubleVel", (D,), ()), ("doubleVel", (D, D), ()), ("doubleVel", (DV,), ()), ("VectorVel", (), ()), ("VectorVel", (V,), ("p",)),
        ("VectorVel", (V, V), ("p", "v")), ("VectorVel", (VV,), ()), ("TwistVel", (), ()), ("TwistVel", (VV, VV), ("vel", "rot")), ("TwistVel", (T, T), ("p", "v")), ("TwistVel", (T,), ("p",)),
        ("TwistVel", (TV,), ()), ("RotationVel", (), ()), ("RotationVel", (M,), ("R",)), ("RotationVel", (M, V), ("R", "w")), ("RotationVel", (MV,), ()),
        ("FrameVel", (), ()), ("FrameVel", (F,), ("T",)), ("FrameVel", (F, T), ("T", "t")), ("FrameVel", (MV, VV), ("M", "p")), ("FrameVel", (FV,), ()),
        ("JntArray", (), ()), ("JntArray", ("size",), ("size",)), ("JntArray", (JA,), ()), ("Jacobian", (), ()), ("Jacobian", ("size",), ("nr_columns",)), ("Jacobian", (JA6,), ()),
        ("JntArrayVel", ("size",), ("size",)), ("JntArrayVel", (JA,), ()), ("JntArrayVel", (JA, JA), ("q", "q_dot")), ("JntSpaceInertiaMatrix", (), ()),
        ("JntSpaceInertiaMatrix", ("size",), ()), ("JntSpaceInertiaMatrix", (MASS,), ()), ("RotationalInertia", (), ())]
       + [("RotationalInertia", (D,) * k, ("Ixx", "Iyy", "Izz", "Ixy", "Ixz", "Iyz")[:k]) for k in range(1, 7)]
       + [("RigidBodyInertia", (), ()), ("RigidBodyInertia", (D,), ("m",)), ("RigidBodyInertia", (D, V), ("m", "oc")), ("RigidBodyInertia", (D, V, RI), ("m", "oc", "Ic"))])
TURNS = ([("static %s.%s" % (t, f), (D if t == M else DV,), ("angle",)) for t in (M, MV) for f in ("RotX", "RotY", "RotZ")]
         + [("static %s.%s" % (t, f), ("axis" if f == "Rot" else "unit", D if t == M else DV), ("rotvec", "angle")) for t in (M, MV) for f in ("Rot", "Rot2")]
         + [("static Rotation.RPY", (D, D, D), ("roll", "pitch", "yaw")), ("static Rotation.EulerZYX", (D, D, D), ("alpha", "beta", "gamma")),
            ("static Rotation.EulerZYZ", (D, D, D), ("alpha", "beta", "gamma")), ("static Rotation.Quaternion", "quat", ("x", "y", "z", "w")),
            ("static Frame.DH", (D, D, D, D), ("a", "alpha", "d", "theta")), ("static Frame.DH_Craig1989", (D, D, D, D), ("a", "alpha", "d", "theta"))]
         + [("static %s.%s" % (t, z), (), ()) for t, z in ((V, "Zero"), (W, "Zero"), (T, "Zero"), (M, "Identity"), (F, "Identity"), (VV, "Zero"), (TV, "Zero"), (MV, "Identity"), (FV, "Identity"))])
METHODS = ([(".DoRot" + x, p, ("angle",)) for x in "XYZ" for p in ((M, D), (MV, DV))] + [(".Unit" + x, p, ()) for x in "XYZ" for p in ((M,), (MV,))]
           + [(".Unit" + x, (M, V), ("vec",)) for x in "XYZ"] + [(".SetInverse", (M,), ())] + [(".Inverse", (t,), ()) for t in (M, F, MV, FV)] + [(".Inverse", p, ()) for p in BACK]
           + [(f, (M,), ()) for f in (".GetRot", ".GetRotAngle", ".GetRPY", ".GetEulerZYX", ".GetEulerZYZ", ".GetQuaternion")] + [(".GetRotAngle", (M, "small"), ("eps",))]
           + [(".Integrate", (F, T, "freq"), ("twist", "sample_frequency"))] + [("." + x, (V,), ()) for x in "xyz"] + [("." + x, (V, D), ("value",)) for x in "xyz"]
           + [(".ReverseSign", (t,), ()) for t in (V, W, T, VV, TV)] + [(".Norm", (V,), ()), (".Norm", (V, "eps"), ("eps",)), (".Norm", ("long",), ()), (".Normalize", (V,), ()), (".Normalize", (V, "eps"), ("eps",))]
           + [(".RefPoint", p, ("base",)) for p in ((T, V), (TV, VV), (W, V))] + [(".RefPoint", (BI, V), ("p",))]
           + [(f, (t,), ()) for f in (".value", ".deriv") for t in (DV, VV, TV, MV, FV, JV)] + [(".GetFrame", (FV,), ()), (".GetTwist", (FV,), ()), (".GetTwist", (TV,), ()), (".GetTwistDot", (TV,), ())]
           + [(f, (BI,), ()) for f in (".getMass", ".getCOG", ".getRotationalInertia")] + [(f, (t,), ()) for f in (".rows", ".columns") for t in (JA, JA6, MASS)]
           + [(".resize", (JA, "size"), ("size",)), (".resize", (JV, "size"), ("size",)), (".resize", (JA6, "size"), ("nr_columns",)), (".resize", (MASS, "size"), ("new_size",))]
           + [(".getColumn", (JA6, "index"), ("index",)), (".setColumn", (JA6, "index", T), ("index", "t")), (".changeRefPoint", (JA6, V), ("base",)), (".changeBase", (JA6, M), ("rot",)),
              (".changeRefFrame", (JA6, F), ("frame",))])
FUNS = ([("fn SetToZero", (t,), ()) for t in (V, W, T, VV, TV, JA, JV, JA6, MASS)] + [("fn dot", p, ()) for p in ((V, V), (VV, VV), (VV, V), (V, VV), (T, W), (W, T))]
        + [("fn Equal", p + e, ()) for p in SAME + [(JV, JV)] for e in ((), ("eps",))]
        + [("fn diff", (t, t) + e, ("a", "b") + (("dt",) if e else ())) for t in (V, M, F, T, W, DV, VV, MV, FV) for e in ((), ("dt",))]
        + [("fn addDelta", p + e, ("a", "da") + (("dt",) if e else ())) for p in ((V, V), (M, V), (F, T), (T, T), (W, W), (DV, DV), (VV, VV), (MV, VV), (FV, TV)) for e in ((), ("dt",))]
        + [(f, p, ("src1", "src2", "dest")) for f in ("fn Add", "fn Subtract") for p in ((JA, JA, JA), (JV, JV, JV), (JV, JA, JV), (MASS, MASS, MASS))]
        + [(f, p, ()) for f in ("fn Multiply", "fn Divide") for p in ((JA, "nz", JA), (JV, "nz", JV), (JV, "nzj", JV), (MASS, "nz", MASS))] + [("fn Multiply", (MASS, JA, JA), ("src", "vec", "dest"))]
        + [("fn MultiplyJacobian", (JA6, JA, T), ())] + [("fn changeRefPoint", (JA6, V, JA6), ()), ("fn changeBase", (JA6, M, JA6), ()), ("fn changeRefFrame", (JA6, F, JA6), ())])
SIGNED = ([("+", p, ()) for p in PLUS] + [("-", p, ()) for p in MINUS] + [("+=", p, ()) for p in PLUS] + [("-=", p, ()) for p in MINUS] + [(f, p, ()) for f in ("*", "*=") for p in TIMES]
          + [(f, (t, "nz" if d == D else "nzj"), ()) for f in ("/", "/=") for t, d in OVER] + [("neg", (t,), ()) for t in (V, W, T, DV, VV, TV)]
          + [(f, p, ()) for f in ("==", "!=") for p in SAME])
OTHER = ([(f, (t,), ()) for f in ("copy", "deepcopy") for t in GEOM] + [("pickle", (t,), ()) for t in GEOM if t != DV] + [("list", (t,), ()) for t in (V, T, W, RI, JA)]
         + [("repr", (t,), ()) for t in [x for x in GEOM if x != DV] + [JA, JA6, MASS]] + [("field " + f, (t,), ()) for t in PARTS for f in PARTS[t]]
         + [("setfield " + f, (t, p), ()) for t in PARTS for f, p in PARTS[t].items()])
BOUND = [("new " + t, p, k) for t, p, k in NEW] + TURNS + METHODS + FUNS + SIGNED + OTHER


class Pythons(Jets, Lives):
    def value(self, t, size=None):
        s = self.randrange(0, 6) if size is None else size
        if t == "size":
            return {"t": I, "v": self.choice([0, 1, 2, 3, 5, 8])}
        if t == "index":
            return {"t": I, "v": self.choice([0, s - 1, s, s + 1, s + 40, -1, -2, 1000000, -1000000, 2147483647])}
        if t == "eps":
            return {"t": D, "v": self.choice([1e-6, 1e-3, 0.5, 0.0])}
        if t == "small":
            return {"t": D, "v": self.choice([1e-6, 1e-5])}
        if t == "dt":
            return {"t": D, "v": self.choice([1.0, 0.5, 0.01, 2.0])}
        if t == "freq":
            return {"t": D, "v": self.choice([1.0, 10.0, 250.0, 0.5])}
        if t == "nz":
            return {"t": D, "v": self.nz()} if self.random() < 0.8 else {"t": I, "v": self.choice([1, 2, -3, 7])}
        if t == "nzj":
            return {"t": DV, "v": self.nzj()}
        if t == "axis":
            return {"t": V, "v": self.axis()}
        if t == "unit":
            return {"t": V, "v": self.unit()}
        if t == "long":
            return {"t": VV, "v": self.v1()}
        if t == D and self.random() < 0.1:
            return {"t": I, "v": self.randrange(-4, 5)}
        if t in ("tuple", "list"):
            return {"t": t, "v": [self.value(self.choice([D, I])) for _ in range(self.randrange(0, 4))]}
        f = {D: self.real, I: lambda: self.randrange(-3, 9), "str": lambda: self.choice(["", "1", "x"]), "None": lambda: "", V: self.vec, W: self.wrench, T: self.twist, M: self.rot, F: self.frame,
             DV: self.num, VV: self.vecj, TV: self.twistj, MV: self.rotj, FV: self.framej, JA: lambda: self.vs(s), JV: lambda: [self.vs(s), self.vs(s)],
             JA6: lambda: [self.twist() for _ in range(s)], MASS: lambda: [self.vs(s) for _ in range(s)], RI: self.symmetric,
             BI: lambda: dict(self.body(), **({"c": [0.0] * 3} if self.random() < 0.2 else {}))}[t]
        return {"t": t, "v": f()}

    def symmetric(self):
        a, b, c, d, e, f = self.vs(6)
        return [a, d, e, d, b, f, e, f, c]

    def close(self, x):
        """the same value, or one a little off"""
        y = copy.deepcopy(x)
        w = self.random()
        if w < 0.5:
            return y
        d = self.choice([1e-12, 0.9e-6, 1.1e-6, 1e-3, 0.4, 1.0])

        def shift(v):
            if isinstance(v, list):
                if v:
                    k = self.randrange(len(v))
                    v[k] = shift(v[k])
                return v
            if isinstance(v, dict):
                k = self.choice(sorted(v))
                v[k] = shift(v[k])
                return v
            return v + self.choice([-1, 1]) * d
        if x["t"] not in (M, F, MV, FV):
            y["v"] = shift(y["v"])
        elif "Vel" in x["t"] or x["t"] == F:
            k = "w" if x["t"] == MV else "p"
            y["v"][k] = shift(y["v"][k])
        return y

    def args(self, f, types):
        if types == "quat":
            q = [self.gauss(0, 1) for _ in range(4)]
            s = sum(x * x for x in q) ** 0.5
            return [{"t": D, "v": x / s} for x in q]
        size = self.randrange(0, 6)
        x = [self.value(t, size) for t in types]
        if f in ("==", "!=", "fn Equal", "hash") and self.random() < 0.8 and x[0]["t"] == x[1]["t"]:
            x[1] = self.close(x[0])
        if f.startswith("setfield q") and self.random() < 0.3:
            x[1] = self.value(JA)
        if f in ("fn Add", "fn Subtract", "fn Multiply", "fn Divide") or f.startswith("fn change"):
            k = self.random()
            if k < 0.4 and len(x) == 3:     # the result over an argument
                c = [i for i in (0, 1) if x[i]["t"] == x[2]["t"]]
                if c:
                    x[2] = {"t": "ref", "v": self.choice(c)}
            elif k < 0.6 and f.startswith("fn change"):
                x[2] = self.value(JA6)
        elif len(x) == 2 and types[0] == types[1] and not f.startswith("new") and self.random() < 0.25 and f not in ("get", "set"):
            x[1] = {"t": "ref", "v": 0}
        return x

    def call(self, f, types, names=()):
        return op("py.call", f, self.args(f, types), list(names) if names and self.random() < 0.4 else [])

    def wrong(self):
        """a call that is not there"""
        w = self.random()
        if w < 0.35:
            f = self.choice(["+", "-", "*", "/", "+=", "-=", "*=", "/="])
            t = [self.choice(ALL + [D]), self.choice(ALL + ODD)]
            if t[0] == D:
                t[1] = self.choice(ALL)
            if (f[0] == "/" and t[1] in (D, I, DV)) or "ref" in t:
                t[1] = "nz" if t[1] != DV else "nzj"
            return op("py.call", f, [self.value(x, 2) for x in t], [])
        if w < 0.45:
            f, t = self.choice(["==", "!="]), [self.choice([x for x in ALL]), self.choice(GEOM + ODD)]
            return op("py.call", f, [self.value(x, 2) for x in t], [])
        f, t, _ = self.choice([b for b in BOUND if b[1] and b[1] != "quat" and b[0] not in SIGNS])
        t = list(t)
        k = self.random()
        if k < 0.6:
            i = self.randrange(len(t))
            if f.startswith(".") or f.startswith("field") or f.startswith("setfield"):
                i = self.choice(range(len(t)))
            t[i] = self.choice([x for x in ALL + ["str", "None", "tuple"] if x != t[i]])
        elif k < 0.8 and len(t) > 1 and not f.startswith("setfield"):
            del t[-1]
        elif not f.startswith("setfield") and not f.startswith("field"):
            t.append(self.choice(ALL + ["str", "None"]))
        if f in ("copy", "deepcopy", "pickle", "list", "repr") or f.startswith("field"):
            t = t[:1]
            if t[0] not in ALL or f == "repr":
                t = [self.choice(GEOM[:5])]
        return op("py.call", f, [self.value(x, 3) for x in t], [])

    def indexed(self):
        t = self.choice([V, T, W, RI, JA, M, F, JA6, MASS])
        s = self.randrange(0, 5)
        x = self.value(t, s)
        k = {V: 3, T: 6, W: 6, RI: 9, JA: s}.get(t)
        if k is not None:
            i = {"t": I, "v": self.choice([0, k - 1, k, k + 1, -1, -k, 7, 1000000, -1000000, 2147483647, -2147483648] + list(range(k)))}
            if self.random() < 0.1:
                i = self.value(self.choice([D, "str", "None", "tuple", V]))
        else:
            r, c = {M: (3, 3), F: (3, 4), JA6: (6, s), MASS: (s, s)}[t]
            e = lambda m: {"t": I, "v": self.choice([0, m - 1, m, -1, m + 3, 1000000, -1000000, 2147483647] + list(range(m)) * 2)}
            i = {"t": "tuple", "v": [e(r), e(c)]}
            if self.random() < 0.1:
                i = self.choice([self.value(self.choice([D, "str", "None", V])), e(r), {"t": "tuple", "v": [e(r)]}, {"t": "tuple", "v": [e(r), e(c), e(c)]},
                                 {"t": "tuple", "v": [e(r), self.value("str")]}])
        if self.random() < 0.5:
            return op("py.call", "get", [x, i], [])
        return op("py.call", "set", [x, i, self.value(D) if self.random() < 0.9 else self.value(self.choice(["str", "None", V]))], [])

    def each_index(self):
        """every index in and just out of range, of every type which has elements, read and written"""
        out, e = [], lambda v: {"t": I, "v": v}
        for t, sizes in ((V, [3]), (T, [6]), (W, [6]), (RI, [9]), (JA, [0, 1, 4]), (M, [3]), (F, [3]), (JA6, [0, 1, 3, 7]), (MASS, [0, 1, 3])):
            for s in sizes:
                if t in (M, F, JA6, MASS):
                    r, c = {M: (3, 3), F: (3, 4), JA6: (6, s), MASS: (s, s)}[t]
                    ix = [{"t": "tuple", "v": [e(i), e(j)]} for i in range(-1, r + 2) for j in range(-1, c + 2)
                          if c < 5 or i in (-1, 0, r - 1, r) and j in (-1, 0, c - 1, c, c + 1)]
                else:
                    ix = [e(i) for i in range(-2, s + 2)]
                for i in ix:
                    out.append(op("py.call", "get", [self.value(t, s), i], []))
                    out.append(op("py.call", "set", [self.value(t, s), i, {"t": D, "v": self.real()}], []))
        for s in (0, 1, 3, 6):
            for i in range(-1, s + 2):
                out.append(op("py.call", ".getColumn", [self.value(JA6, s), e(i)], []))
                out.append(op("py.call", ".setColumn", [self.value(JA6, s), e(i), self.value(T)], []))
        return [out[k:k + 20] for k in range(0, len(out), 20)]

    # ---------------------------------------------------------------------------------------------------------------
    def variables(self):
        """objects, their parts and copies, under several names"""
        start = [T, W, F, VV, TV, MV, FV, JV, V, M, DV]
        types, sizes, out = {}, self.randrange(1, 4), []
        turns = True                                      # every rotation is still one
        fresh = lambda: self.choice("abcdefgh")

        def bind(o, name, t):
            out.append(o)
            types[name] = t
        for name in "ab"[:self.randrange(1, 3)]:
            t = self.choice(start)
            bind(op("py.v.new", name, self.value(t, sizes)), name, t)
        for _ in range(self.randrange(6, 22)):
            if not types:
                break
            x = self.choice(sorted(types))
            t, w, y = types[x], self.random(), fresh()
            if w < 0.08:
                t = self.choice(start)
                bind(op("py.v.new", y, self.value(t, sizes)), y, t)
            elif w < 0.36 and t in PARTS:
                f = self.choice(sorted(PARTS[t]))
                bind(op("py.v.ref", y, x, f), y, PARTS[t][f])
            elif w < 0.42:
                bind(op("py.v.alias", y, x), y, t)
            elif w < 0.5 and t in GEOM:
                bind(op("py.v.copy", y, x, self.choice(["copy", "deepcopy", "new"] + (["pickle"] if t != DV and turns else []))), y, t)
            elif w < 0.62 and t in (V, T, W, JA, M, F):
                if t in (M, F):
                    turns = False
                    i = {"t": "tuple", "v": [{"t": I, "v": self.randrange(3)}, {"t": I, "v": self.randrange(3 if t == M else 4)}]}
                else:
                    i = {"t": I, "v": self.randrange({V: 3, T: 6, W: 6, JA: sizes}[t])}
                out.append(op("py.v.set", x, i, self.real()))
            elif w < 0.74 and t in PARTS:
                f = self.choice(sorted(PARTS[t]))
                c = [z for z in sorted(types) if types[z] == PARTS[t][f]]
                if c:
                    out.append(op("py.v.put", x, f, self.choice(c)))
            elif w < 0.84:
                c = [z for z in sorted(types) if (t, types[z]) in MINUS]
                if c:
                    z = self.choice(c)
                    out.append(op(self.choice(["py.v.iadd", "py.v.isub"]), x, z))
                    if types[z] != t:
                        types[x] = VV
            elif w < 0.88 and t in SCALED:
                out.append(op("py.v.flip", x))
            elif w < 0.91 and t in SCALED + [JA, JV]:
                out.append(op("py.v.zero", x))
            elif len(types) > 1:
                out.append(op("py.v.del", x))
                del types[x]
        return out

    def chains(self):
        segs = self.chain(self.randrange(0, 4), 0.3)
        u = [op("py.c.new", "c", segs), op("py.c.copy", "d", "c"), op("py.c.add", "c", self.segment("x", plain=0.3)), op("py.c.look", "d"), op("py.c.addchain", "d", "c"),
             op("py.c.add", "d", self.segment("y", plain=0.3))]
        u.append(op("py.c.addchain", "c", "c") if self.random() < 0.3 else op("py.c.addchain", "c", "d"))
        u += [op("py.c.look", "d"), op("py.c.drop", "d"), op("py.c.look", "c")]
        k = len(segs) + 1
        u += [op("py.c.segment", "c", i) for i in (0, k - 1, k, 2 * k, 5 * k + 9, -1, 1000000, 2147483647, -2147483647)]
        return u

    def parts(self):
        k = self.choice(KINDS)
        return [op("py.joint", self.joint(k, 0.2), how, self.real(), self.real(), self.frame()) for how in ("named", "keywords", "unnamed", "scale", "copy", "name", "default")] \
            + [op("py.segment", self.segment("s", self.choice(KINDS), 0.2), self.body())]

    def trees(self):
        pool = list(LETTERS[:12])
        self.shuffle(pool)
        m = self.choice([0, 1, 3, 5])
        ops, here = grow(self, "t", pool, m, ["root"])
        rest = pool[m:]
        u = [op("t.new", "t", "root")] + ops
        if self.random() < 0.6:
            k = self.randrange(1, 4)
            segs = self.chain(k)
            for s, x in zip(segs, rest):
                s["n"] = x
            rest = rest[k:]
            u += [op("c.new", "c", segs), op("t.addchain", "t", "c", self.choice(here)), op("c.drop", "c")]
            here += [s["n"] for s in segs]
        if self.random() < 0.6 and rest:
            ops, there = grow(self, "s", rest, self.randrange(1, len(rest) + 1), ["other"])
            u += [op("t.new", "s", "other")] + ops + [op("t.addtree", "t", "s", self.choice(here)), op("t.drop", "s")]
            here += there[1:]
        u = [dict(o, op="py." + o["op"]) for o in u]
        u += [op("py.t.add", "t", self.segment(self.choice(here)), self.choice(here)), op("py.t.add", "t", self.segment("zz"), "nowhere")]
        for k in range(6):
            u.append(op("py.t.chain", "t", self.choice(here), self.choice(here)))
        u += [op("py.t.chain", "t", "nowhere", self.choice(here)), op("py.t.chain", "t", self.choice(here), "nowhere"), op("py.t.chain", "t", "root", here[-1]), op("py.t.chain", "t", here[-1], "root")]
        u += [op("py.c.new", "d", [self.segment(self.choice(here))]), op("py.t.addchain", "t", "d", self.choice(here))]
        return u + [op("py.t.drop", "t")]

    def solve(self, kind):
        if kind in ("dyn", "id"):
            segs = self.heavy(self.randrange(0, 6))
        elif kind in ("fk", "fkvel", "jac", "jacdot", "jacdotqd"):
            segs = self.chain(self.randrange(0, 7), 0.4)
        else:
            segs = self.arm(self.choice([1, 2, 4, 6, 6, 7]))
        m, ns = moving(segs), len(segs)
        o, q = self.off, lambda: self.qs(self.off(m))
        nr = lambda: self.choice([-1, -1, self.randrange(0, ns + 1), ns + 1, ns + 7])
        st = {"none": 0}
        if kind in ("jac", "jacdot", "jacdotqd") and self.random() < 0.7:
            st["locked"] = self.bools(m)
        if kind in ("jacdot", "jacdotqd") and self.random() < 0.7:
            st["rep"] = self.choice(["hybrid", "body", "inertial", "0", "1", "2"])
        free = m - sum(st.get("locked", []))
        if kind == "fk":
            x = [q(), nr()]
        elif kind == "fkvel":
            x = [q(), self.vs(o(m)), nr()]
        elif kind == "jac":
            x = [q(), o(m)] + ([nr()] if self.random() < 0.6 else [])
        elif kind == "jacdot":
            x = [q(), None, o(free)] + ([nr()] if self.random() < 0.6 else [])
            x[1] = self.vs(len(x[0]))
        elif kind == "jacdotqd":
            x = [q(), None, nr()]
            x[1] = self.vs(len(x[0]))
        elif kind == "dyn":
            st["g"] = self.g()
            x = [self.choice(["mass", "coriolis", "gravity"]), q(), self.vs(o(m)), o(m)]
        elif kind == "id":
            st["g"] = self.g()
            x = [q(), self.vs(o(m)), self.vs(o(m)), self.ws(o(ns)), o(m)]
        elif kind in ("nr", "nrjl", "lma"):
            st = {"eps": self.choice([1e-6, 1e-4]), "maxiter": self.choice([10, 60, 100])}
            if kind == "nrjl":
                st["lim"] = [[-4.0] * m, [4.0] * m] if self.random() < 0.6 else self.limits(m)
            g = [self.uniform(-2.5, 2.5) for _ in range(m)]
            x = self.choice([[g, FID, o(m), self.near_to(g, self.choice([0.0, 1e-3, 0.03, 0.3]))], [q(), FID, m, g], [q(), self.frame(), m, []], [q(), self.far(), m, []], [q(), self.frame(), m, g]])
        else:
            st = {"eps": self.choice([1e-5, 1e-3, 0.2])}
            if kind == "nso":
                st.update(alpha=self.choice([0.0, 0.25, 1.0]), opt=self.pose(m), w=[self.choice([1.0, 0.0, 0.5]) for _ in range(m)])
            if kind == "wdls":
                st["lambda"] = self.choice([0.0, 0.1, 1.0])
            x = [self.pose(o(m)), self.twists(), o(m)]
        return [op("py.solve", kind, segs, st, x)]

    def near_to(self, q, d):
        return [x + self.uniform(-d, d) for x in q]


SIGNS = {b[0] for b in SIGNED}


class Living(Lives):
    """lives without what is not bound"""
    def settings(self, kind, m):
        s = Lives.settings(self, kind, m)
        if kind == "wdls":
            s["mq"] = [[float(i == j) for j in range(m)] for i in range(m)]
            s["mx"] = [[float(i == j) for j in range(6)] for i in range(6)]
        if kind == "nrjl":
            s["lim"] = [[-3.0] * m, [3.0] * m]
        return s

    def bound(self, kind):
        while True:
            u = self.life(kind)
            if not any(o["op"] in ("l.assign", "l.other") or (o["op"] == "l.set" and o["a"][1] in ("mq", "mx", "lim")) for o in u):
                return u


SOLVERS = ["fk", "fkvel", "jac", "jacdot", "jacdotqd", "dyn", "id", "pinv", "givens", "nso", "wdls", "nr", "nrjl", "lma"]
LIVES = ["jac", "jacdot", "id", "pinv", "givens", "nso", "wdls", "nr", "nrjl", "lma"]


def c35(tier, seed):
    r = Pythons(seed * 1000 + 350)
    out = []
    out += r.each_index()
    for _ in range(n(tier, 10, 60)):
        calls = [r.call(*b) for b in BOUND]
        calls += [op("py.call", "hash", [x, copy.deepcopy(x)], []) for x in (r.value(t) for t in GEOM)]
        r.shuffle(calls)
        out += [calls[k:k + 25] for k in range(0, len(calls), 25)]
    for _ in range(n(tier, 40, 600)):
        out.append([r.indexed() for _ in range(12)])
        out.append([r.wrong() for _ in range(12)])
    out += [r.variables() for _ in range(n(tier, 200, 4000))]
    out += [r.chains() for _ in range(n(tier, 30, 500))]
    out += [r.parts() for _ in range(n(tier, 30, 500))]
    out += [r.trees() for _ in range(n(tier, 40, 800))]
    out += [r.solve(k) for _ in range(n(tier, 25, 500)) for k in SOLVERS]
    v = Living(seed * 1000 + 351)
    out += [v.bound(k) for _ in range(n(tier, 8, 150)) for k in LIVES]
    return out
