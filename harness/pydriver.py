"""pydriver.py SCRIPT TRACE: the driver for the Python bindings.  Executes the operations of SCRIPT and writes one event
for each to TRACE, flushed, in the form the C++ driver writes them."""
import copy
import gc
import json
import math
import operator
import pickle
import re
import signal
import sys

import PyKDL as K


# ------------------------------------------------------------------------------------------------------------------
# numbers: a fraction or an exponent makes a real, anything else is an integer
def text(x):
    if isinstance(x, bool):
        return "true" if x else "false"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        s = "%.17g" % x
        return s if "." in s or "e" in s else s + ".0"
    if x is None:
        return '""'
    if isinstance(x, str):
        return json.dumps(x)
    if isinstance(x, (list, tuple)):
        return "[" + ",".join(text(v) for v in x) + "]"
    return "{" + ",".join(json.dumps(k) + ":" + text(v) for k, v in x.items()) + "}"


class Script(Exception):
    pass


# ------------------------------------------------------------------------------------------------------------------
# values, built from and described as JSON
def vec(j):
    return K.Vector(j[0], j[1], j[2])


def rot(j):
    return K.Rotation(*[j[i][k] for i in range(3) for k in range(3)])


def frame(j):
    return K.Frame(rot(j["M"]), vec(j["p"]))


def twist(j):
    return K.Twist(vec(j["vel"]), vec(j["rot"]))


def wrench(j):
    return K.Wrench(vec(j["f"]), vec(j["t"]))


def vecvel(j):
    return K.VectorVel(vec(j[0]), vec(j[1]))


def rotvel(j):
    return K.RotationVel(rot(j["R"]), vec(j["w"]))


def jnts(j):
    q = K.JntArray(len(j))
    for k, x in enumerate(j):
        q[k] = x
    return q


def jntsvel(j):
    return K.JntArrayVel(jnts(j[0]), jnts(j[1]))


def jacobian(j):
    m = K.Jacobian(len(j))
    for k, t in enumerate(j):
        for i in range(6):
            m[i, k] = (t["vel"] + t["rot"])[i]
    return m


def matrix(j):
    m = K.JntSpaceInertiaMatrix(len(j))
    for i, row in enumerate(j):
        for k, x in enumerate(row):
            m[i, k] = x
    return m


def rinertia(j):
    m = K.RotationalInertia()
    for k, x in enumerate(j):
        m[k] = x
    return m


def rinertia6(j):
    return K.RotationalInertia(*j)


def rbi(j):
    return K.RigidBodyInertia(j["m"], vec(j["c"]), K.RotationalInertia(*j["I"]))


def kind(s):
    return getattr(K.Joint, s)


def joint(j):
    if j["k"] in ("RotAxis", "TransAxis"):
        return K.Joint(j["n"], vec(j["o"]), vec(j["a"]), kind(j["k"]), j["s"], j["f"], j["i"], j["d"], j["t"])
    return K.Joint(j["n"], kind(j["k"]), j["s"], j["f"], j["i"], j["d"], j["t"])


def segment(j):
    return K.Segment(j["n"], joint(j["j"]), frame(j["tip"]), rbi(j["in"]))


def chain(j):
    c = K.Chain()
    for s in j:
        c.addSegment(segment(s))
    return c


MAKE = {
    "double": float, "int": int, "bool": bool, "str": str, "None": lambda j: None, "bigint": int,
    "tuple": lambda j: tuple(value(x) for x in j), "list": lambda j: [value(x) for x in j],
    "Vector": vec, "Rotation": rot, "Frame": frame, "Twist": twist, "Wrench": wrench,
    "doubleVel": lambda j: K.doubleVel(j[0], j[1]), "VectorVel": vecvel, "RotationVel": rotvel,
    "TwistVel": lambda j: K.TwistVel(vecvel(j["vel"]), vecvel(j["rot"])),
    "FrameVel": lambda j: K.FrameVel(rotvel(j["M"]), vecvel(j["p"])),
    "JntArray": jnts, "JntArrayVel": jntsvel, "Jacobian": jacobian, "JntSpaceInertiaMatrix": matrix,
    "RotationalInertia": rinertia, "RigidBodyInertia": rbi,
}


def value(x):
    return MAKE[x["t"]](x["v"])


def seq(n, x):
    return [x[k] for k in range(n)]


def rows(m):
    return [[m[i, k] for k in range(3)] for i in range(3)]


def ten(t):
    return {"vel": seq(3, t.vel), "rot": seq(3, t.rot)}


def jetv(v):
    return [seq(3, v.p), seq(3, v.v)]


def jetm(r):
    return {"R": rows(r.R), "w": seq(3, r.w)}


def arr(q):
    return seq(q.rows(), q)


def cols(m):
    return [{"vel": [m[i, k] for i in range(3)], "rot": [m[i + 3, k] for i in range(3)]} for k in range(m.columns())]


SHOW = {
    "Vector": lambda v: seq(3, v), "Rotation": rows, "Frame": lambda f: {"M": rows(f.M), "p": seq(3, f.p)}, "Twist": ten,
    "Wrench": lambda w: {"f": seq(3, w.force), "t": seq(3, w.torque)},
    "doubleVel": lambda d: [d.t, d.grad], "VectorVel": jetv, "RotationVel": jetm,
    "TwistVel": lambda t: {"vel": jetv(t.vel), "rot": jetv(t.rot)}, "FrameVel": lambda f: {"M": jetm(f.M), "p": jetv(f.p)},
    "JntArray": arr, "JntArrayVel": lambda q: [arr(q.q), arr(q.qdot)], "Jacobian": cols,
    "JntSpaceInertiaMatrix": lambda m: [[m[i, k] for k in range(m.columns())] for i in range(m.rows())],
    "RotationalInertia": lambda m: seq(9, m),
    "RigidBodyInertia": lambda i: {"m": i.getMass(), "c": seq(3, i.getCOG()), "I": seq(9, i.getRotationalInertia())},
}


def show(x):
    if x is None:
        return {"t": "None", "v": ""}
    t = type(x).__name__
    if t == "float":
        return {"t": "double", "v": x}
    if t in ("int", "bool", "str"):
        return {"t": t, "v": x}
    if t in ("tuple", "list"):
        return {"t": t, "v": [show(v) for v in x]}
    if t in SHOW:
        return {"t": t, "v": SHOW[t](x)}
    return {"t": t, "v": ""}


def plain(x):
    return show(x)["v"]


# ------------------------------------------------------------------------------------------------------------------
OPS, RESETS = {}, []


def op(name):
    def put(f):
        OPS[name] = f
        return f
    return put


class Heap(dict):
    def __init__(self):
        RESETS.append(self.clear)

    def __missing__(self, name):
        raise Script("no object " + name)


NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)")
SIGNS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "==": operator.eq, "!=": operator.ne,
         "+=": operator.iadd, "-=": operator.isub, "*=": operator.imul, "/=": operator.itruediv, "neg": operator.neg}


def again(x, how):
    if how == "copy":
        return copy.copy(x)
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "pickle":
        return pickle.loads(pickle.dumps(x))
    return type(x)(x)


def call(f, x, names):
    """f: what is called, x: its arguments, names: keywords of the last of them"""
    n = len(x) - len(names)
    pos, kw = x[:n], dict(zip(names, x[n:]))
    if f in SIGNS:
        return SIGNS[f](*x)
    what, _, name = f.partition(" ")
    if f[0] == ".":
        return getattr(pos[0], f[1:])(*pos[1:], **kw)
    if what in ("new", "fn"):
        return getattr(K, name)(*pos, **kw)
    if what == "static":
        t, m = name.split(".")
        return getattr(getattr(K, t), m)(*pos, **kw)
    if what == "field":
        return getattr(x[0], name)
    if what == "setfield":
        return setattr(x[0], name, x[1])
    if f == "get":
        return x[0][x[1]]
    if f == "set":
        return operator.setitem(x[0], x[1], x[2])
    if f == "list":
        return list(x[0])
    if f == "unpack":
        it = iter(x[0])
        return [v for v in it]
    if f == "hash":
        return hash(x[0]) == hash(x[1])
    if f in ("copy", "deepcopy", "pickle"):
        y = again(x[0], f)
        if y is x[0]:
            raise RuntimeError("the copy is the original")
        return y
    if f == "repr":
        return [float(w) for w in NUMBER.findall(repr(x[0]))]
    if f == "str":
        return [float(w) for w in NUMBER.findall(str(x[0]))]
    raise Script("no call " + f)


@op("py.call")
def py_call(a):
    x = []
    for j in a[1]:
        x.append(x[j["v"]] if j["t"] == "ref" else value(j))
    try:
        y = call(a[0], x, a[2])
        r = show(y)
    except (TypeError, IndexError, ValueError, RuntimeError, AttributeError, OverflowError) as e:
        r = {"t": "raise", "v": type(e).__name__}
    return [r, [show(v) for v in x]]


# variables -------------------------------------------------------------------------------------------------------
VARS = Heap()


def looked():
    return [[k, show(VARS[k])] for k in sorted(VARS)]


@op("py.v.new")
def v_new(a):
    VARS[a[0]] = value(a[1])
    return [looked()]


@op("py.v.ref")
def v_ref(a):
    VARS[a[0]] = getattr(VARS[a[1]], a[2])
    return [looked()]


@op("py.v.alias")
def v_alias(a):
    VARS[a[0]] = VARS[a[1]]
    return [looked()]


@op("py.v.copy")
def v_copy(a):
    VARS[a[0]] = again(VARS[a[1]], a[2])
    return [looked()]


@op("py.v.set")
def v_set(a):
    VARS[a[0]][value(a[1])] = a[2]
    return [looked()]


@op("py.v.put")
def v_put(a):
    setattr(VARS[a[0]], a[1], VARS[a[2]])
    return [looked()]


@op("py.v.iadd")
def v_iadd(a):
    VARS[a[0]] += VARS[a[1]]
    return [looked()]


@op("py.v.isub")
def v_isub(a):
    VARS[a[0]] -= VARS[a[1]]
    return [looked()]


@op("py.v.flip")
def v_flip(a):
    VARS[a[0]].ReverseSign()
    return [looked()]


@op("py.v.zero")
def v_zero(a):
    K.SetToZero(VARS[a[0]])
    return [looked()]


@op("py.v.del")
def v_del(a):
    del VARS[a[0]]
    gc.collect()
    waste = [K.Frame() for _ in range(8)] + [K.Vector(7, 7, 7) for _ in range(8)]
    del waste
    return [looked()]


# chains and trees ------------------------------------------------------------------------------------------------
CHAINS, TREES = Heap(), Heap()
Q, QD = 0.7, -1.3


def view(s):
    j = s.getJoint()
    return {"n": s.getName(), "jn": j.getName(), "jk": j.getTypeName(), "je": j.getType() == kind(j.getTypeName()), "o": plain(j.JointOrigin()), "a": plain(j.JointAxis()),
            "jp": plain(j.pose(Q)), "jt": plain(j.twist(QD)), "tip": plain(s.getFrameToTip()), "in": plain(s.getInertia()),
            "pose": plain(s.pose(Q)), "tw": plain(s.twist(Q, QD))}


def view_chain(c):
    return {"nj": c.getNrOfJoints(), "ns": c.getNrOfSegments(), "segs": [view(c.getSegment(k)) for k in range(c.getNrOfSegments())]}


@op("py.c.new")
def c_new(a):
    CHAINS[a[0]] = chain(a[1])
    return [view_chain(CHAINS[a[0]])]


@op("py.c.add")
def c_add(a):
    CHAINS[a[0]].addSegment(segment(a[1]))
    return [view_chain(CHAINS[a[0]])]


@op("py.c.addchain")
def c_addchain(a):
    CHAINS[a[0]].addChain(CHAINS[a[1]])
    return [view_chain(CHAINS[a[0]])]


@op("py.c.copy")
def c_copy(a):
    CHAINS[a[0]] = K.Chain(CHAINS[a[1]])
    return [view_chain(CHAINS[a[0]])]


@op("py.c.look")
def c_look(a):
    return [view_chain(CHAINS[a[0]])]


@op("py.c.segment")
def c_segment(a):
    """a: chain, index"""
    try:
        return ["there", view(CHAINS[a[0]].getSegment(a[1]))]
    except (IndexError, TypeError) as e:
        return [type(e).__name__, 0]


@op("py.c.drop")
def c_drop(a):
    del CHAINS[a[0]]
    gc.collect()
    return []


@op("py.joint")
def py_joint(a):
    """a: the joint, how it is made, its position and velocity; made anew with what may be left out"""
    j, how = a[0], a[1]
    g = j["k"] in ("RotAxis", "TransAxis")
    if how == "named":
        x = joint(j)
    elif how == "keywords":
        kw = dict(scale=j["s"], offset=j["f"], inertia=j["i"], damping=j["d"], stiffness=j["t"])
        x = K.Joint(name=j["n"], origin=vec(j["o"]), axis=vec(j["a"]), type=kind(j["k"]), **kw) if g else K.Joint(name=j["n"], type=kind(j["k"]), **kw)
    elif how == "unnamed":
        x = K.Joint(vec(j["o"]), vec(j["a"]), kind(j["k"]), j["s"], j["f"], j["i"], j["d"], j["t"]) if g else \
            K.Joint(kind(j["k"]), j["s"], j["f"], j["i"], j["d"], j["t"])
    elif how == "scale":      # the rest by default
        x = K.Joint(j["n"], vec(j["o"]), vec(j["a"]), kind(j["k"]), j["s"]) if g else K.Joint(j["n"], kind(j["k"]), j["s"])
    elif how == "copy":
        y = joint(j)
        x = K.Joint(y)
        del y
    elif how == "name":
        x = K.Joint(j["n"])
    else:
        x = K.Joint()
    s = K.Segment("s", x, frame(a[4]))
    y = s.getJoint()
    return [x.getName(), x.getTypeName(), x.getType() == kind(x.getTypeName()), plain(x.JointOrigin()), plain(x.JointAxis()),
            plain(x.pose(a[2])), plain(x.twist(a[3])), plain(y.pose(a[2])), plain(s.pose(a[2])), plain(s.twist(a[2], a[3]))]


@op("py.segment")
def py_segment(a):
    """a: segment, other inertia"""
    j = a[0]
    x = segment(j)
    y = K.Segment(x)
    x.setInertia(rbi(a[1]))
    z = K.Segment(joint(j["j"]), frame(j["tip"]), rbi(j["in"]))
    w = K.Segment(name=j["n"], joint=joint(j["j"]), f_tip=frame(j["tip"]), I=rbi(j["in"]))
    d = K.Segment(j["n"])
    return [view(x), view(y), view(z), view(w), view(d)]


@op("py.t.new")
def t_new(a):
    TREES[a[0]] = K.Tree(a[1])
    return [TREES[a[0]].getNrOfJoints(), TREES[a[0]].getNrOfSegments()]


def grown(t, b):
    return [b, t.getNrOfJoints(), t.getNrOfSegments()]


@op("py.t.add")
def t_add(a):
    t = TREES[a[0]]
    return grown(t, t.addSegment(segment(a[1]), a[2]))


@op("py.t.addchain")
def t_addchain(a):
    t = TREES[a[0]]
    return grown(t, t.addChain(CHAINS[a[1]], a[2]))


@op("py.t.addtree")
def t_addtree(a):
    t = TREES[a[0]]
    return grown(t, t.addTree(TREES[a[1]], a[2]))


@op("py.t.chain")
def t_chain(a):
    c = TREES[a[0]].getChain(a[1], a[2])
    return [view_chain(c)]


@op("py.t.drop")
def t_drop(a):
    del TREES[a[0]]
    gc.collect()
    return []


# solvers ---------------------------------------------------------------------------------------------------------
def sized(n):
    return jnts([7.0] * n)


def full(n):
    m = K.Jacobian(n)
    for i in range(6):
        for k in range(n):
            m[i, k] = 7.0
    return m


def spoil():
    """what is freed too early is overwritten"""
    gc.collect()
    waste = [K.Chain() for _ in range(4)]
    for c in waste:
        c.addSegment(K.Segment("waste", K.Joint("waste", K.Joint.RotX), K.Frame(K.Vector(9, 9, 9))))
    return waste


class Solver:
    """A solver of the bindings: call(args) -> (code, what is computed); error() or None where it is not bound."""
    def __init__(self, kind, c, st):
        self.kind = kind
        self.codes = []
        s = None
        if kind == "fk":
            s = K.ChainFkSolverPos_recursive(c)
        elif kind == "fkvel":
            s = K.ChainFkSolverVel_recursive(c)
        elif kind == "jac":
            s = K.ChainJntToJacSolver(c)
        elif kind in ("jacdot", "jacdotqd"):
            s = K.ChainJntToJacDotSolver(c)
            self.codes = [s.E_JAC_DOT_FAILED, s.E_JACSOLVER_FAILED, s.E_FKSOLVERPOS_FAILED]
        elif kind == "dyn":
            s = K.ChainDynParam(c, vec(st["g"]))
        elif kind == "id":
            s = K.ChainIdSolver_RNE(c, vec(st["g"]))
        elif kind == "pinv":
            s = K.ChainIkSolverVel_pinv(c, st["eps"])
        elif kind == "givens":
            s = K.ChainIkSolverVel_pinv_givens(c)
        elif kind == "nso":
            s = K.ChainIkSolverVel_pinv_nso(c, st["eps"])
        elif kind == "wdls":
            s = K.ChainIkSolverVel_wdls(c, st["eps"])
        elif kind in ("nr", "nrjl"):
            fk, ik = K.ChainFkSolverPos_recursive(c), K.ChainIkSolverVel_pinv(c)
            self.kid = None if st.get("forget") else ik
            if kind == "nr":
                s = K.ChainIkSolverPos_NR(c, fk, ik, st["maxiter"], st["eps"])
            else:
                s = K.ChainIkSolverPos_NR_JL(c, jnts(st["lim"][0]), jnts(st["lim"][1]), fk, ik, st["maxiter"], st["eps"])
            del fk, ik
        elif kind == "lma":
            s = K.ChainIkSolverPos_LMA(chain=c, eps=st["eps"], maxiter=st["maxiter"])
        else:
            raise Script("no solver " + kind)
        self.s = s
        for what in ("locked", "rep", "opt", "w", "alpha", "lambda"):
            if what in st:
                self.set(what, st[what])

    def error(self):
        return self.s.getError() if self.kind != "dyn" else 0

    def set(self, what, v):
        s = self.s
        if what == "locked":
            return s.setLockedJoints(v)
        if what == "rep":
            if str(v).isdigit():
                s.setRepresentation(int(v))
            elif v == "hybrid":
                s.setHybridRepresentation()
            elif v == "body":
                s.setBodyFixedRepresentation()
            else:
                s.setInertialRepresentation()
            return 0
        if what == "opt":
            return s.setOptPos(jnts(v))
        if what == "w":
            return s.setWeights(jnts(v))
        if what == "alpha":
            return s.setAlpha(v)
        if what == "lambda":
            s.setLambda(v)
            return 0
        raise Script("nothing to set " + what)

    def call(self, a):
        k, s = self.kind, self.s
        if k == "fk":
            f = K.Frame()
            rc = s.JntToCart(jnts(a[0]), f) if a[1] == -1 and len(a[0]) % 2 else s.JntToCart(jnts(a[0]), f, a[1])
            return rc, plain(f)
        if k == "fkvel":
            f, q = K.FrameVel(), jntsvel([a[0], a[0]])
            q.qdot = jnts(a[1])
            rc = s.JntToCart(q, f, a[2])
            return rc, plain(f)
        if k == "jac":
            m = full(a[1])
            rc = s.JntToJac(jnts(a[0]), m, a[2]) if len(a) > 2 else s.JntToJac(jnts(a[0]), m)
            return rc, plain(m)
        if k == "jacdot":
            q, m = jntsvel([a[0], a[0]]), full(a[2])
            q.qdot = jnts(a[1])
            rc = s.JntToJacDot(q, m, a[3]) if len(a) > 3 else s.JntToJacDot(q, m)
            return rc, plain(m)
        if k == "jacdotqd":
            q, t = jntsvel([a[0], a[0]]), K.Twist(K.Vector(5, 5, 5), K.Vector(5, 5, 5))
            q.qdot = jnts(a[1])
            rc = s.JntToJacDot(q, t, a[2])
            return rc, plain(t)
        if k == "dyn":
            if a[0] == "mass":
                m = matrix([[7.0] * a[3]] * a[3])
                rc = s.JntToMass(jnts(a[1]), m)
                return rc, plain(m)
            r = sized(a[3])
            rc = s.JntToGravity(jnts(a[1]), r) if a[0] == "gravity" else s.JntToCoriolis(jnts(a[1]), jnts(a[2]), r)
            return rc, plain(r)
        if k == "id":
            r = sized(a[4])
            rc = s.CartToJnt(jnts(a[0]), jnts(a[1]), jnts(a[2]), [wrench(w) for w in a[3]], r)
            return rc, plain(r)
        r = sized(a[2])
        q = jnts(a[0])
        if k not in ("nr", "nrjl", "lma"):
            return s.CartToJnt(q, twist(a[1]), r), plain(r)
        return s.CartToJnt(q, frame(a[1]), r), plain(r)


@op("py.solve")
def py_solve(a):
    """a: kind, segments, settings, arguments; then the same call through a solver all of whose other objects are forgotten"""
    c = chain(a[1])
    x = list(a[3])
    if a[0] in ("nr", "nrjl", "lma") and len(x) > 3:     # the goal is seen from where these positions lead
        f, fk = K.Frame(), K.ChainFkSolverPos_recursive(c)
        fk.JntToCart(jnts(x[3]), f)
        x[1] = plain(f * frame(x[1]))
        del fk
    s = Solver(a[0], c, a[2])
    rc, out = s.call(x)
    first = [rc, s.error(), out]
    more = []
    if a[0] == "wdls":
        more = [s.s.getLambda(), s.s.getEps(), s.s.getNrZeroSigmas(), s.s.getSigmaMin(), s.s.getLambdaScaled(), s.s.getSVDResult()]
    if a[0] == "nso":
        more = [s.s.getAlpha(), plain(s.s.getOptPos()), plain(s.s.getWeights())]
    t = Solver(a[0], c, dict(a[2], forget=True))
    del c, s
    waste = spoil()
    rc, out = t.call(x)
    del waste
    return [first, [rc, t.error(), out], more]


# the life of a solver, as for the library itself
LIVES = Heap()


class Life:
    pass


@op("l.new")
def l_new(a):
    l = Life()
    l.kind, l.c = a[1], chain(a[2])
    l.x = Solver(a[1], l.c, a[3])
    LIVES[a[0]] = l
    return [l.x.error()]


@op("l.add")
def l_add(a):
    l = LIVES[a[0]]
    l.c.addSegment(segment(a[1]))
    return [l.x.error()]


@op("l.update")
def l_update(a):
    l = LIVES[a[0]]
    l.x.s.updateInternalDataStructures()
    return [l.x.error()]


@op("l.inner")
def l_inner(a):
    l = LIVES[a[0]]
    l.x.kid.updateInternalDataStructures()
    return [l.x.error()]


@op("l.set")
def l_set(a):
    l = LIVES[a[0]]
    rc = l.x.set(a[1], a[2])
    return [rc, l.x.error()]


@op("l.call")
def l_call(a):
    l = LIVES[a[0]]
    rc, out = l.x.call(a[1])
    err = l.x.error()
    y = Solver(l.kind, l.c, a[2])
    rf, fresh = y.call(a[1])
    return [rc, err, l.x.s.strError(err) != l.x.s.strError(-12345), out, rf, fresh]


@op("l.texts")
def l_texts(a):
    l = LIVES[a[0]]
    return [[[k, l.x.s.strError(k)] for k in l.x.codes + list(range(-8, 2))], l.x.s.strError(-12345), l.x.error()]


@op("l.drop")
def l_drop(a):
    del LIVES[a[0]]
    gc.collect()
    return []


# ------------------------------------------------------------------------------------------------------------------
def hung(*_):
    sys.stderr.write("driver: the operation hangs\n")
    sys.stderr.flush()
    import os
    os._exit(97)


def main():
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    import faulthandler
    with open(sys.argv[2], "w") as out:
        for line in open(sys.argv[1]):
            line = line.strip()
            if not line:
                continue
            e = json.loads(line, parse_constant=None)
            thrown, r = "", []
            faulthandler.dump_traceback_later(30, exit=True)
            if e["op"] == "reset":
                for f in RESETS:
                    f()
                gc.collect()
            elif e["op"] not in OPS:
                sys.stderr.write("driver: unknown operation %s\n" % e["op"])
                return 96
            else:
                try:
                    r = OPS[e["op"]](e["a"])
                except (Script, KeyError, NameError) as x:
                    sys.stderr.write("driver: %s: %s\n" % (x, line))
                    return 96
                except Exception as x:
                    thrown = type(x).__name__
                    sys.stderr.write("driver: %s: %s\n" % (x, line[:300]))
            faulthandler.cancel_dump_traceback_later()
            e["r"], e["x"] = r, thrown
            out.write(text(e) + "\n")
            out.flush()
        for f in RESETS:
            f()
        gc.collect()
        out.write('{"op":"end","a":[],"r":[],"x":""}\n')
    return 0


sys.exit(main())
