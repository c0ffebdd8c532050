"""Scripts for text: texts after the grammar, disturbed ones, written values, beginnings, noise."""
from gen_geom import n
from gen_motion import Paths
from rnd import PI, op

PLAIN = ["vector", "rotation", "frame", "twist", "wrench", "vector2", "rotation2", "frame2"]


def p(c):
    return ["p", c, 0]


def w(s):
    return ["w", s, 0]


class Texts(Paths):
    def number(self, real=True):
        k = self.random()
        if k < 0.25:
            return ["i", "", self.choice([0, 1, 2, -1, 45, 90, -30, 180, 7])]
        return ["n", "", self.uniform(-100, 100) if k < 0.8 else self.choice([-1, 1]) * 10.0 ** self.uniform(-8, 8)]

    def row(self, xs, seps=None):
        out = [p("[")]
        for k, x in enumerate(xs):
            out += [x] + ([p(seps[k] if seps else ",")] if k + 1 < len(xs) else [])
        return out + [p("]")]

    def num(self, x):
        return ["n", "", float(x)]

    def t_vector(self):
        return [w("ZERO")] if self.random() < 0.15 else self.row([self.number() for _ in range(3)])

    def t_rotation(self):
        k = self.random()
        if k < 0.35:
            m = self.rot()
            return self.row([self.num(x) for r in m for x in r], ",,;,,;,,")
        if k < 0.45:
            return [w("IDENTITY")]
        if k < 0.8:
            return [w(self.choice(["EULERZYX", "EULERZYZ", "RPY"]))] + self.t_vector()
        return [w("ROT")] + self.row([self.num(x * 2) for x in self.unit()]) + self.row([self.number()])

    def t_frame(self):
        return [w("DH")] + self.row([self.number() for _ in range(4)]) if self.random() < 0.2 else [p("[")] + self.t_rotation() + self.t_vector() + [p("]")]

    def t_six(self):
        return self.row([self.number() for _ in range(6)])

    def t_pair(self):
        return self.row([self.number(), self.number()])

    def t_rotation2(self):
        return self.row([self.number()])

    def small(self, f):
        """a frame, as text"""
        return [p("[")] + self.row([self.num(x) for r in f["M"] for x in r], ",,;,,;,,") + self.row([self.num(x) for x in f["p"]]) + [p("]")]

    ORIENT = [w("SINGLEAXIS"), p("["), p("]")]

    def t_path(self, x=None):
        x = x or self.path(2, 0.1)
        k = x["k"]
        v = lambda y: self.row([self.num(z) for z in y])
        if k == "point":
            return [w("POINT"), p("[")] + self.small(x["f"]) + [p("]")]
        if k == "line":
            return [w("LINE"), p("[")] + self.small(x["f"]) + self.small(x["to"]) + self.ORIENT + [self.num(x["eq"]), p("]")]
        if k == "twist":
            return self.t_path(self.point())
        if k == "circle":
            return [w("CIRCLE"), p("[")] + self.small(x["f"]) + v(x["c"]) + v(x["p"]) + self.row([self.num(z) for r in x["m"] for z in r], ",,;,,;,,") + \
                [self.num(x["alpha"] * 180 / PI)] + self.ORIENT + [self.num(x["eq"]), p("]")]
        if k == "round":
            return [w("ROUNDEDCOMPOSITE"), p("["), self.num(x["rad"]), self.num(x["eq"])] + self.ORIENT + [["i", "", len(x["pts"])]] + \
                [t for f in x["pts"] for t in self.small(f)] + [p("]")]
        if k == "comp":
            return [w("COMPOSITE"), p("["), ["i", "", len(x["parts"])]] + [t for y in x["parts"] for t in self.t_path(y)] + [p("]")]
        return [w("CYCLIC_CLOSED"), p("[")] + self.t_path(x["part"]) + [["i", "", x["n"]], p("]")]

    def t_profile(self):
        a, b = self.num(self.speed()), self.num(self.speed())
        return self.choice([[w("DIRACVEL"), p("["), p("]")], [w("CONSTVEL")] + self.row([a]), [w("TRAPEZOIDAL")] + self.row([a, b]),
                            [w("TRAPEZOIDALHALF")] + self.row([a, b, ["i", "", self.choice([0, 1])]])])

    def t_traj(self):
        return [w("SEGMENT"), p("[")] + self.t_path() + self.t_profile() + [p("]")]

    def text(self, kind):
        return {"vector": self.t_vector, "rotation": self.t_rotation, "frame": self.t_frame, "twist": self.t_six, "wrench": self.t_six, "vector2": self.t_pair,
                "rotation2": self.t_rotation2, "frame2": lambda: self.t_rotation2() + self.t_pair(), "path": self.t_path, "profile": self.t_profile, "traj": self.t_traj}[kind]()

    def disturb(self, t):
        """something wrong"""
        t = [list(x) for x in t]
        k, i = self.random(), self.randrange(len(t))
        if k < 0.25:
            return t[:i]
        if k < 0.45:
            del t[i]
        elif k < 0.6:
            t[i] = p(self.choice("[],;"))
        elif k < 0.75:
            t.insert(i, self.choice([p("["), p("]"), p(","), p(";"), self.number(), w("ZERO")]))
        else:
            t[i] = w(self.choice(["A", "ZER", "ZEROS", "ROTT", "SPIN", "EULERZYXX", "IDENTITYX", "X" * 9, "X" * 10, "X" * 11, "Y" * 24, "Y" * 25, "Y" * 26, "Z" * 63, "Z" * 64, "Z" * 65, "Z" * 500,
                                  "SEGMENT", "POINT", "DH"]))
        return t

    COMMENTS = [" /* x */ ", "// y [\n", "# z ]\n", "/**/", " /* a\n *//* b */ ", "/* * / */\n#\n"]

    def seps(self, t, dense):
        """space or a comment before each token, and after the last.  Between a word or number and another there is some; comments before a number only after an opening
        bracket, comma or semicolon: elsewhere the library has the standard library read the number"""
        out = []
        for k in range(len(t) + 1):
            a, b = t[k - 1] if k else p("["), t[k] if k < len(t) else p("[")
            loose = a[0] == "p" or b == p("[") or (b[0] == "p" and a[0] in "ni")
            number = b[0] in "ni" and not (a[0] == "p" and a[1] != "]")
            if dense and loose:
                out.append("")
            elif number or self.random() < 0.7:
                out.append(self.choice([" ", "  ", "\n", "\t", " \n "]))
            else:
                out.append(self.choice([" ", ""] if loose else [" "]) + self.choice(self.COMMENTS))
        return out

    def opts(self):
        return {"p": [0, [0.0, 1.0, self.random(), 0.5], self.uniform(-2, 2), self.uniform(-2, 2), 0.5], "j": [0, [0.0, 1.0, self.random(), 0.4, -0.3, 1.4], [-1.0, self.uniform(0, 3), 1e4]]}

    def read(self, kinds, bad):
        t = [x for k in kinds for x in self.text(k)]
        if bad:
            t = self.disturb(t)
        return op("x.read", kinds, t, self.seps(t, self.random() < 0.3), self.randrange(4), self.opts())

    def angle2(self):
        a = self.angle()
        import math
        return [math.cos(a), math.sin(a)]

    def value(self, kind):
        f = {"vector": self.vec, "rotation": self.rot, "frame": self.frame, "twist": self.twist, "wrench": self.wrench, "rotation2": self.angle2,
             "vector2": lambda: self.vec()[:2], "frame2": lambda: {"M": self.angle2(), "p": self.vec()[:2]}, "path": lambda: self.path(2, 0.0), "traj": lambda: self.traj(1)}
        if kind == "profile":
            k = self.choice(["Trap", "TrapHalf", "Rect", "Dirac", "Spline"])
            return {"kind": k, "lim": self.limits(k), "planned": self.random() < 0.5}
        return f[kind]()

    def printed(self):
        jets = {"rall1": 1, "rall2": 1, "vectorvel": 2, "rotationvel": 4, "framevel": 6, "twistvel": 4,
                "vectoracc": 3, "rotationacc": 5, "frameacc": 8, "twistacc": 6}
        k = self.choice(["jnts", "jacobian", "matrix"] * 2 + sorted(jets))
        if k in jets:
            n = {"rall1": 2, "rall2": 3}.get(k, 3)
            return op("x.print", k, [[self.choice([0.0, 1.0, self.uniform(-100, 100), self.uniform(-1, 1)]) for _ in range(n)] for _ in range(jets[k])],
                      self.choice([6, 3, 5]))
        x = lambda: self.choice([0.0, 1.0, self.uniform(-100, 100), self.uniform(-1, 1)])
        c = self.choice([1, 2, 3, 7])
        v = [x() for _ in range(c)] if k == "jnts" else [[x() for _ in range(c)] for _ in range(6 if k == "jacobian" else c)]
        return op("x.print", k, v, self.choice([6, 3, 5]))


    def eaten(self):
        """a description, and a text which may be it"""
        d = "".join(self.choice(["a", "B", "z", "Go", "[", "1", " ", " x", "/ "]) for _ in range(self.randrange(0, 6))).strip()
        while "  " in d:
            d = d.replace("  ", " ")
        t = self.choice(["", " ", "\n"] + self.COMMENTS)
        for c in d:
            t += self.choice([" ", "  ", "\t\n", "\n"] + self.COMMENTS) if c == " " else c.swapcase() if self.random() < 0.4 else c
        t += self.choice(["", " ", "x", " y", "1 2", "\n]"])
        t = list(t)
        if t and self.random() < 0.35:
            i = self.randrange(len(t))
            t[i:i + 1] = self.choice([[], [self.choice("ab /*#\n[")], [t[i], self.choice(" x/")]])
        if t and t[-1] == "/":      # at the end of a stream this may become a comment
            t.append(".")
        return op("x.eat", [ord(c) for c in t], [ord(c) for c in d])

    def traced(self):
        steps, depth = [], 0
        for _ in range(self.randrange(1, 12)):
            k = self.random()
            if k < 0.5:
                steps.append(["push", self.choice(["a", "KDL::Path::Read", "x" * 15, ""])])
                depth += 1
            elif k < 0.65 and depth:
                steps.append(["pop", 0])
                depth -= 1
            elif k < 0.9:
                n = self.choice([0, 1, 2, 17, 64, 200])
                steps.append(["take", n])
                depth -= 1 if n > 0 and depth else 0
            else:
                steps.append(["all", 0])
                depth = 0
        return op("x.trace", steps)


def c32(tier, seed):
    r = Texts(seed * 1000 + 320)
    out = []
    kinds = PLAIN + ["path", "profile", "traj"]
    for i in range(n(tier, 500, 12000)):
        ks = [r.choice(PLAIN + ["profile"]) for _ in range(r.choice([1, 1, 2, 3]))] if r.random() < 0.6 else [r.choice(["path", "profile", "traj"])]
        out.append([r.read(ks, r.random() < 0.5)])
    for i in range(n(tier, 400, 9000)):
        k = r.choice(kinds)
        prec = 17 if k in ("path", "traj", "profile") else r.choice([17, 6, 12, 3])
        out.append([op("x.write", k, r.value(k), prec, r.opts())])
    for k in kinds:     # words as long as what the library keeps them in
        for c in [1, 8, 9, 10, 11, 24, 25, 26, 63, 64, 65, 300]:
            out.append([op("x.read", [k], t, [""] * (len(t) + 1), 0, r.opts()) for t in ([w("Q" * c), p("["), p("]")], [w("Q" * c)])])
    for x in ([w("LINE"), p("[")] + r.small(r.frame()) * 2, [w("POINT"), p("[")], [w("POINT"), p("["), p("[")], [w("SEGMENT"), p("[")] + r.t_path(r.point()), [w("ROUNDEDCOMPOSITE"), p("["), r.num(1), r.num(1)],
              [w("POINT"), p("["), p("[")] + r.row([r.num(0)] * 9, ",,;,,;,,")):
        for c in [9, 10, 11, 24, 25, 26, 63, 64, 65]:
            t = x + [w("Q" * c), p("["), p("]")]
            out.append([op("x.read", ["traj" if x[0] == w("SEGMENT") else "path"], t, [" "] * (len(t) + 1), 0, r.opts())])
    for i in range(n(tier, 60, 900)):
        k = r.choice(kinds)
        while True:
            x = r.value(k)
            if not (k == "profile" and x["kind"] == "Spline" or k == "traj" and x["k"] != "seg" or k == "traj" and x["prof"]["kind"] == "Spline"):
                break
        out.append([op("x.cut", k, x, 6, r.opts())])
    for i in range(n(tier, 150, 3000)):
        k = r.choice(kinds)
        s = "".join(r.choice([" ", "", "\n"]) + (x[1] or str(x[2])) for x in r.text(k))
        s = list(s)
        for _ in range(r.choice([1, 2, 5])):
            if s:
                s[r.randrange(len(s))] = chr(r.randrange(256)) if r.random() < 0.5 else r.choice("[],;#/*\n-e.9Z")
        out.append([op("x.raw", k, [ord(c) & 255 for c in s], r.opts())])
    for i in range(n(tier, 60, 1000)):
        out.append([r.printed()])
    for i in range(n(tier, 60, 1000)):
        out.append([r.eaten() for _ in range(6)] + [r.traced()])
    out += [[op("x.errors", r.choice(["something", "else"]), r.choice([0, 5, 77, -3]))] for _ in range(4)]
    return out
