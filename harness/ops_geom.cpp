// Vectors, rotations, frames, twists and wrenches, in space and in the plane.
#include "driver.hpp"
#include <frames.hpp>
#include <framevel.hpp>
#include <stiffness.hpp>
using namespace KDL;

// ---- vectors
OP("v.add") { return ret(vec(a[0]) + vec(a[1])); }
OP("v.sub") { return ret(vec(a[0]) - vec(a[1])); }
OP("v.muls") { return ret(vec(a[0]) * a[1].num(), a[1].num() * vec(a[0])); }
OP("v.divs") { return ret(vec(a[0]) / a[1].num()); }
OP("v.neg") { Vector v = vec(a[0]); Vector w = v; w.ReverseSign(); return ret(-v, w); }
OP("v.cross") { return ret(vec(a[0]) * vec(a[1])); }
OP("v.dot") { return ret(dot(vec(a[0]), vec(a[1]))); }
OP("v.iadd") { Vector v = vec(a[0]); v += vec(a[1]); return ret(v); }
OP("v.isub") { Vector v = vec(a[0]); v -= vec(a[1]); return ret(v); }
OP("v.selfops") {   // compound assignment with the object itself as the operand
    Vector p = vec(a[0]), m = vec(a[0]);
    p += p; m -= m;
    Vector c = vec(a[0]);
    c = c * vec(a[1]);
    return ret(p, m, c);
}
OP("v.norm") { return ret(vec(a[0]).Norm(), vec(a[0]).Norm(a[1].num())); }
OP("v.normalize") { Vector v = vec(a[0]); double n = v.Normalize(a[1].num()); return ret(n, v); }
OP("v.comp") {
    Vector v = vec(a[0]), w, u;
    const Vector& cv = v;
    w.x(v.x()); w.y(v.y()); w.z(v.z());
    for (int i = 0; i < 3; ++i) u(i) = cv[i];
    Vector s = v; SetToZero(s);
    return ret(w, u, s, Vector::Zero(), Vector());
}
OP("v.from2d") {
    Vector2 p(a[0][0].num(), a[0][1].num());
    Vector xy(7, 7, 7), yz(7, 7, 7), zx(7, 7, 7), pl(7, 7, 7);
    xy.Set2DXY(p); yz.Set2DYZ(p); zx.Set2DZX(p); pl.Set2DPlane(frame(a[1]), p);
    return ret(xy, yz, zx, pl);
}

// ---- rotations
OP("m.rotx") { return ret(Rotation::RotX(a[0].num())); }
OP("m.roty") { return ret(Rotation::RotY(a[0].num())); }
OP("m.rotz") { return ret(Rotation::RotZ(a[0].num())); }
OP("m.rot") { return ret(Rotation::Rot(vec(a[0]), a[1].num())); }
OP("m.rot2") { return ret(Rotation::Rot2(vec(a[0]), a[1].num())); }
OP("m.rotvec") { return ret(Rot(vec(a[0]))); }
OP("m.rpy") { return ret(Rotation::RPY(a[0].num(), a[1].num(), a[2].num())); }
OP("m.zyx") { return ret(Rotation::EulerZYX(a[0].num(), a[1].num(), a[2].num())); }
OP("m.zyz") { return ret(Rotation::EulerZYZ(a[0].num(), a[1].num(), a[2].num())); }
OP("m.quat") { return ret(Rotation::Quaternion(a[0].num(), a[1].num(), a[2].num(), a[3].num())); }
OP("m.dorot") {
    Rotation x = rot(a[0]), y = x, z = x;
    x.DoRotX(a[1].num()); y.DoRotY(a[1].num()); z.DoRotZ(a[1].num());
    return ret(x, y, z);
}
OP("m.mul") { return ret(rot(a[0]) * rot(a[1])); }
OP("m.selfmul") { Rotation r = rot(a[0]); r = r * r; return ret(r); }
OP("m.apply") { Rotation r = rot(a[0]); return ret(r * vec(a[1]), r * twist(a[2]), r * wrench(a[3])); }
OP("m.inverse") {
    Rotation r = rot(a[0]), s = r;
    s.SetInverse();
    return ret(r.Inverse(), s, r.Inverse(vec(a[1])), r.Inverse(twist(a[2])), r.Inverse(wrench(a[3])));
}
OP("m.columns") {
    Rotation r = rot(a[0]), s, t(r.UnitX(), r.UnitY(), r.UnitZ());
    s.UnitX(r.UnitX()); s.UnitY(r.UnitY()); s.UnitZ(r.UnitZ());
    Rotation u(r(0,0), r(0,1), r(0,2), r(1,0), r(1,1), r(1,2), r(2,0), r(2,1), r(2,2));
    Rotation w;
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) w(i, k) = r(i, k);
    return ret(r.UnitX(), r.UnitY(), r.UnitZ(), s, t, u, w, Rotation::Identity(), Rotation());
}
OP("m.getrpy") { double r = 9, p = 9, y = 9; rot(a[0]).GetRPY(r, p, y); return ret(r, p, y); }
OP("m.getzyx") { double r = 9, p = 9, y = 9; rot(a[0]).GetEulerZYX(r, p, y); return ret(r, p, y); }
OP("m.getzyz") { double r = 9, p = 9, y = 9; rot(a[0]).GetEulerZYZ(r, p, y); return ret(r, p, y); }
OP("m.getquat") { double x = 9, y = 9, z = 9, w = 9; rot(a[0]).GetQuaternion(x, y, z, w); return ret(x, y, z, w); }
OP("m.getrot") { return ret(rot(a[0]).GetRot()); }
OP("m.getrotangle") { Vector axis(9, 9, 9); double t = rot(a[0]).GetRotAngle(axis, a[1].num()); return ret(t, axis); }

// ---- frames
OP("f.make") {
    Frame f(rot(a[0]), vec(a[1])), m(rot(a[0])), p(vec(a[1])), c(f), e, s;
    s = f;
    const Frame& cf = f;
    J x = J::arr(), y = J::arr(), z = J::arr();
    double d[16];
    f.Make4x4(d);
    for (int i = 0; i < 4; ++i) {
        J u = J::arr(), v = J::arr(), w = J::arr();
        for (int k = 0; k < 4; ++k) { u.push(J(f(i, k))); v.push(J(cf(i, k))); w.push(J(d[4 * i + k])); }
        x.push(u); y.push(v); z.push(w);
    }
    J r = ret(f, m, p, c, s, e, Frame::Identity());
    return r.push(x).push(y).push(z);
}
OP("f.mul") { return ret(frame(a[0]) * frame(a[1])); }
OP("f.selfmul") { Frame f = frame(a[0]); f = f * f; return ret(f); }
OP("f.apply") { Frame f = frame(a[0]); return ret(f * vec(a[1]), f * twist(a[2]), f * wrench(a[3])); }
OP("f.inverse") { Frame f = frame(a[0]); return ret(f.Inverse(), f.Inverse(vec(a[1])), f.Inverse(twist(a[2])), f.Inverse(wrench(a[3]))); }
OP("f.dh") { return ret(Frame::DH(a[0].num(), a[1].num(), a[2].num(), a[3].num()), Frame::DH_Craig1989(a[0].num(), a[1].num(), a[2].num(), a[3].num())); }
OP("f.integrate") { Frame f = frame(a[0]); f.Integrate(twist(a[1]), a[2].num()); return ret(f); }

// ---- twists and wrenches
OP("t.lin") {
    Twist x = twist(a[0]), y = twist(a[1]), p = x, m = x, n = x, z = x;
    double s = a[2].num();
    p += y; m -= y; n.ReverseSign(); SetToZero(z);
    Twist pp = x; pp += pp;
    return ret(x + y, x - y, p, m, -x, n, x * s, s * x, x / s, z, Twist::Zero(), pp);
}
OP("w.lin") {
    Wrench x = wrench(a[0]), y = wrench(a[1]), p = x, m = x, n = x, z = x;
    double s = a[2].num();
    p += y; m -= y; n.ReverseSign(); SetToZero(z);
    Wrench pp = x; pp += pp;
    return ret(x + y, x - y, p, m, -x, n, x * s, s * x, x / s, z, Wrench::Zero(), pp);
}
OP("t.cross") { return ret(twist(a[0]) * twist(a[1])); }
OP("t.crossw") { return ret(twist(a[0]) * wrench(a[1])); }
OP("t.dot") { return ret(dot(twist(a[0]), wrench(a[1])), dot(wrench(a[1]), twist(a[0]))); }
OP("t.refpoint") { return ret(twist(a[0]).RefPoint(vec(a[1]))); }
OP("w.refpoint") { return ret(wrench(a[0]).RefPoint(vec(a[1]))); }
OP("t.comp") {
    Twist t = twist(a[0]), u; const Twist& ct = t;
    Wrench w = wrench(a[1]), v; const Wrench& cw = w;
    J x = J::arr(), y = J::arr();
    for (int i = 0; i < 6; ++i) { u(i) = ct[i]; v(i) = cw[i]; x.push(J(ct(i))); y.push(J(cw(i))); }
    return ret(u, v).push(x).push(y);
}
OP("stiff") {
    Stiffness s(a[0][0].num(), a[0][1].num(), a[0][2].num(), a[0][3].num(), a[0][4].num(), a[0][5].num());
    Stiffness u(a[1][0].num(), a[1][1].num(), a[1][2].num(), a[1][3].num(), a[1][4].num(), a[1][5].num());
    Stiffness sum = s + u;
    J x = J::arr();
    for (int i = 0; i < 6; ++i) x.push(J(sum[i]));
    return ret(s * twist(a[2]), s.Inverse(wrench(a[3]))).push(x);
}

// a: a seed.  r: numbers drawn of every type, positive numbers drawn, rotations drawn in pairs which must not be the same
namespace {
struct Drawn {
    J any = J::arr(), pos = J::arr(), rots = J::arr();
    bool positive = false;
    void see(double x) { (positive ? pos : any).push(J(x)); }
    void see(const Vector& v) { for (int i = 0; i < 3; ++i) see(v(i)); }
    void see(const Twist& t) { see(t.vel); see(t.rot); }
    void see(const Wrench& w) { see(w.force); see(w.torque); }
    void see(const Rotation& m) { rots.push(js(m)); }
    void see(const Frame& f) { see(f.M); see(f.p); }
    void see(const doubleVel& x) { see(x.t); see(x.grad); }
    void see(const VectorVel& v) { see(v.p); see(v.v); }
    void see(const TwistVel& t) { see(t.vel); see(t.rot); }
    void see(const RotationVel& m) { see(m.R); see(m.w); }
    void see(const FrameVel& f) { see(f.M); see(f.p); }
    void see(const Stiffness& s) { for (int i = 0; i < 6; ++i) see(s[i]); }
    // from the same start, twice
    template<class T> void draw(const T& start) {
        T x(start), y(start);
        if (positive) { posrandom(x); posrandom(y); } else { random(x); random(y); }
        see(x);
        see(y);
    }
};
}
OP("random") {
    srand(a[0].integer());
    Drawn d;
    const Vector v(7, 7, 7);
    const Rotation m;
    for (int k = 0; k < 2; ++k) {
        d.positive = k == 1;
        d.draw(7.0);
        d.draw(v);
        d.draw(Twist(v, v));
        d.draw(Wrench(v, v));
        d.draw(m);
        d.draw(Frame(m, v));
        d.draw(doubleVel(7, 7));
        d.draw(VectorVel(v, v));
        d.draw(TwistVel(VectorVel(v, v), VectorVel(v, v)));
        d.draw(RotationVel(m, v));
        d.draw(FrameVel(RotationVel(m, v), VectorVel(v, v)));
    }
    Stiffness s(7, 7, 7, 7, 7, 7), u(s);
    random(s);
    posrandom(u);
    d.see(s);
    d.see(u);
    return J::arr({d.any, d.pos, d.rots});
}

// ---- differences
OP("diff.v") { return ret(diff(vec(a[0]), vec(a[1]), a[2].num())); }
OP("diff.m") { return ret(diff(rot(a[0]), rot(a[1]), a[2].num())); }
OP("diff.f") { return ret(diff(frame(a[0]), frame(a[1]), a[2].num())); }
OP("diff.t") { return ret(diff(twist(a[0]), twist(a[1]), a[2].num())); }
OP("diff.w") { return ret(diff(wrench(a[0]), wrench(a[1]), a[2].num())); }
OP("add.v") { return ret(addDelta(vec(a[0]), vec(a[1]), a[2].num())); }
OP("add.m") { return ret(addDelta(rot(a[0]), vec(a[1]), a[2].num())); }
OP("add.f") { return ret(addDelta(frame(a[0]), twist(a[1]), a[2].num())); }
OP("add.t") { return ret(addDelta(twist(a[0]), twist(a[1]), a[2].num())); }
OP("add.w") { return ret(addDelta(wrench(a[0]), wrench(a[1]), a[2].num())); }

// ---- equality and hashing: Equal with a tolerance, ==, !=, and whether the hashes agree
template<class T> static J eqops(const T& x, const T& y, double eps) {
    return ret(bool(Equal(x, y, eps)), bool(Equal(y, x, eps)), bool(x == y), bool(y == x), bool(x != y), bool(y != x),
               std::hash<T>()(x) == std::hash<T>()(y));
}
OP("eq.v") { return eqops(vec(a[0]), vec(a[1]), a[2].num()); }
OP("eq.m") { return eqops(rot(a[0]), rot(a[1]), a[2].num()); }
OP("eq.f") { return eqops(frame(a[0]), frame(a[1]), a[2].num()); }
OP("eq.t") { return eqops(twist(a[0]), twist(a[1]), a[2].num()); }
OP("eq.w") { return eqops(wrench(a[0]), wrench(a[1]), a[2].num()); }

// ---- the plane
static Vector2 v2(const J& j) { return Vector2(j[0].num(), j[1].num()); }
static J js(const Vector2& v) { return J::arr({J(v(0)), J(v(1))}); }
static J mat(const Rotation2& r) { return J::arr({J::arr({J(r(0, 0)), J(r(0, 1))}), J::arr({J(r(1, 0)), J(r(1, 1))})}); }
// The columns of the matrix a rotation is: its action on the unit vectors.
static J act(const Rotation2& r) {
    Vector2 x = r * Vector2(1, 0), y = r * Vector2(0, 1);
    return J::arr({J::arr({J(x(0)), J(y(0))}), J::arr({J(x(1)), J(y(1))})});
}
static Frame2 f2(const J& j) { return Frame2(Rotation2(j["th"].num()), v2(j["p"])); }
static J js(const Frame2& f) { return J::obj().set("M", act(f.M)).set("p", js(f.p)); }
OP("p.vec") {
    Vector2 x = v2(a[0]), y = v2(a[1]), p = x, m = x, n = x, z = x;
    double s = a[2].num();
    p += y; m -= y; n.ReverseSign(); SetToZero(z);
    Vector2 w; w.x(x.x()); w.y(x.y());
    J r = J::arr();
    r.push(js(x + y)).push(js(x - y)).push(js(p)).push(js(m)).push(js(-x)).push(js(n)).push(js(x * s)).push(js(s * x)).push(js(x / s)).push(js(z)).push(js(w));
    return r;
}
OP("p.norm") { Vector2 x = v2(a[0]), u = x; double n = u.Normalize(); return J::arr({J(x.Norm()), J(n), js(u)}); }
OP("p.from3d") {
    Vector2 xy(7, 7), yz(7, 7), zx(7, 7), pl(7, 7);
    Vector v = vec(a[0]);
    xy.Set3DXY(v); yz.Set3DYZ(v); zx.Set3DZX(v); pl.Set3DPlane(frame(a[1]), v);
    return J::arr({js(xy), js(yz), js(zx), js(pl)});
}
OP("p.rot") {
    double t = a[0].num();
    Rotation2 r(t), q, cs(cos(t), sin(t)), inv(r), id(r);
    q.SetRot(t); inv.SetInverse(); id.SetIdentity();
    return J::arr({act(r), act(q), act(cs), act(Rotation2::Rot(t)), mat(r), act(r.Inverse()), act(inv), act(id), act(Rotation2::Identity()), J(r.GetRot())});
}
OP("p.rotmul") {
    Rotation2 r(a[0].num()), s(a[1].num());
    Vector2 v = v2(a[2]);
    return J::arr({act(r * s), js(r * v), js(r.Inverse(v))});
}
OP("p.frame") {
    Frame2 f = f2(a[0]), g = f2(a[1]), si = f, id = f;
    const Frame2& cf = f;
    Vector2 v = v2(a[2]);
    si.SetInverse(); id.SetIdentity();
    J m = J::arr(), n = J::arr();
    for (int i = 0; i < 3; ++i) { J x = J::arr(), y = J::arr(); for (int k = 0; k < 3; ++k) { x.push(J(f(i, k))); y.push(J(cf(i, k))); } m.push(x); n.push(y); }
    return J::arr({js(f * g), js(f * v), js(f.Inverse(v)), js(f.Inverse()), js(si), js(id), js(Frame2::Identity()), m, n, js(Frame2(v)), js(Frame2(f.M))});
}
OP("p.eq") {
    Vector2 x = v2(a[0]), y = v2(a[1]);
    double e = a[2].num();
    Frame2 f = f2(a[3]), g = f2(a[4]);
    return J::arr({J(bool(Equal(x, y, e))), J(bool(Equal(y, x, e))), J(bool(x == y)), J(bool(x != y)),
                   J(bool(Equal(f.M, g.M, e))), J(bool(Equal(g.M, f.M, e))), J(bool(Equal(f, g, e))), J(bool(Equal(g, f, e)))});
}
