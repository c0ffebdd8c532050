// Numbers, vectors, rotations, frames and twists carried along with their first (Vel) or first and second (Acc)
// time derivatives.  A jet is written as the list of the value and its derivatives.
#include "driver.hpp"
#include <frameacc.hpp>
#include <framevel.hpp>
#include <utilities/rall1d.h>
#include <utilities/rall2d.h>
using namespace KDL;

struct Vel {
    typedef doubleVel D; typedef VectorVel V; typedef RotationVel R; typedef FrameVel F; typedef TwistVel T;
    static D d(const J& j) { return D(j[0].num(), j[1].num()); }
    static V v(const J& j) { return V(vec(j[0]), vec(j[1])); }
    static R r(const J& j) { return R(rot(j["R"]), vec(j["w"])); }
    static J js(const D& x) { return J::arr({J(x.t), J(x.grad)}); }
    static J js(const V& x) { return J::arr({::js(x.p), ::js(x.v)}); }
    static J js(const R& x) { return J::obj().set("R", ::js(x.R)).set("w", ::js(x.w)); }
};
struct Acc {
    typedef doubleAcc D; typedef VectorAcc V; typedef RotationAcc R; typedef FrameAcc F; typedef TwistAcc T;
    static D d(const J& j) { return D(j[0].num(), j[1].num(), j[2].num()); }
    static V v(const J& j) { return V(vec(j[0]), vec(j[1]), vec(j[2])); }
    static R r(const J& j) { return R(rot(j["R"]), vec(j["w"]), vec(j["dw"])); }
    static J js(const D& x) { return J::arr({J(x.t), J(x.d), J(x.dd)}); }
    static J js(const V& x) { return J::arr({::js(x.p), ::js(x.v), ::js(x.dv)}); }
    static J js(const R& x) { return J::obj().set("R", ::js(x.R)).set("w", ::js(x.w)).set("dw", ::js(x.dw)); }
};
template<class K> typename K::F fr(const J& j) { return typename K::F(K::r(j["M"]), K::v(j["p"])); }
template<class K> typename K::T tw(const J& j) { return typename K::T(K::v(j["vel"]), K::v(j["rot"])); }
template<class K> J out(const typename K::D& x) { return K::js(x); }
template<class K> J out(const typename K::V& x) { return K::js(x); }
template<class K> J out(const typename K::R& x) { return K::js(x); }
template<class K> J out(const typename K::F& x) { return J::obj().set("M", K::js(x.M)).set("p", K::js(x.p)); }
template<class K> J out(const typename K::T& x) { return J::obj().set("vel", K::js(x.vel)).set("rot", K::js(x.rot)); }

template<class K> struct Out {
    J r = J::arr();
    template<class X> Out& operator()(const X& x) { r.push(out<K>(x)); return *this; }
};

template<class K> J num2(const J& a) {
    typedef typename K::D D;
    D x = K::d(a[0]), y = K::d(a[1]);
    double s = a[2].num();
    Out<K> o;
    o(x + y)(x - y)(x * y)(x / y)(-x)(s * x)(x * s)(s + x)(x + s)(s - x)(x - s)(s / x)(x / s);
    D p = x, m = x, t = x, d = x, ps = x, ms = x, ts = x, ds = x, c; p += y; m -= y; t *= y; d /= y; ps += s; ms -= s; ts *= s; ds /= s;
    c = s;
    o(p)(m)(t)(d)(ps)(ms)(ts)(ds)(c)(D::Zero())(D::Identity())(D(s));
    o(atan2(x, y))(hypot(x, y));
    D lc; LinCombR(s, x, 2.5, y, lc);
    o(LinComb(s, x, 2.5, y))(lc);
    D px = x, tx = x; px += px; tx *= tx;
    o(px)(tx);
    return o.r;
}
template<class K> J fn(const J& a) {
    typedef typename K::D D;
    const std::string& f = a[0].str();
    D x = K::d(a[1]);
    double m = a[2].num();
    if (f == "exp") return J::arr({K::js(exp(x))});
    if (f == "log") return J::arr({K::js(log(x))});
    if (f == "sin") return J::arr({K::js(sin(x))});
    if (f == "cos") return J::arr({K::js(cos(x))});
    if (f == "tan") return J::arr({K::js(tan(x))});
    if (f == "sinh") return J::arr({K::js(sinh(x))});
    if (f == "cosh") return J::arr({K::js(cosh(x))});
    if (f == "tanh") return J::arr({K::js(tanh(x))});
    if (f == "sqr") return J::arr({K::js(sqr(x))});
    if (f == "pow") return J::arr({K::js(pow(x, m))});
    if (f == "sqrt") return J::arr({K::js(sqrt(x))});
    if (f == "asin") return J::arr({K::js(asin(x))});
    if (f == "acos") return J::arr({K::js(acos(x))});
    if (f == "atan") return J::arr({K::js(atan(x))});
    throw std::runtime_error("script: no function " + f);
}
template<class K> J vecs(const J& a) {
    typedef typename K::V V;
    V x = K::v(a[0]), y = K::v(a[1]);
    Vector v = vec(a[2]);
    double s = a[3].num();
    typename K::D d = K::d(a[4]);
    Out<K> o;
    o(x + y)(x - y)(v + x)(v - x)(x + v)(x - v)(-x);
    o(x * y)(x * v)(v * x)(x * s)(s * x)(d * x)(x * d)(x / s)(x / d);
    V p = x, m = x, n = x, c, z; p += y; m -= y; n.ReverseSign(); c = v;
    o(p)(m)(n)(c)(V::Zero())(V(v))(z);
    o(dot(x, y))(dot(x, v))(dot(v, x));
    o(x.Norm());
    return o.r;
}
template<class K> J rots(const J& a) {
    typedef typename K::R R;
    R x = K::r(a[0]), y = K::r(a[1]), c;
    Rotation m = rot(a[2]);
    typename K::V v = K::v(a[3]);
    Vector w = vec(a[4]);
    typename K::T t = tw<K>(a[5]);
    Twist u = twist(a[6]);
    c = m;
    Out<K> o;
    o(x * y)(m * x)(x * m)(x.Inverse())(c)(R(m))(R::Identity())(R());
    o(x * v)(x * w)(x.Inverse(v))(x.Inverse(w))(m * v);
    o(x * t)(x * u)(x.Inverse(t))(x.Inverse(u));
    return o.r;
}
template<class K> J frames(const J& a) {
    typedef typename K::F F;
    F x = fr<K>(a[0]), y = fr<K>(a[1]), c, d;
    Frame m = frame(a[2]);
    typename K::V v = K::v(a[3]);
    Vector w = vec(a[4]);
    typename K::T t = tw<K>(a[5]);
    Twist u = twist(a[6]);
    c = m; d = x;
    Out<K> o;
    o(x * y)(m * x)(x * m)(x.Inverse())(c)(d)(F(m))(F::Identity());
    o(x * v)(x * w)(x.Inverse(v))(x.Inverse(w));
    o(x * t)(x * u)(x.Inverse(t))(x.Inverse(u));
    return o.r;
}
template<class K> J twists(const J& a) {
    typedef typename K::T T;
    T x = tw<K>(a[0]), y = tw<K>(a[1]), p = x, m = x, n = x, z = x;
    double s = a[2].num();
    typename K::D d = K::d(a[3]);
    typename K::V v = K::v(a[4]);
    p += y; m -= y; n.ReverseSign(); z = T::Zero();
    Out<K> o;
    o(x + y)(x - y)(-x)(p)(m)(n)(x * s)(s * x)(x / s)(x * d)(d * x)(x / d)(z)(x.RefPoint(v));
    return o.r.push(js(x.GetTwist())).push(js(x.GetTwistDot()));
}
OP("j1.num") { return num2<Vel>(a); }
OP("j2.num") { return num2<Acc>(a); }
OP("j1.fn") { return fn<Vel>(a); }
OP("j2.fn") { return fn<Acc>(a); }
OP("j1.vec") { return vecs<Vel>(a); }
OP("j2.vec") { return vecs<Acc>(a); }
OP("j1.rot") { return rots<Vel>(a); }
OP("j2.rot") { return rots<Acc>(a); }
OP("j1.frame") { return frames<Vel>(a); }
OP("j2.frame") { return frames<Acc>(a); }
OP("j1.twist") { return twists<Vel>(a); }
OP("j2.twist") { return twists<Acc>(a); }
OP("j1.get") {
    FrameVel f = fr<Vel>(a[0]);
    TwistVel t = tw<Vel>(a[1]);
    VectorVel v = Vel::v(a[2]);
    FrameVel g(f.GetFrame(), f.GetTwist());
    TwistVel u(twist(a[3]), twist(a[4]));
    TwistVel w(twist(a[3]));
    J r = J::arr({js(f.GetFrame()), js(f.GetTwist()), js(f.value()), js(f.deriv()), js(t.value()), js(t.deriv()), js(v.value()), js(v.deriv()),
                  js(f.M.value()), js(f.M.deriv()), out<Vel>(g), out<Vel>(u), out<Vel>(w)});
    return r.push(Vel::js(f.M.UnitX())).push(Vel::js(f.M.UnitY())).push(Vel::js(f.M.UnitZ()));
}
OP("j2.get") {
    FrameAcc f = fr<Acc>(a[0]);
    FrameAcc g(f.GetFrame(), f.GetTwist(), f.GetAccTwist());
    return J::arr({js(f.GetFrame()), js(f.GetTwist()), js(f.GetAccTwist()), out<Acc>(g)});
}
OP("j1.turn") {
    doubleVel q = Vel::d(a[0]);
    Vector axis = vec(a[1]), unit = vec(a[2]);
    RotationVel x = Vel::r(a[3]), y = x, z = x;
    x.DoRotX(q); y.DoRotY(q); z.DoRotZ(q);
    Out<Vel> o;
    o(RotationVel::RotX(q))(RotationVel::RotY(q))(RotationVel::RotZ(q))(RotationVel::Rot(axis, q))(RotationVel::Rot2(unit, q))(x)(y)(z);
    return o.r;
}
OP("j1.diff") {
    double dt = a[8].num();
    Out<Vel> o;
    o(diff(Vel::d(a[0]), Vel::d(a[1]), dt))(diff(Vel::v(a[2]), Vel::v(a[3]), dt))(diff(Vel::r(a[4]), Vel::r(a[5]), dt))(diff(fr<Vel>(a[6]), fr<Vel>(a[7]), dt));
    return o.r;
}
OP("j1.add") {
    double dt = a[8].num();
    Out<Vel> o;
    o(addDelta(Vel::d(a[0]), Vel::d(a[1]), dt))(addDelta(Vel::v(a[2]), Vel::v(a[3]), dt))(addDelta(Vel::r(a[4]), Vel::v(a[5]), dt))(addDelta(fr<Vel>(a[6]), tw<Vel>(a[7]), dt));
    return o.r;
}

// ---- equality and hashing: Equal both ways, the mixed Equal with the plain type, whether the hashes agree; == and != where there are any
template<class T, class P> static J eqj(const T& x, const T& y, const P& px, const P& py, double eps) {
    return ret(bool(Equal(x, y, eps)), bool(Equal(y, x, eps)), bool(Equal(px, y, eps)), bool(Equal(x, py, eps)), std::hash<T>()(x) == std::hash<T>()(y));
}
template<class T> static J& cmp(J& r, const T& x, const T& y) { return r.push(J(bool(x == y))).push(J(bool(y == x))).push(J(bool(x != y))).push(J(bool(y != x))); }
OP("eq.j1v") { VectorVel x = Vel::v(a[0]), y = Vel::v(a[1]); J r = eqj(x, y, x.p, y.p, a[2].num()); return cmp(r, x, y); }
OP("eq.j1m") { RotationVel x = Vel::r(a[0]), y = Vel::r(a[1]); J r = eqj(x, y, x.R, y.R, a[2].num()); return cmp(r, x, y); }
OP("eq.j1f") { FrameVel x = fr<Vel>(a[0]), y = fr<Vel>(a[1]); J r = eqj(x, y, x.GetFrame(), y.GetFrame(), a[2].num()); return cmp(r, x, y); }
OP("eq.j1t") { TwistVel x = tw<Vel>(a[0]), y = tw<Vel>(a[1]); J r = eqj(x, y, x.value(), y.value(), a[2].num()); return cmp(r, x, y); }
OP("eq.j2v") { VectorAcc x = Acc::v(a[0]), y = Acc::v(a[1]); return eqj(x, y, x.p, y.p, a[2].num()); }
OP("eq.j2m") { RotationAcc x = Acc::r(a[0]), y = Acc::r(a[1]); return eqj(x, y, x.R, y.R, a[2].num()); }
OP("eq.j2f") { FrameAcc x = fr<Acc>(a[0]), y = fr<Acc>(a[1]); return eqj(x, y, x.GetFrame(), y.GetFrame(), a[2].num()); }
OP("eq.j2t") { TwistAcc x = tw<Acc>(a[0]), y = tw<Acc>(a[1]); return eqj(x, y, x.GetTwist(), y.GetTwist(), a[2].num()); }
template<class D> static J eqn(const D& x, const D& y, double eps) {
    J r = ret(bool(Equal(x, y, eps)), bool(Equal(y, x, eps)), std::hash<D>()(x) == std::hash<D>()(y));
    return cmp(r, x, y);
}
OP("eq.j1d") { return eqn(Vel::d(a[0]), Vel::d(a[1]), a[2].num()); }
OP("eq.j2d") { return eqn(Acc::d(a[0]), Acc::d(a[1]), a[2].num()); }
