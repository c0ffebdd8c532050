// Joint arrays, with and without derivatives, and joint-space inertia matrices.
#include "mech.hpp"
#include <jntspaceinertiamatrix.hpp>
using namespace KDL;

namespace {
void in(const J& j, JntArray& q) { q = jnts(j[0]); }
void in(const J& j, JntArrayVel& q) { q = JntArrayVel(jnts(j[0]), jnts(j[1])); }
void in(const J& j, JntArrayAcc& q) { q = JntArrayAcc(jnts(j[0]), jnts(j[1]), jnts(j[2])); }
J out(const JntArray& q) { return J::arr({js(q)}); }
J out(const JntArrayVel& q) { return J::arr({js(q.q), js(q.qdot)}); }
J out(const JntArrayAcc& q) { return J::arr({js(q.q), js(q.qdot), js(q.qdotdot)}); }
void in(const J& j, double& d) { d = j[0].num(); }
void in(const J& j, doubleVel& d) { d = doubleVel(j[0].num(), j[1].num()); }
void in(const J& j, doubleAcc& d) { d = doubleAcc(j[0].num(), j[1].num(), j[2].num()); }
void in(const J& j, JntSpaceInertiaMatrix& m) {
    m = JntSpaceInertiaMatrix((int)j.size());
    for (unsigned i = 0; i < j.size(); ++i) for (unsigned k = 0; k < j.size(); ++k) m(i, k) = j[i][k].num();
}
J out(const JntSpaceInertiaMatrix& m) { return js(Eigen::MatrixXd(m.data)); }
template<class A> A rd(const J& j) { A x; in(j, x); return x; }

// x + y and x - y in a destination of its own, in x and, if it is of the same kind, in y
template<class A, class B> J sums(const J& a) {
    J r = J::arr();
    const A x = rd<A>(a[0]);
    const B y = rd<B>(a[1]);
    A d(x), e(x), f(x);
    Multiply(x, 3.5, d);
    Add(x, y, d);
    Add(e, y, e);
    r.push(out(d)).push(out(e));
    d = x; Multiply(x, 3.5, d);
    Subtract(x, y, d);
    Subtract(f, y, f);
    r.push(out(d)).push(out(f)).push(out(x)).push(out(y));
    if constexpr (std::is_same<A, B>::value) {
        A g(y), h(y), i(x), k(x);
        Add(x, g, g);
        Subtract(x, h, h);
        Add(i, i, i);
        Subtract(k, k, k);
        r.push(out(g)).push(out(h)).push(out(i)).push(out(k));
    }
    return r;
}
template<class A, class S> J prods(const J& a) {
    const A x = rd<A>(a[0]);
    const S s = rd<S>(a[1]);
    A d(x), e(x), f(x), g(x);
    Add(x, x, d);
    Multiply(x, s, d);
    Multiply(e, s, e);
    Add(x, x, f);
    Divide(x, s, f);
    Divide(g, s, g);
    return J::arr({out(d), out(e), out(f), out(g), out(x)});
}
// two arrays which are copies of one another stay apart
template<class A> J copies(const J& a) {
    A x = rd<A>(a[0]), c(x), d;
    d = x;
    SetToZero(x);
    J r = J::arr({out(x), out(c), out(d)});
    A z(c), &same = z;
    z = same;
    SetToZero(c);
    return r.push(out(d)).push(out(z)).push(out(c));
}
template<class A> J sized(const J& a) {
    unsigned n = a[1].integer();
    A x = rd<A>(a[0]), none;
    x.resize(n);
    none.resize(n);
    return J::arr({out(x), out(none), out(A(n))});
}
template<class A> J eq(const J& a) {
    const A x = rd<A>(a[0]), y = rd<A>(a[1]);
    J r = J::arr({J(Equal(x, y, a[2].num())), J(Equal(y, x, a[2].num())), J(Equal(x, y)), J(Equal(y, x)), J(Equal(x, x))});
    return r;
}
}

OP("q.sum") {
    const std::string& k = a[2].str();
    if (k == "00") return sums<JntArray, JntArray>(a);
    if (k == "11") return sums<JntArrayVel, JntArrayVel>(a);
    if (k == "10") return sums<JntArrayVel, JntArray>(a);
    if (k == "22") return sums<JntArrayAcc, JntArrayAcc>(a);
    if (k == "21") return sums<JntArrayAcc, JntArrayVel>(a);
    if (k == "20") return sums<JntArrayAcc, JntArray>(a);
    throw std::runtime_error("script: kind " + k);
}
OP("q.prod") {
    const std::string& k = a[2].str();
    if (k == "00") return prods<JntArray, double>(a);
    if (k == "10") return prods<JntArrayVel, double>(a);
    if (k == "11") return prods<JntArrayVel, doubleVel>(a);
    if (k == "20") return prods<JntArrayAcc, double>(a);
    if (k == "21") return prods<JntArrayAcc, doubleVel>(a);
    if (k == "22") return prods<JntArrayAcc, doubleAcc>(a);
    throw std::runtime_error("script: kind " + k);
}
OP("q.copy") { int k = a[1].integer(); return k == 0 ? copies<JntArray>(a) : k == 1 ? copies<JntArrayVel>(a) : copies<JntArrayAcc>(a); }
OP("q.size") { int k = a[2].integer(); return k == 0 ? sized<JntArray>(a) : k == 1 ? sized<JntArrayVel>(a) : sized<JntArrayAcc>(a); }
OP("q.eq") {
    int k = a[3].integer();
    if (k == 1) return eq<JntArrayVel>(a);
    if (k == 2) return eq<JntArrayAcc>(a);
    J r = eq<JntArray>(a);
    JntArray x = rd<JntArray>(a[0]), y = rd<JntArray>(a[1]);
    return r.push(J(x == y)).push(J(y == x));
}
OP("q.get") {
    JntArray x = jnts(a[0]);
    JntArrayVel v = rd<JntArrayVel>(a[1]);
    JntArrayAcc w = rd<JntArrayAcc>(a[2]);
    J el = J::arr();
    for (unsigned i = 0; i < x.rows(); ++i) { const JntArray& c = x; el.push(J(c(i))); x(i) = 2 * c(i); }
    return J::arr({el, js(x), J(x.rows()), J(x.columns()), js(v.value()), js(v.deriv()), js(w.value()), js(w.deriv()), js(w.dderiv()),
                   out(JntArrayVel(v.q)), out(JntArrayAcc(v.q, v.qdot)), out(JntArrayAcc(v.q))});
}
OP("q.jac") {
    Jacobian m = jacobian(a[0]);
    JntArray q = jnts(a[1]);
    Twist t(Vector(1, 2, 3), Vector(4, 5, 6));
    MultiplyJacobian(m, q, t);
    return ret(t, q);
}
OP("q.mat") {
    const JntSpaceInertiaMatrix x = rd<JntSpaceInertiaMatrix>(a[0]), y = rd<JntSpaceInertiaMatrix>(a[1]);
    const JntArray v = jnts(a[2]);
    double s = a[3].num();
    J r = J::arr();
    JntSpaceInertiaMatrix d(x), e(x), f(y), g(x);
    Add(x, y, d); Add(e, y, e); Add(x, f, f); Add(g, g, g);
    r.push(out(d)).push(out(e)).push(out(f)).push(out(g));
    d = x; e = x; f = y;
    Subtract(x, y, d); Subtract(e, y, e); Subtract(x, f, f);
    r.push(out(d)).push(out(e)).push(out(f));
    d = y; e = x;
    Multiply(x, s, d); Multiply(e, s, e);
    r.push(out(d)).push(out(e));
    d = y; e = x;
    Divide(x, s, d); Divide(e, s, e);
    r.push(out(d)).push(out(e));
    JntArray p(v.rows()), q(v);
    Multiply(x, v, p);
    Multiply(x, q, q);
    r.push(js(p)).push(js(q));
    r.push(out(x)).push(out(y)).push(J(x.rows())).push(J(x.columns()));
    e = x;
    JntSpaceInertiaMatrix c(e);
    SetToZero(e);
    r.push(out(e)).push(out(c)).push(J(Equal(x, y, a[4].num()))).push(J(Equal(y, x, a[4].num()))).push(J(x == y)).push(J(y == x));
    e.resize(a[5].integer());
    JntSpaceInertiaMatrix z(a[5].integer());
    return r.push(J(e.rows())).push(J(e.columns())).push(out(z)).push(J(Equal(x, e, 1e9))).push(J(x == z));
}
