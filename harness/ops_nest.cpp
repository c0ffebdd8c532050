// Numbers nested into one another carry derivatives of any order.
#include "driver.hpp"
#include <utilities/rall1d.h>
#include <utilities/rall2d.h>
#include <utilities/rallNd.h>
using namespace KDL;
// A result is written twice: the derivatives from
// the value on, and those kept along the way (a number with second derivatives of numbers with derivatives keeps many twice).
template<class X> struct Order { static const int n = 0; };
template<class T, class V, class S> struct Order<Rall1d<T, V, S> > { static const int n = Order<T>::n + 1; };
template<class T, class V, class S> struct Order<Rall2d<T, V, S> > { static const int n = Order<T>::n + 2; };
template<int N> struct Order<RallNd<N> > { static const int n = N; };
// Rall1d multiplies and divides in place only where its value is a plain number
template<class X> struct Inplace { static const bool yes = true; };
template<class T, class V, class U> struct Inplace<Rall1d<Rall1d<T, V, U>, Rall1d<T, V, U>, double> > { static const bool yes = false; };
template<class T, class V, class U> struct Inplace<Rall1d<Rall2d<T, V, U>, Rall2d<T, V, U>, double> > { static const bool yes = false; };
inline double deriv(double x, int) { return x; }
template<class T, class V, class S> double deriv(const Rall1d<T, V, S>& x, int k);
template<class T, class V, class S> double deriv(const Rall2d<T, V, S>& x, int k) { return k <= Order<T>::n ? deriv(x.t, k) : k == Order<T>::n + 1 ? deriv(x.d, k - 1) : deriv(x.dd, k - 2); }
template<class T, class V, class S> double deriv(const Rall1d<T, V, S>& x, int k) { return k <= Order<T>::n ? deriv(x.t, k) : deriv(x.grad, k - 1); }
inline double middle(double x, int) { return x; }
template<class T, class V, class S> double middle(const Rall1d<T, V, S>& x, int k);
template<class T, class V, class S> double middle(const Rall2d<T, V, S>& x, int k) { return k == 0 ? middle(x.t, 0) : k <= Order<T>::n + 1 ? middle(x.d, k - 1) : deriv(x.dd, k - 2); }
template<class T, class V, class S> double middle(const Rall1d<T, V, S>& x, int k) { return k == 0 ? middle(x.t, 0) : middle(x.grad, k - 1); }
inline void set(double& x, const std::vector<double>& c, int k) { x = c[k]; }
template<class T, class V, class S> void set(Rall1d<T, V, S>& x, const std::vector<double>& c, int k);
template<class T, class V, class S> void set(Rall2d<T, V, S>& x, const std::vector<double>& c, int k) { set(x.t, c, k); set(x.d, c, k + 1); set(x.dd, c, k + 2); }
template<class T, class V, class S> void set(Rall1d<T, V, S>& x, const std::vector<double>& c, int k) { set(x.t, c, k); set(x.grad, c, k + 1); }
template<class X> J nest(const X& x) {
    J m = J::arr(), o = J::arr();
    for (int k = 0; k <= Order<X>::n; ++k) { m.push(J(deriv(x, k))); o.push(J(middle(x, k))); }
    return J::arr({m, o});
}
inline std::vector<double> reals(const J& j) { std::vector<double> c; for (size_t k = 0; k < j.size(); ++k) c.push_back(j[k].num()); return c; }
template<class X> J nested(const J& a) {
    X x, y;
    set(x, reals(a[1]), 0); set(y, reals(a[2]), 0);
    double s = a[3].num();
    J r = J::arr();
    auto o = [&](const X& v) { r.push(nest(v)); };
    o(x + y); o(x - y); o(x * y); o(x / y); o(-x); o(s * x); o(x * s); o(s + x); o(x + s); o(s - x); o(x - s); o(s / x); o(x / s);
    o(X(atan2(x, y))); o(X(hypot(x, y)));
    X p = x, m = x, ts = x, ds = x, px = x; p += y; m -= y; ts *= s; ds /= s; px += px;
    o(p); o(m); o(ts); o(ds); o(px);
    if constexpr (Inplace<X>::yes) { X t = x, d = x, tx = x; t *= y; d /= y; tx *= tx; o(t); o(d); o(tx); }
    return r;
}
template<class X> J nestfn(const J& a) {
    const std::string& f = a[1].str();
    X x;
    set(x, reals(a[2]), 0);
    double m = a[3].num();
    if (f == "exp") return nest(X(exp(x)));
    if (f == "log") return nest(X(log(x)));
    if (f == "sin") return nest(X(sin(x)));
    if (f == "cos") return nest(X(cos(x)));
    if (f == "tan") return nest(X(tan(x)));
    if (f == "sinh") return nest(X(sinh(x)));
    if (f == "cosh") return nest(X(cosh(x)));
    if (f == "tanh") return nest(X(tanh(x)));
    if (f == "sqr") return nest(X(sqr(x)));
    if (f == "pow") return nest(X(pow(x, m)));
    if (f == "sqrt") return nest(X(sqrt(x)));
    if (f == "asin") return nest(X(asin(x)));
    if (f == "acos") return nest(X(acos(x)));
    if (f == "atan") return nest(X(atan(x)));
    throw std::runtime_error("script: no function " + f);
}
// a number given by its derivatives
template<int N> J given(const J& a) { std::vector<double> c = reals(a[1]); double v = c[0]; return nest(RallNd<N>(v, c.data() + 1)); }
typedef Rall1d<double> D1;
typedef Rall1d<D1, D1, double> D11;
typedef Rall1d<D11, D11, double> D111;
typedef Rall2d<double> D2;
typedef Rall1d<D2, D2, double> D12;
typedef Rall2d<D1, D1, double> D21;
#define NEST(kind, X) if (k == kind) return f == 0 ? nested<X >(a) : nestfn<X >(a);
static J nests(const J& a, int f) {
    const std::string& k = a[0].str();
    NEST("1 in 1", D11) NEST("1 in 1 in 1", D111) NEST("2 in 1", D12) NEST("1 in 2", D21)
    NEST("3", RallNd<3>) NEST("4", RallNd<4>) NEST("5", RallNd<5>)
    throw std::runtime_error("script: no number " + k);
}
OP("nd.num") { return nests(a, 0); }
OP("nd.fn") { return nests(a, 1); }
OP("nd.given") {
    switch (a[0].integer()) {
        case 1: return given<1>(a); case 2: return given<2>(a); case 3: return given<3>(a); case 4: return given<4>(a);
        case 5: return given<5>(a); default: return given<6>(a);
    }
}
