// Inverse, forward and constrained dynamics.
#include "mech.hpp"
#include <chaindynparam.hpp>
#include <chainexternalwrenchestimator.hpp>
#include <chainfdsolver_recursive_newton_euler.hpp>
#include <chainhdsolver_vereshchagin.hpp>
#include <chainidsolver_recursive_newton_euler.hpp>
#include <treeidsolver_recursive_newton_euler.hpp>
using namespace KDL;

// a: chain, gravity, q, q', q'', external wrenches, size of the result
OP("c.id") {
    const Chain& c = chains()(a[0]);
    ChainIdSolver_RNE s(c, vec(a[1]));
    JntArray q = jnts(a[2]), qd = jnts(a[3]), qdd = jnts(a[4]), t(a[6].integer()), u(a[6].integer());
    Wrenches w = wrenches(a[5]);
    int rc = s.CartToJnt(q, qd, qdd, w, t), err = s.getError();
    JntArray z(q.rows());
    Wrenches zero(w.size(), Wrench::Zero());
    s.CartToJnt(z, z, z, zero, u);      // another call in between leaves nothing behind
    int rc2 = s.CartToJnt(q, qd, qdd, w, u);
    return ret(rc, err, t, rc2, u, q, qd, qdd);
}
// a: chain, gravity, q, q', size of the results
OP("c.dynpar") {
    const Chain& c = chains()(a[0]);
    ChainDynParam s(c, vec(a[1]));
    JntArray q = jnts(a[2]), qd = jnts(a[3]), cor(a[4].integer()), gra(a[4].integer());
    JntSpaceInertiaMatrix m(a[4].integer());
    for (int k = 0; k < m.data.size(); ++k) m.data.data()[k] = 7;
    J r = J::arr();
    for (int k = 0; k < 2; ++k) {
        int rm = s.JntToMass(q, m), em = s.getError();
        int rc = s.JntToCoriolis(q, qd, cor), ec = s.getError();
        int rg = s.JntToGravity(q, gra), eg = s.getError();
        r.push(ret(rm, em, js(Eigen::MatrixXd(m.data)), rc, ec, cor, rg, eg, gra));
    }
    return r;
}
// a: chain, gravity, q, q', torques, external wrenches, size of the result
OP("c.fd") {
    const Chain& c = chains()(a[0]);
    ChainFdSolver_RNE s(c, vec(a[1]));
    JntArray q = jnts(a[2]), qd = jnts(a[3]), t = jnts(a[4]), qdd(a[6].integer()), again(a[6].integer());
    Wrenches w = wrenches(a[5]);
    for (unsigned i = 0; i < qdd.rows(); ++i) qdd(i) = 5;
    int rc = s.CartToJnt(q, qd, t, w, qdd), err = s.getError();
    JntArray z(q.rows());
    s.CartToJnt(z, z, t, w, again);
    int rc2 = s.CartToJnt(q, qd, t, w, again);
    return ret(rc, err, qdd, rc2, again);
}
// a: chain, gravity, q, q', torques, external wrenches, dt, number of steps
OP("c.rk4") {
    const Chain& c = chains()(a[0]);
    ChainFdSolver_RNE s(c, vec(a[1]));
    JntArray q = jnts(a[2]), qd = jnts(a[3]), t = jnts(a[4]);
    Wrenches w = wrenches(a[5]);
    double dt = a[6].num();
    unsigned nj = c.getNrOfJoints();
    JntArray qdd(nj), dq(nj), dqd(nj), qt(nj), qdt(nj);
    for (int k = 0; k < a[7].integer(); ++k) { double at = k * dt; s.RK4Integrator(nj, at, dt, q, qd, t, w, s, qdd, dq, dqd, qt, qdt); }
    return ret(q, qd);
}
// a: tree, gravity, q, q', q'', external wrenches as [name, wrench], size of the result
OP("t.id") {
    const Tree& t = trees()(a[0]);
    TreeIdSolver_RNE s(t, vec(a[1]));
    JntArray q = jnts(a[2]), qd = jnts(a[3]), qdd = jnts(a[4]), u(a[6].integer()), v(a[6].integer());
    WrenchMap w, none;
    for (size_t i = 0; i < a[5].size(); ++i) w[a[5][i][0].str()] = wrench(a[5][i][1]);
    int rc = s.CartToJnt(q, qd, qdd, w, u), err = s.getError();
    JntArray z(q.rows());
    s.CartToJnt(z, z, qdd, none, v);
    int rc2 = s.CartToJnt(q, qd, qdd, w, v);
    return ret(rc, err, u, rc2, v);
}
// a: chain, root acceleration, q, q', alfa, beta, external wrenches, feed-forward torques, size of the results, number of constraints
OP("c.hd") {
    const Chain& c = chains()(a[0]);
    unsigned nc = a[9].integer();
    ChainHdSolver_Vereshchagin s(c, twist(a[1]), nc);
    JntArray q = jnts(a[2]), qd = jnts(a[3]), ff = jnts(a[7]), qdd(a[8].integer()), ct(a[8].integer());
    Jacobian alfa = jacobian(a[4]);
    JntArray beta = jnts(a[5]);
    Wrenches w = wrenches(a[6]);
    auto call = [&]() { return s.CartToJnt(q, qd, qdd, alfa, beta, w, ff, ct); };
    int rc = call();
    J r = ret(rc, qdd, ct);
    if (rc == 0) {
        JntArray z(q.rows());
        s.CartToJnt(z, qd, qdd, alfa, beta, w, z, ct);
        rc = call();
        std::vector<Twist> x(c.getNrOfSegments() + 1);
        s.getTransformedLinkAcceleration(x);
        JntArray total(c.getNrOfJoints());
        s.getTotalTorque(total);
        Eigen::VectorXd nu(nc);
        s.getContraintForceMagnitude(nu);
        J xs = J::arr();
        for (auto& t : x) xs.push(js(t));
        r.push(J(rc)).push(js(qdd)).push(js(ct)).push(xs).push(js(total)).push(js(nu));
    }
    return r;
}

// ---- the external wrench estimator
namespace {
struct Estimator {
    Chain c;
    std::unique_ptr<ChainExternalWrenchEstimator> e;
};
Heap<Estimator>& estimators() { static Heap<Estimator> h; return h; }
}
// a: name, chain, gravity, sample frequency, gain, filter constant, eps, maxiter
OP("e.new") {
    Estimator* x = new Estimator;
    x->c = chains()(a[1]);
    x->e.reset(new ChainExternalWrenchEstimator(x->c, vec(a[2]), a[3].num(), a[4].num(), a[5].num(), a[6].num(), a[7].integer()));
    estimators().put(a[0], x);
    return none();
}
OP("e.start") {
    auto& e = *estimators()(a[0]).e;
    int rc = e.setInitialMomentum(jnts(a[1]), jnts(a[2]));
    return ret(rc, e.getError());
}
namespace {
J step(Estimator& x, const JntArray& q, const JntArray& qd, const JntArray& tau) {
    Wrench w(Vector(1, 2, 3), Vector(4, 5, 6));
    int rc = x.e->JntToExtWrench(q, qd, tau, w);
    int err = x.e->getError();
    JntArray t(x.c.getNrOfJoints());
    x.e->getEstimatedJntTorque(t);
    return ret(rc, err, w, t);
}
}
// a: name, rows of positions, velocities, torques
OP("e.run") {
    Estimator& x = estimators()(a[0]);
    J r = J::arr();
    for (size_t k = 0; k < a[1].size(); k++) r.push(step(x, jnts(a[1][k][0]), jnts(a[1][k][1]), jnts(a[1][k][2])));
    return r;
}
// a: name, positions, torques, number of steps at rest
OP("e.rest") {
    Estimator& x = estimators()(a[0]);
    JntArray q = jnts(a[1]), qd(q.rows()), tau = jnts(a[2]);
    J r;
    for (int k = 0; k < a[3].integer(); k++) r = step(x, q, qd, tau);
    return r;
}
OP("e.its") {
    estimators()(a[0]).e->setSVDMaxIter(a[1].integer());
    return none();
}
OP("e.eps") {
    estimators()(a[0]).e->setSVDEps(a[1].num());
    return none();
}
