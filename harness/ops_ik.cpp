// Inverse kinematics of chains and trees.
#include "mech.hpp"
#include <chainfksolverpos_recursive.hpp>
#include <chainiksolverpos_lma.hpp>
#include <chainiksolverpos_nr.hpp>
#include <chainiksolverpos_nr_jl.hpp>
#include <chainiksolvervel_pinv.hpp>
#include <chainiksolvervel_pinv_givens.hpp>
#include <chainiksolvervel_pinv_nso.hpp>
#include <chainiksolvervel_wdls.hpp>
#include <treefksolverpos_recursive.hpp>
#include <treeiksolverpos_nr_jl.hpp>
#include <treeiksolverpos_online.hpp>
#include <treeiksolvervel_wdls.hpp>
using namespace KDL;

namespace {
Eigen::MatrixXd matrix(const J& j) {
    Eigen::MatrixXd m(j.size(), j.size() ? j[0].size() : 0);
    for (int i = 0; i < m.rows(); ++i) for (int k = 0; k < m.cols(); ++k) m(i, k) = j[i][k].num();
    return m;
}
// the answers of a solver to calls, each [q, twist]
template<class S, class More> J velocities(S& s, const J& calls, int size, More more) {
    J r = J::arr();
    for (size_t i = 0; i < calls.size(); ++i) {
        JntArray q = jnts(calls[i][0]), qd(size);
        for (unsigned k = 0; k < qd.rows(); ++k) qd(k) = 7;
        int rc = s.CartToJnt(q, twist(calls[i][1]), qd), err = s.getError();
        r.push(ret(rc, err, qd, more(), q));
    }
    return r;
}
}
// the most iterations of a decomposition, where a script tells them; 0 is for what the library takes by default, for all settings
int iterations(const J& a, size_t k) { return k < a.size() ? a[k].integer() : 150; }
// a: chain, eps, size of the results, calls, iterations
OP("c.pinv") {
    const Chain& c = chains()(a[0]);
    int it = iterations(a, 4);
    std::unique_ptr<ChainIkSolverVel_pinv> p(it ? new ChainIkSolverVel_pinv(c, a[1].num(), it) : new ChainIkSolverVel_pinv(c));
    ChainIkSolverVel_pinv& s = *p;
    return velocities(s, a[3], a[2].integer(), [&]() { return ret((int)s.getNrZeroSigmas(), s.getSVDResult()); });
}
// a: chain, size of the results, calls
OP("c.givens") {
    const Chain& c = chains()(a[0]);
    ChainIkSolverVel_pinv_givens s(c);
    return velocities(s, a[2], a[1].integer(), []() { return none(); });
}
// a: chain, eps, alpha, optimal positions, weights, given at the construction?, size of the results, calls, iterations
OP("c.nso") {
    const Chain& c = chains()(a[0]);
    JntArray opt = jnts(a[3]), w = jnts(a[4]);
    int it = iterations(a, 8);
    std::unique_ptr<ChainIkSolverVel_pinv_nso> s(!it ? (a[5].boolean() ? new ChainIkSolverVel_pinv_nso(c, opt, w) : new ChainIkSolverVel_pinv_nso(c))
                                                 : a[5].boolean() ? new ChainIkSolverVel_pinv_nso(c, opt, w, a[1].num(), it, a[2].num())
                                                                  : new ChainIkSolverVel_pinv_nso(c, a[1].num(), it));
    J set = none();
    if (!a[5].boolean()) {
        int o = s->setOptPos(opt), ww = s->setWeights(w);
        set = ret(o, ww, it ? s->setAlpha(a[2].num()) : 0);
    }
    J r = velocities(*s, a[7], a[6].integer(), [&]() { return ret(s->getSVDResult()); });
    return ret(set, r, s->getOptPos(), s->getWeights(), s->getAlpha());
}
// a: chain, eps, lambda, joint weights, task weights, size of the results, calls, iterations
OP("c.wdls") {
    const Chain& c = chains()(a[0]);
    int it = iterations(a, 7), rq = 0, rx = 0;
    std::unique_ptr<ChainIkSolverVel_wdls> p(it == 150 ? new ChainIkSolverVel_wdls(c, 1e-3) : it ? new ChainIkSolverVel_wdls(c, a[1].num(), it + 1) : new ChainIkSolverVel_wdls(c));
    ChainIkSolverVel_wdls& s = *p;
    if (it) {
        if (it == 150) s.setEps(a[1].num());
        else s.setMaxIter(it);
        s.setLambda(a[2].num());
        rq = s.setWeightJS(matrix(a[3]));
        rx = s.setWeightTS(matrix(a[4]));
    }
    J r = velocities(s, a[6], a[5].integer(), [&]() {
        Eigen::VectorXd sig(c.getNrOfJoints());
        int rs = s.getSigma(sig);
        return ret(rs, js(sig), s.getSigmaMin(), s.getLambda(), s.getLambdaScaled(), (int)s.getNrZeroSigmas(), s.getEps(), s.getSVDResult());
    });
    return ret(rq, rx, r);
}
namespace {
std::unique_ptr<ChainIkSolverVel> velsolver(const std::string& k, const Chain& c) {
    std::unique_ptr<ChainIkSolverVel> p;
    if (k == "pinv") p.reset(new ChainIkSolverVel_pinv(c));
    else if (k == "pinv1") p.reset(new ChainIkSolverVel_pinv(c, 1e-5, 1));
    else if (k == "givens") p.reset(new ChainIkSolverVel_pinv_givens(c));
    else if (k == "wdls") p.reset(new ChainIkSolverVel_wdls(c));
    else if (k == "nso") {
        JntArray z(c.getNrOfJoints()), w(c.getNrOfJoints());
        w.data.setOnes();
        p.reset(new ChainIkSolverVel_pinv_nso(c, z, w, 1e-5, 150, 0.0));
    } else throw std::runtime_error("script: no such solver " + k);
    return p;
}
}
// a: chain, kind, velocity solver, [lower, upper] limits or [], max iterations, eps, calls: each [q, goal q, goal frame, size]; the goal is
// the pose at the goal q times the goal frame, or that frame; and whether iterations and eps are those by default
OP("c.ikp") {
    const Chain& c = chains()(a[0]);
    ChainFkSolverPos_recursive fk(c);
    std::unique_ptr<ChainIkSolverVel> vel = velsolver(a[2].str(), c);
    std::unique_ptr<ChainIkSolverPos> s;
    std::string k = a[1].str();
    ChainIkSolverPos_LMA* lma = 0;
    ChainIkSolverPos_NR_JL* jl = 0;
    J set = none();
    bool def = a.size() > 7 && a[7].boolean();
    if (def) {
        if (k == "nr") s.reset(new ChainIkSolverPos_NR(c, fk, *vel));
        else if (k == "nr_jl" && a[3].size()) s.reset(new ChainIkSolverPos_NR_JL(c, jnts(a[3][0]), jnts(a[3][1]), fk, *vel));
        else if (k == "nr_jl") s.reset(new ChainIkSolverPos_NR_JL(c, fk, *vel));
        else s.reset(lma = new ChainIkSolverPos_LMA(c));
    } else if (k == "nr") s.reset(new ChainIkSolverPos_NR(c, fk, *vel, a[4].integer(), a[5].num()));
    else if (k == "nr_jl" && a[3].size()) s.reset(new ChainIkSolverPos_NR_JL(c, jnts(a[3][0]), jnts(a[3][1]), fk, *vel, a[4].integer(), a[5].num()));
    else if (k == "nr_jl") s.reset(new ChainIkSolverPos_NR_JL(c, fk, *vel, a[4].integer(), a[5].num()));
    else if (k == "nr_jl_set") {
        s.reset(jl = new ChainIkSolverPos_NR_JL(c, fk, *vel, a[4].integer(), a[5].num()));
        int rc = jl->setJointLimits(jnts(a[3][0]), jnts(a[3][1]));
        set = ret(rc, jl->getError());
    } else if (k == "lma") s.reset(lma = new ChainIkSolverPos_LMA(c, a[5].num(), a[4].integer()));
    else if (k == "lma_w") {
        Eigen::Matrix<double, 6, 1> w;
        for (int i = 0; i < 6; ++i) w(i) = a[3][i].num();
        s.reset(lma = new ChainIkSolverPos_LMA(c, w, a[5].num(), a[4].integer()));
    }
    J r = J::arr();
    for (size_t i = 0; i < a[6].size(); ++i) {
        const J& call = a[6][i];
        Frame goal = frame(call[2]), at;
        if (call[1].size()) { fk.JntToCart(jnts(call[1]), at); goal = at * goal; }
        JntArray q = jnts(call[0]), out(call[3].integer());
        bool inPlace = i % 2 && q.rows() == out.rows();     // the result may be put where the start was
        if (inPlace) out = q;
        int rc = s->CartToJnt(inPlace ? out : q, goal, out), err = s->getError();
        J more = none();
        if (lma && rc != -3 && rc != -4) more = ret(js(Eigen::VectorXd(lma->lastSV)), lma->lastTransDiff, lma->lastRotDiff, lma->lastDifference, lma->lastNrOfIter);
        r.push(ret(rc, err, out, q, more));
    }
    return ret(set, r);
}
namespace {
std::vector<std::string> names(const J& j) { std::vector<std::string> v; for (size_t i = 0; i < j.size(); ++i) v.push_back(j[i].str()); return v; }
Twists twists(const J& j) { Twists t; for (size_t i = 0; i < j.size(); ++i) t[j[i][0].str()] = twist(j[i][1]); return t; }
// the poses of the endpoints at joint positions, times frames; or those frames
Frames goals(const Tree& t, const J& q, const J& ends) {
    TreeFkSolverPos_recursive fk(t);
    Frames f;
    for (size_t i = 0; i < ends.size(); ++i) {
        Frame at;
        if (q.size()) fk.JntToCart(jnts(q), at, ends[i][0].str());
        f[ends[i][0].str()] = at * frame(ends[i][1]);
    }
    return f;
}
void weigh(TreeIkSolverVel_wdls& s, const J& lambda, const J& wq, const J& wx) {
    if (lambda.num()) s.setLambda(lambda.num());
    if (wq.size()) s.setWeightJS(matrix(wq));
    if (wx.size()) s.setWeightTS(matrix(wx));
}
}
// a: tree, endpoints, lambda, joint weights, task weights, size of the results, calls: each [q, twists as [name, twist]]
OP("t.wdls") {
    const Tree& t = trees()(a[0]);
    TreeIkSolverVel_wdls s(t, names(a[1]));
    weigh(s, a[2], a[3], a[4]);
    J r = J::arr();
    for (size_t i = 0; i < a[6].size(); ++i) {
        JntArray q = jnts(a[6][i][0]), qd(a[5].integer());
        double rc = s.CartToJnt(q, twists(a[6][i][1]), qd);
        r.push(ret(rc, qd));
    }
    return r;
}
// a: tree, endpoints, lambda, joint weights, task weights: what is set
OP("t.wdlsset") {
    TreeIkSolverVel_wdls s(trees()(a[0]), names(a[1]));
    double l = s.getLambda();
    J q = js(Eigen::MatrixXd(s.getWeightJS())), x = js(Eigen::MatrixXd(s.getWeightTS()));
    weigh(s, a[2], a[3], a[4]);
    return ret(l, q, x, s.getLambda(), js(Eigen::MatrixXd(s.getWeightJS())), js(Eigen::MatrixXd(s.getWeightTS())));
}
// a: tree, endpoints, lower limits, upper limits, max iterations, eps, lambda, calls: each [q, goal q, [[name, frame]...], size]; whether iterations and eps are those by default
OP("t.ikp") {
    const Tree& t = trees()(a[0]);
    TreeIkSolverVel_wdls vel(t, names(a[1]));
    vel.setLambda(a[6].num());
    TreeFkSolverPos_recursive fk(t);
    std::unique_ptr<TreeIkSolverPos_NR_JL> p(a.size() > 8 && a[8].boolean() ? new TreeIkSolverPos_NR_JL(t, names(a[1]), jnts(a[2]), jnts(a[3]), fk, vel)
                                                                            : new TreeIkSolverPos_NR_JL(t, names(a[1]), jnts(a[2]), jnts(a[3]), fk, vel, a[4].integer(), a[5].num()));
    TreeIkSolverPos_NR_JL& s = *p;
    J r = J::arr();
    for (size_t i = 0; i < a[7].size(); ++i) {
        const J& call = a[7][i];
        JntArray q = jnts(call[0]), out(call[3].integer());
        bool inPlace = i % 2 && q.rows() == out.rows();
        if (inPlace) out = q;
        double rc = s.CartToJnt(inPlace ? out : q, goals(t, call[1], call[2]), out);
        r.push(ret(rc, out));
    }
    return r;
}
// a: tree, endpoints, lower limits, upper limits, joint velocity limits, translational limit, rotational limit, lambda, calls as in t.ikp
OP("t.online") {
    const Tree& t = trees()(a[0]);
    TreeIkSolverVel_wdls vel(t, names(a[1]));
    vel.setLambda(a[7].num());
    TreeFkSolverPos_recursive fk(t);
    TreeIkSolverPos_Online s(t.getNrOfJoints(), names(a[1]), jnts(a[2]), jnts(a[3]), jnts(a[4]), a[5].num(), a[6].num(), fk, vel);
    J r = J::arr();
    for (size_t i = 0; i < a[8].size(); ++i) {
        const J& call = a[8][i];
        JntArray q = jnts(call[0]), out(call[3].integer());
        bool inPlace = i % 2 && q.rows() == out.rows();
        if (inPlace) out = q;
        double rc = s.CartToJnt(inPlace ? out : q, goals(t, call[1], call[2]), out);
        r.push(ret(rc, out));
    }
    return r;
}
