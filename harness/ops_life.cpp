// Solvers through the life of their chain: what changes, what they are told, and the errors they report.
#include "mech.hpp"
#include <chaindynparam.hpp>
#include <chainexternalwrenchestimator.hpp>
#include <chainfdsolver_recursive_newton_euler.hpp>
#include <chainfksolverpos_recursive.hpp>
#include <chainhdsolver_vereshchagin.hpp>
#include <chainidsolver_recursive_newton_euler.hpp>
#include <chainiksolverpos_lma.hpp>
#include <chainiksolverpos_nr.hpp>
#include <chainiksolverpos_nr_jl.hpp>
#include <chainiksolvervel_pinv.hpp>
#include <chainiksolvervel_pinv_givens.hpp>
#include <chainiksolvervel_pinv_nso.hpp>
#include <chainiksolvervel_wdls.hpp>
#include <chainjnttojacdotsolver.hpp>
#include <chainjnttojacsolver.hpp>
#include <treeidsolver_recursive_newton_euler.hpp>
using namespace KDL;

namespace {
Eigen::MatrixXd matrix(const J& j) {
    Eigen::MatrixXd m(j.size(), j.size() ? j[0].size() : 0);
    for (int i = 0; i < m.rows(); ++i) for (int k = 0; k < m.cols(); ++k) m(i, k) = j[i][k].num();
    return m;
}
JntArray sized(const J& n) { JntArray q(n.integer()); for (unsigned k = 0; k < q.rows(); ++k) q(k) = 7; return q; }

struct Aged {
    std::shared_ptr<SolverI> s;
    std::shared_ptr<SolverI> kid;                           // an inner solver
    std::function<int(const J&, J&)> call;                  // the code, and what is computed
    std::function<int(const std::string&, const J&)> set;
    std::function<int()> other;                             // what is documented as not implemented
    std::vector<int> codes;                                 // of its own
};
int nothing(const std::string& what, const J&) { throw std::runtime_error("script: nothing to set " + what); }

Aged make(const std::string& kind, const Chain& c, const Tree& t, const J& set) {
    Aged x;
    x.set = nothing;
    auto velocity = [&x](auto s) {
        x.call = [s](const J& a, J& out) { JntArray qd = sized(a[2]); int rc = s->CartToJnt(jnts(a[0]), twist(a[1]), qd); out = js(qd); return rc; };
        x.other = [s]() { JntArrayVel q(1); return static_cast<ChainIkSolverVel&>(*s).CartToJnt(JntArray(1), FrameVel(), q); };
    };
    auto position = [&x](auto s) {
        x.call = [s](const J& a, J& out) { JntArray q = sized(a[2]); int rc = s->CartToJnt(jnts(a[0]), frame(a[1]), q); out = js(q); return rc; };
    };
    if (kind == "jac") {
        auto s = std::make_shared<ChainJntToJacSolver>(c);
        x.s = s;
        x.set = [s](const std::string&, const J& v) { return s->setLockedJoints(bools(v)); };
        x.call = [s](const J& a, J& out) { Jacobian m(a[1].integer()); int rc = s->JntToJac(jnts(a[0]), m); out = js(m); return rc; };
        x.set("locked", set["locked"]);
    } else if (kind == "jacdot") {
        auto s = std::make_shared<ChainJntToJacDotSolver>(c);
        x.s = s;
        x.codes = {ChainJntToJacDotSolver::E_JAC_DOT_FAILED, ChainJntToJacDotSolver::E_JACSOLVER_FAILED, ChainJntToJacDotSolver::E_FKSOLVERPOS_FAILED};
        x.set = [s](const std::string& what, const J& v) {
            if (what == "locked") return s->setLockedJoints(bools(v));
            s->setRepresentation(v.integer());
            return 0;
        };
        x.call = [s](const J& a, J& out) {
            JntArrayVel q(jnts(a[0]), jnts(a[1]));
            Jacobian m(a[2].integer());
            int rc = s->JntToJacDot(q, m);
            out = js(m);
            return rc;
        };
        x.set("locked", set["locked"]);
        x.set("rep", set["rep"]);
    } else if (kind == "dyn") {
        auto s = std::make_shared<ChainDynParam>(c, vec(set["g"]));
        x.s = s;
        x.call = [s](const J& a, J& out) {
            JntArray r = sized(a[3]);
            JntSpaceInertiaMatrix m(a[3].integer());
            m.data.setConstant(7);
            int rc = a[0].str() == "mass" ? s->JntToMass(jnts(a[1]), m) : a[0].str() == "gravity" ? s->JntToGravity(jnts(a[1]), r) : s->JntToCoriolis(jnts(a[1]), jnts(a[2]), r);
            out = a[0].str() == "mass" ? js(Eigen::MatrixXd(m.data)) : js(r);
            return rc;
        };
    } else if (kind == "id") {
        auto s = std::make_shared<ChainIdSolver_RNE>(c, vec(set["g"]));
        x.s = s;
        x.call = [s](const J& a, J& out) { JntArray r = sized(a[4]); int rc = s->CartToJnt(jnts(a[0]), jnts(a[1]), jnts(a[2]), wrenches(a[3]), r); out = js(r); return rc; };
    } else if (kind == "fd") {
        auto s = std::make_shared<ChainFdSolver_RNE>(c, vec(set["g"]));
        x.s = s;
        x.call = [s](const J& a, J& out) { JntArray r = sized(a[4]); int rc = s->CartToJnt(jnts(a[0]), jnts(a[1]), jnts(a[2]), wrenches(a[3]), r); out = js(r); return rc; };
    } else if (kind == "hd") {
        auto s = std::make_shared<ChainHdSolver_Vereshchagin>(c, twist(set["acc"]), set["nc"].integer());
        x.s = std::shared_ptr<SolverI>((SolverI*)s.get(), [s](SolverI*) {});     // a private base
        x.call = [s](const J& a, J& out) {
            JntArray r = sized(a[6]), ct = sized(a[6]), ff = jnts(a[5]);
            int rc = s->CartToJnt(jnts(a[0]), jnts(a[1]), r, jacobian(a[2]), jnts(a[3]), wrenches(a[4]), ff, ct);
            out = ret(r, ct);
            return rc;
        };
    } else if (kind == "treeid") {
        auto s = std::make_shared<TreeIdSolver_RNE>(t, vec(set["g"]));
        x.s = s;
        x.call = [s](const J& a, J& out) { JntArray r = sized(a[3]); int rc = s->CartToJnt(jnts(a[0]), jnts(a[1]), jnts(a[2]), WrenchMap(), r); out = js(r); return rc; };
    } else if (kind == "pinv") {
        auto s = std::make_shared<ChainIkSolverVel_pinv>(c, set["eps"].num());
        x.s = s;
        x.codes = {ChainIkSolverVel_pinv::E_CONVERGE_PINV_SINGULAR};
        velocity(s);
    } else if (kind == "givens") {
        auto s = std::make_shared<ChainIkSolverVel_pinv_givens>(c);
        x.s = s;
        velocity(s);
    } else if (kind == "nso") {
        auto s = std::make_shared<ChainIkSolverVel_pinv_nso>(c, set["eps"].num());
        x.s = s;
        x.set = [s](const std::string& what, const J& v) {
            if (what == "opt") return s->setOptPos(jnts(v));
            if (what == "w") return s->setWeights(jnts(v));
            return s->setAlpha(v.num());
        };
        velocity(s);
        x.set("opt", set["opt"]);
        x.set("w", set["w"]);
        x.set("alpha", set["alpha"]);
    } else if (kind == "wdls") {
        auto s = std::make_shared<ChainIkSolverVel_wdls>(c, set["eps"].num());
        x.s = s;
        x.codes = {ChainIkSolverVel_wdls::E_CONVERGE_PINV_SINGULAR};
        x.set = [s](const std::string& what, const J& v) {
            if (what == "mq") return s->setWeightJS(matrix(v));
            if (what == "mx") return s->setWeightTS(matrix(v));
            s->setLambda(v.num());
            return 0;
        };
        velocity(s);
        x.set("mq", set["mq"]);
        x.set("mx", set["mx"]);
        x.set("lambda", set["lambda"]);
    } else if (kind == "nr" || kind == "nrjl") {
        auto fk = std::make_shared<ChainFkSolverPos_recursive>(c);
        auto v = std::make_shared<ChainIkSolverVel_pinv>(c);
        x.kid = std::shared_ptr<SolverI>(v.get(), [v](SolverI*) {});
        if (kind == "nr") {
            auto s = std::shared_ptr<ChainIkSolverPos_NR>(new ChainIkSolverPos_NR(c, *fk, *v, set["maxiter"].integer(), set["eps"].num()), [fk, v](ChainIkSolverPos_NR* p) { delete p; });
            x.s = s;
            x.codes = {ChainIkSolverPos_NR::E_IKSOLVER_FAILED, ChainIkSolverPos_NR::E_FKSOLVERPOS_FAILED};
            position(s);
        } else {
            auto s = std::shared_ptr<ChainIkSolverPos_NR_JL>(new ChainIkSolverPos_NR_JL(c, *fk, *v, set["maxiter"].integer(), set["eps"].num()), [fk, v](ChainIkSolverPos_NR_JL* p) { delete p; });
            x.s = s;
            x.codes = {ChainIkSolverPos_NR_JL::E_IKSOLVERVEL_FAILED, ChainIkSolverPos_NR_JL::E_FKSOLVERPOS_FAILED};
            x.set = [s](const std::string&, const J& v) { return s->setJointLimits(jnts(v[0]), jnts(v[1])); };
            position(s);
            if (set["lim"].size()) x.set("lim", set["lim"]);
        }
    } else if (kind == "lma") {
        auto s = std::make_shared<ChainIkSolverPos_LMA>(c, set["eps"].num(), set["maxiter"].integer());
        x.s = s;
        x.codes = {ChainIkSolverPos_LMA::E_GRADIENT_JOINTS_TOO_SMALL, ChainIkSolverPos_LMA::E_INCREMENT_JOINTS_TOO_SMALL};
        position(s);
    } else if (kind == "est") {
        auto s = std::make_shared<ChainExternalWrenchEstimator>(c, vec(set["g"]), set["freq"].num(), set["gain"].num(), set["filter"].num(), set["eps"].num());
        x.s = s;
        x.codes = {ChainExternalWrenchEstimator::E_FKSOLVERPOS_FAILED, ChainExternalWrenchEstimator::E_JACSOLVER_FAILED, ChainExternalWrenchEstimator::E_DYNPARAMSOLVERMASS_FAILED,
                   ChainExternalWrenchEstimator::E_DYNPARAMSOLVERCORIOLIS_FAILED, ChainExternalWrenchEstimator::E_DYNPARAMSOLVERGRAVITY_FAILED};
        x.call = [s](const J& a, J& out) {
            s->setInitialMomentum(jnts(a[0]), jnts(a[1]));
            Wrench w(Vector(7, 7, 7), Vector(7, 7, 7));
            s->JntToExtWrench(jnts(a[0]), jnts(a[1]), jnts(a[2]), w);
            int rc = s->JntToExtWrench(jnts(a[0]), jnts(a[1]), jnts(a[2]), w);
            out = js(w);
            return rc;
        };
    } else throw std::runtime_error("script: no solver " + kind);
    return x;
}

struct Life {
    std::string kind;
    Chain c;
    Tree t;
    Aged x;
    void assign(const J& segs) {
        Chain d;
        Tree u("root");
        for (size_t i = 0; i < segs.size(); ++i) { d.addSegment(segment(segs[i])); u.addSegment(segment(segs[i]), i ? segs[i - 1]["n"].str() : "root"); }
        c = d;
        t = u;
    }
    void add(const J& s) {
        t.addSegment(segment(s), c.getNrOfSegments() ? c.segments.back().getName() : "root");
        c.addSegment(segment(s));
    }
};
Heap<Life>& lives() { static Heap<Life> h; return h; }
}
// a: name, kind, segments, settings
OP("l.new") {
    Life* l = new Life;
    lives().put(a[0], l);
    l->kind = a[1].str();
    l->assign(a[2]);
    l->x = make(l->kind, l->c, l->t, a[3]);
    return ret(l->x.s->getError());
}
OP("l.add") {
    Life& l = lives()(a[0]);
    l.add(a[1]);
    return ret(l.x.s->getError());
}
OP("l.assign") {
    Life& l = lives()(a[0]);
    l.assign(a[1]);
    return ret(l.x.s->getError());
}
OP("l.update") {
    Life& l = lives()(a[0]);
    l.x.s->updateInternalDataStructures();
    return ret(l.x.s->getError());
}
// tells only the inner solver
OP("l.inner") {
    Life& l = lives()(a[0]);
    l.x.kid->updateInternalDataStructures();
    return ret(l.x.s->getError());
}
// a: name, what, value
OP("l.set") {
    Life& l = lives()(a[0]);
    int rc = l.x.set(a[1].str(), a[2]);
    return ret(rc, l.x.s->getError());
}
OP("l.other") {
    Life& l = lives()(a[0]);
    int rc = l.x.other();
    return ret(rc, l.x.s->getError());
}
// a: name, arguments, the settings it has by now
OP("l.call") {
    Life& l = lives()(a[0]);
    J out, fresh;
    int rc = l.x.call(a[1], out), err = l.x.s->getError();
    Aged y = make(l.kind, l.c, l.t, a[2]);
    int rf = y.call(a[1], fresh);
    return ret(rc, err, std::string(l.x.s->strError(err)) != l.x.s->strError(-12345), out, rf, fresh);
}
// the texts for all errors of a solver
OP("l.texts") {
    Life& l = lives()(a[0]);
    std::vector<int> codes = l.x.codes;
    for (int k = -8; k <= 1; ++k) codes.push_back(k);
    J r = J::arr();
    for (int k : codes) r.push(ret(k, std::string(l.x.s->strError(k))));
    return ret(r, std::string(l.x.s->strError(-12345)), l.x.s->getError());
}
OP("l.drop") {
    lives().drop(a[0]);
    return none();
}
