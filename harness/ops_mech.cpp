// Joints, segments, chains, trees, forward kinematics and Jacobians.
#include "mech.hpp"
#include <chainfksolverpos_recursive.hpp>
#include <chainfksolvervel_recursive.hpp>
#include <chainjnttojacdotsolver.hpp>
#include <chainjnttojacsolver.hpp>
#include <treefksolverpos_recursive.hpp>
#include <treejnttojacsolver.hpp>
#include <frames_io.hpp>
#include <kinfam_io.hpp>
#include <utilities/error.h>
#include <utilities/error_stack.h>
#include <sstream>
using namespace KDL;

Heap<Chain>& chains() { static Heap<Chain> h; return h; }
Heap<Tree>& trees() { static Heap<Tree> h; return h; }

// ---- joints and segments
// a: kind, form of the constructor (axis or not, named or not), origin, axis, scale, offset, inertia, damping, stiffness
OP("jnt.make") {
    Joint::JointType k = jtype(a[0].str());
    bool axis = a[1].boolean(), named = a[2].boolean();
    double s = a[5].num(), f = a[6].num(), i = a[7].num(), d = a[8].num(), t = a[9].num();
    try {
        if (axis && named) return ret(js(Joint("joint", vec(a[3]), vec(a[4]), k, s, f, i, d, t)));
        if (axis) return ret(js(Joint(vec(a[3]), vec(a[4]), k, s, f, i, d, t)));
        if (named) return ret(js(Joint("joint", k, s, f, i, d, t)));
        return ret(js(Joint(k, s, f, i, d, t)));
    } catch (std::exception&) {
        return J::arr({J("refused")});
    }
}
OP("jnt.motion") {
    Joint j = joint(a[0]);
    double q = a[1].num(), qd = a[2].num();
    Joint copy(j), other;
    other = j;
    return ret(j, j.pose(q), j.twist(qd), copy.pose(q), other.pose(q), j.pose(q), other.twist(qd));
}
OP("seg.motion") {
    Segment s = segment(a[0]);
    double q = a[1].num(), qd = a[2].num();
    Frame f = frame(a[3]);
    Segment copy(s), other;
    other = s;
    J r = ret(s, s.pose(q), s.twist(q, qd), s.getFrameToTip(), s.pose(0), s.getFrameToTipZero());
    other.setFrameToTip(f);
    other.setInertia(rbi(a[4]));
    r.push(js(other)).push(js(other.pose(q))).push(js(other.twist(q, qd))).push(js(copy));
    Segment unnamed(joint(a[0]["j"]), f);
    return r.push(js(unnamed));
}

// ---- chains
OP("c.new") {
    Chain* c = new Chain;
    chains().put(a[0], c);
    for (size_t i = 0; i < a[1].size(); ++i) c->addSegment(segment(a[1][i]));
    return ret(*c);
}
OP("c.add") { chains()(a[0]).addSegment(segment(a[1])); return ret(chains()(a[0])); }
OP("c.addown") { Chain& c = chains()(a[0]); c.addSegment(c.getSegment(a[1].integer())); return ret(c); }
OP("c.addchain") { chains()(a[0]).addChain(chains()(a[1])); return ret(chains()(a[0])); }
OP("c.copy") { chains().put(a[0], new Chain(chains()(a[1]))); return ret(chains()(a[0])); }
OP("c.assign") { chains()(a[0]) = static_cast<const Chain&>(chains()(a[1])); return ret(chains()(a[0])); }
OP("c.seti") { chains()(a[0]).getSegment(a[1].integer()).setInertia(rbi(a[2])); return ret(chains()(a[0])); }
OP("c.settip") { chains()(a[0]).getSegment(a[1].integer()).setFrameToTip(frame(a[2])); return ret(chains()(a[0])); }
OP("c.look") { return ret(chains()(a[0])); }
// r: of every segment the name, the name of its joint, its kind, axis, origin and the tip, as they are written
OP("c.text") {
    std::ostringstream os;
    os.precision(15);
    os << chains()(a[0]);
    const std::string s = os.str();
    J segs = J::arr();
    if (s.empty() || s[0] != '[' || s[s.size() - 1] != ']') return J::arr({segs, J(false)});
    size_t i = 1;
    bool ok = true;
    auto until = [&](const std::string& mark) {
        size_t at = s.find(mark, i);
        if (at == std::string::npos) { ok = false; return std::string("?"); }
        std::string w = s.substr(i, at - i);
        i = at + mark.size();
        return w;
    };
    while (ok && i + 1 < s.size()) {
        std::string n = until(":["), j = until(":["), k = until(", axis: ");
        Vector x, o;
        Frame f;
        try {
            std::istringstream(until(", origin")) >> x;
            std::istringstream(until("],\n tip: \n") ) >> o;
            std::istringstream(until("]]\n") + "]") >> f;
        } catch (Error&) { ok = false; IOTracePop(); }
        segs.push(ret(n, j, k, x, o, f));
    }
    return J::arr({segs, J(ok)});
}
OP("c.drop") { chains().drop(a[0]); return none(); }

static J jsv(const std::vector<Frame>& v) { J r = J::arr(); for (auto& f : v) r.push(js(f)); return r; }
static J jsf(const FrameVel& f) { return J::obj().set("F", js(f.GetFrame())).set("T", js(f.GetTwist())); }
// a: chain, q, qdot, segment number, how many frames to ask for
OP("c.fk") {
    const Chain& c = chains()(a[0]);
    JntArray q = jnts(a[1]), qd = jnts(a[2]);
    int nr = a[3].integer();
    unsigned len = a[4].integer();
    ChainFkSolverPos_recursive pos(c);
    ChainFkSolverVel_recursive vel(c);
    J r = J::arr();
    Frame f;
    int rc = nr == -1 && q.rows() % 2 ? pos.JntToCart(q, f) : pos.JntToCart(q, f, nr);
    r.push(J(rc)).push(J(pos.getError())).push(js(f));
    std::vector<Frame> v(len);
    rc = pos.JntToCart(q, v, nr);
    r.push(J(rc)).push(J(pos.getError())).push(jsv(v));
    JntArrayVel qv(q, JntArray(q));
    qv.qdot = qd;
    FrameVel fv;
    rc = vel.JntToCart(qv, fv, nr);
    r.push(J(rc)).push(J(vel.getError())).push(jsf(fv));
    std::vector<FrameVel> vv(len);
    rc = vel.JntToCart(qv, vv, nr);
    J l = J::arr();
    for (auto& x : vv) l.push(jsf(x));
    return r.push(J(rc)).push(J(vel.getError())).push(l);
}
// a: chain, q, segment number, locks, columns
OP("c.jac") {
    const Chain& c = chains()(a[0]);
    ChainJntToJacSolver s(c);
    int rl = s.setLockedJoints(bools(a[3])), el = s.getError();
    Jacobian m(a[4].integer());
    m.data.setConstant(7.0);
    int rc = s.JntToJac(jnts(a[1]), m, a[2].integer());
    int e = s.getError();
    J first = js(m);
    int rc2 = s.JntToJac(jnts(a[1]), m, a[2].integer());
    return J::arr({J(rl), J(el), J(rc), J(e), first, J(rc2), js(m)});
}
// a: chain, q, qdot, segment number, locks, representation, columns
OP("c.jdot") {
    const Chain& c = chains()(a[0]);
    ChainJntToJacDotSolver s(c);
    int rl = s.setLockedJoints(bools(a[4])), el = s.getError();
    const std::string& k = a[5].str();
    if (k == "hybrid") s.setHybridRepresentation();
    else if (k == "body") s.setBodyFixedRepresentation();
    else if (k == "inertial") s.setInertialRepresentation();
    else if (k == "nonsense") { s.setBodyFixedRepresentation(); s.setRepresentation(17); }      // stays body-fixed
    JntArrayVel q(jnts(a[1]), JntArray(a[1].size()));
    q.qdot = jnts(a[2]);
    Jacobian m(a[6].integer());
    m.data.setConstant(7.0);
    int nr = a[3].integer();
    int rc = s.JntToJacDot(q, m, nr), e = s.getError();
    Twist t(Vector(5, 5, 5), Vector(5, 5, 5));
    int rc2 = s.JntToJacDot(q, t, nr), e2 = s.getError();
    return J::arr({J(rl), J(el), J(rc), J(e), js(m), J(rc2), J(e2), js(t)});
}
// a: columns, rotation, point, frame, joint velocities, other columns, eps
OP("jac.ops") {
    Jacobian m = jacobian(a[0]), o = jacobian(a[5]);
    Rotation r = rot(a[1]);
    Vector p = vec(a[2]);
    Frame f = frame(a[3]);
    unsigned n = m.columns();
    Jacobian x(m), y(n), z(n), w = m, u(m), v(m), bad(n + 1);
    x.changeBase(r); w.changeRefPoint(p); u.changeRefFrame(f);
    J res = J::arr({js(x), js(w), js(u)});
    bool b1 = changeBase(m, r, y);
    res.push(js(y));
    bool b2 = changeRefPoint(m, p, z);
    res.push(js(z));
    bool b3 = changeRefFrame(m, f, v);
    res.push(js(v));
    Jacobian i(m), j(m), k(m);
    changeBase(i, r, i); changeRefPoint(j, p, j); changeRefFrame(k, f, k);
    res.push(js(i)).push(js(j)).push(js(k));
    res.push(J(b1 && b2 && b3)).push(J(changeBase(m, r, bad) || changeRefPoint(m, p, bad) || changeRefFrame(m, f, bad)));
    Twist t;
    MultiplyJacobian(m, jnts(a[4]), t);
    res.push(js(t)).push(J(m.rows())).push(J(m.columns()));
    double e = a[6].num();
    res.push(J(Equal(m, o, e))).push(J(Equal(o, m, e))).push(J(m == o)).push(J(m != o)).push(J(Equal(m, bad, e)));
    Jacobian s(m), g(m);
    SetToZero(s);
    res.push(js(s));
    bool same = true;
    for (unsigned c = 0; c < n; ++c) for (unsigned l = 0; l < 6; ++l) { same = same && m(l, c) == (l < 3 ? m.getColumn(c).vel(l) : m.getColumn(c).rot(l - 3)); g(l, c) = 2 * m(l, c); }
    res.push(J(same)).push(js(g));
    Jacobian h(m);
    h.resize(n + 2);
    Jacobian assigned(n + 3);
    assigned = m;
    return res.push(J(h.columns())).push(js(assigned));
}

// ---- trees
static J look(const Tree& t) {
    J el = J::obj();
    bool sane = true;
    for (auto& p : t.getSegments()) {
        const TreeElement& e = p.second;
        J kids = J::arr();
        for (auto& k : e.children) { kids.push(J(k->first)); sane = sane && t.getSegment(k->first) == k && k->second.parent->first == p.first; }
        bool root = p.first == t.getRootSegment()->first;
        sane = sane && e.segment.getName() == p.first && (root || t.getSegment(e.parent->first) == e.parent);
        el.set(p.first, J::obj().set("par", J(root ? std::string("") : e.parent->first)).set("q", J(e.q_nr)).set("kids", kids).set("seg", js(e.segment)));
    }
    return J::obj().set("nj", J(t.getNrOfJoints())).set("ns", J(t.getNrOfSegments())).set("root", J(t.getRootSegment()->first)).set("el", el).set("sane", J(sane));
}
OP("t.new") { trees().put(a[0], new Tree(a[1].str())); return J::arr({look(trees()(a[0]))}); }
OP("t.add") { bool b = trees()(a[0]).addSegment(segment(a[1]), a[2].str()); return J::arr({J(b), look(trees()(a[0]))}); }
OP("t.addchain") { bool b = trees()(a[0]).addChain(chains()(a[1]), a[2].str()); return J::arr({J(b), look(trees()(a[0]))}); }
OP("t.addtree") { bool b = trees()(a[0]).addTree(trees()(a[1]), a[2].str()); return J::arr({J(b), look(trees()(a[0]))}); }
OP("t.copy") { trees().put(a[0], new Tree(trees()(a[1]))); return J::arr({look(trees()(a[0]))}); }
OP("t.assign") { trees()(a[0]) = static_cast<const Tree&>(trees()(a[1])); return J::arr({look(trees()(a[0]))}); }
OP("t.sub") {
    if (a[0].str() == a[1].str()) {                 // the result may be the tree itself
        Tree& t = trees()(a[0]);
        bool b = t.getSubTree(a[2].str(), t);
        return J::arr({J(b), look(t)});
    }
    Tree* t = new Tree("elsewhere");
    bool b = trees()(a[1]).getSubTree(a[2].str(), *t);
    trees().put(a[0], t);
    return J::arr({J(b), look(*t)});
}
OP("t.chain") {
    Chain* c = new Chain;
    c->addSegment(Segment(Joint(Joint::RotX)));     // must be forgotten
    bool b = trees()(a[1]).getChain(a[2].str(), a[3].str(), *c);
    chains().put(a[0], c);
    return J::arr({J(b), js(*c)});
}
OP("t.look") { return J::arr({look(trees()(a[0]))}); }
// a: tree, separator, preamble.  r: level, name and number of every line; names and numbers in the other form
OP("t.text") {
    const Tree& t = trees()(a[0]);
    const std::string sep = a[1].str(), pre = a[2].str(), q = "(q_nr: ";
    J lines = J::arr(), names = J::arr();
    std::istringstream is(tree2str(t, sep, pre));
    for (std::string s; std::getline(is, s);) {
        size_t at = s.find(q);
        if (s.compare(0, pre.size(), pre) != 0 || at == std::string::npos || s[s.size() - 1] != ')') { lines.push(ret(-1, "?", 0)); continue; }
        size_t i = pre.size();
        int level = 0;
        while (!sep.empty() && s.compare(i, sep.size(), sep) == 0) { i += sep.size(); ++level; }
        lines.push(ret(level, s.substr(i, at - i), std::stoi(s.substr(at + q.size()))));
    }
    std::ostringstream os;
    os << t;
    std::istringstream words(os.str());
    for (std::string w, n; words >> w;) {
        size_t at = w.find("(q_nr:");
        if (at == std::string::npos || !(words >> n)) { names.push(ret("?", 0)); continue; }
        names.push(ret(w.substr(0, at), std::stoi(n)));
    }
    return J::arr({lines, names});
}
OP("t.drop") { trees().drop(a[0]); return none(); }
// a: tree, q, segment
OP("t.fk") {
    TreeFkSolverPos_recursive s(trees()(a[0]));
    Frame f;
    int rc = s.JntToCart(jnts(a[1]), f, a[2].str());
    return J::arr({J(rc), js(f)});
}
// a: tree, q, segment, columns
OP("t.jac") {
    TreeJntToJacSolver s(trees()(a[0]));
    Jacobian m(a[3].integer());
    m.data.setConstant(7.0);
    int rc = s.JntToJac(jnts(a[1]), m, a[2].str());
    return J::arr({J(rc), js(m)});
}
