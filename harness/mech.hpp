// Joints, segments, chains and trees, built from and described as JSON.
#pragma once
#include "inertia.hpp"
#include <chain.hpp>
#include <chainidsolver.hpp>
#include <jacobian.hpp>
#include <jntarray.hpp>
#include <jntarrayacc.hpp>
#include <jntarrayvel.hpp>
#include <joint.hpp>
#include <segment.hpp>
#include <tree.hpp>

inline KDL::Joint::JointType jtype(const std::string& s) {
    using KDL::Joint;
    static const std::map<std::string, Joint::JointType> m = {
        {"RotAxis", Joint::RotAxis}, {"RotX", Joint::RotX}, {"RotY", Joint::RotY}, {"RotZ", Joint::RotZ}, {"TransAxis", Joint::TransAxis},
        {"TransX", Joint::TransX}, {"TransY", Joint::TransY}, {"TransZ", Joint::TransZ}, {"Fixed", Joint::Fixed}};
    return m.at(s);
}
inline KDL::Joint joint(const J& j) {
    KDL::Joint::JointType k = jtype(j["k"].str());
    if (k == KDL::Joint::RotAxis || k == KDL::Joint::TransAxis)
        return KDL::Joint(j["n"].str(), vec(j["o"]), vec(j["a"]), k, j["s"].num(), j["f"].num(), j["i"].num(), j["d"].num(), j["t"].num());
    return KDL::Joint(j["n"].str(), k, j["s"].num(), j["f"].num(), j["i"].num(), j["d"].num(), j["t"].num());
}
inline KDL::Segment segment(const J& j) { return KDL::Segment(j["n"].str(), joint(j["j"]), frame(j["tip"]), rbi(j["in"])); }
inline KDL::JntArray jnts(const J& j) {
    KDL::JntArray q(j.size());
    for (size_t i = 0; i < j.size(); ++i) q(i) = j[i].num();
    return q;
}
inline J js(const Eigen::VectorXd& v) {
    J r = J::arr();
    for (int i = 0; i < v.size(); ++i) r.push(J(v(i)));
    return r;
}
inline J js(const Eigen::MatrixXd& m) {
    J r = J::arr();
    for (int i = 0; i < m.rows(); ++i) { J row = J::arr(); for (int k = 0; k < m.cols(); ++k) row.push(J(m(i, k))); r.push(row); }
    return r;
}
namespace KDL {     // found by argument-dependent lookup
using ::js;
inline J js(const KDL::Joint& j) {
    return J::obj().set("n", J(j.getName())).set("k", J(j.getTypeName())).set("o", js(j.JointOrigin())).set("a", js(j.JointAxis())).set("s", J(j.getScale()))
        .set("f", J(j.getOffset())).set("i", J(j.getInertia())).set("d", J(j.getDamping())).set("t", J(j.getStiffness()));
}
inline J js(const KDL::Segment& s) {
    return J::obj().set("n", J(s.getName())).set("j", js(s.getJoint())).set("tip", js(s.getFrameToTip())).set("in", js(s.getInertia()));
}
inline J js(const KDL::Chain& c) {
    J segs = J::arr();
    for (unsigned i = 0; i < c.getNrOfSegments(); ++i) segs.push(js(c.getSegment(i)));
    return J::obj().set("nj", J(c.getNrOfJoints())).set("ns", J(c.getNrOfSegments())).set("size", J((int)c.segments.size())).set("segs", segs);
}
inline J js(const KDL::JntArray& q) { return js(Eigen::VectorXd(q.data)); }
inline J js(const KDL::Jacobian& m) {       // by columns
    J r = J::arr();
    for (unsigned i = 0; i < m.columns(); ++i) r.push(js(m.getColumn(i)));
    return r;
}
}
inline KDL::Jacobian jacobian(const J& j) {
    KDL::Jacobian m(j.size());
    for (unsigned i = 0; i < j.size(); ++i) m.setColumn(i, twist(j[i]));
    return m;
}
inline std::vector<bool> bools(const J& j) { std::vector<bool> v; for (size_t i = 0; i < j.size(); ++i) v.push_back(j[i].boolean()); return v; }
inline KDL::Wrenches wrenches(const J& j) { KDL::Wrenches w; for (size_t i = 0; i < j.size(); ++i) w.push_back(wrench(j[i])); return w; }

Heap<KDL::Chain>& chains();
Heap<KDL::Tree>& trees();
