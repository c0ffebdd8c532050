#pragma once
#include "driver.hpp"
#include <articulatedbodyinertia.hpp>
#include <rigidbodyinertia.hpp>
#include <rotationalinertia.hpp>

inline KDL::RotationalInertia rinertia(const J& j) {
    return KDL::RotationalInertia(j[0].num(), j[1].num(), j[2].num(), j[3].num(), j[4].num(), j[5].num());
}
inline KDL::RigidBodyInertia rbi(const J& j) { return KDL::RigidBodyInertia(j["m"].num(), vec(j["c"]), rinertia(j["I"])); }
inline Eigen::Matrix3d mat3(const J& j) {
    Eigen::Matrix3d m;
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) m(i, k) = j[i][k].num();
    return m;
}
inline KDL::ArticulatedBodyInertia abi(const J& j) { return KDL::ArticulatedBodyInertia(mat3(j["M"]), mat3(j["H"]), mat3(j["I"])); }
inline J m9(const double* d) {
    J m = J::arr();
    for (int i = 0; i < 3; ++i) m.push(J::arr({J(d[3 * i]), J(d[3 * i + 1]), J(d[3 * i + 2])}));
    return m;
}
inline J js(const Eigen::Matrix3d& e) {
    J m = J::arr();
    for (int i = 0; i < 3; ++i) m.push(J::arr({J(e(i, 0)), J(e(i, 1)), J(e(i, 2))}));
    return m;
}
inline J js(const KDL::RigidBodyInertia& b) {
    return J::obj().set("m", J(b.getMass())).set("h", js(b.getSpatialMomentum())).set("I", m9(b.getRotationalInertia().data));
}
inline J js(const KDL::ArticulatedBodyInertia& b) { return J::obj().set("M", js(b.M)).set("H", js(b.H)).set("I", js(b.I)); }
inline J ret3(const J& j) { return J::arr({j}); }
