// Rotational, rigid-body and articulated-body inertias.
#include "driver.hpp"
#include "inertia.hpp"
using namespace KDL;

OP("i.rot") {
    RotationalInertia x = rinertia(a[0]), y = rinertia(a[1]);
    double s = a[2].num();
    return ret3(m9(x.data)).push(m9((s * x).data)).push(m9((x + y).data)).push(js(x * vec(a[3]))).push(m9(RotationalInertia::Zero().data)).push(m9(RotationalInertia().data));
}
OP("i.rb") {
    RigidBodyInertia x = rbi(a[0]), y = rbi(a[1]);
    double s = a[2].num();
    Twist t = twist(a[3]);
    Frame f = frame(a[4]);
    Rotation m = rot(a[5]);
    Vector p = vec(a[6]);
    J r = J::arr({js(x), js(s * x), js(x + y), js(f * x), js(m * x), js(x.RefPoint(p)), js(f * (m * x).RefPoint(p) + s * y), js(RigidBodyInertia::Zero()), js(RigidBodyInertia())});
    RigidBodyInertia z = x;
    z = z + z;
    r.push(js(z));
    z = f * z;
    r.push(js(z));
    return r.push(js(x * t)).push(J(x.getMass())).push(js(x.getCOG())).push(js(x.getSpatialMomentum())).push(m9(x.getRotationalInertia().data)).push(js(RigidBodyInertia::Zero().getCOG()));
}
OP("i.ab") {
    ArticulatedBodyInertia x = abi(a[0]), y = abi(a[1]);
    double s = a[2].num();
    Twist t = twist(a[3]);
    Frame f = frame(a[4]);
    Rotation m = rot(a[5]);
    Vector p = vec(a[6]);
    RigidBodyInertia b = rbi(a[7]);
    ArticulatedBodyInertia c(a[7]["m"].num(), vec(a[7]["c"]), rinertia(a[7]["I"]));
    J r = J::arr({js(x), js(s * x), js(x + y), js(x - y), js(f * x), js(m * x), js(x.RefPoint(p)), js(ArticulatedBodyInertia(b)), js(c), js(x + b), js(x - b),
                  js(f * ArticulatedBodyInertia(b)), js(m * ArticulatedBodyInertia(b)), js(ArticulatedBodyInertia(b).RefPoint(p)), js(ArticulatedBodyInertia::Zero()), js(ArticulatedBodyInertia())});
    return r.push(js(x * t)).push(js(ArticulatedBodyInertia(b) * t)).push(js(b + x)).push(js(b - x));
}
