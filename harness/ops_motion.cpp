// Velocity profiles.
#include "mech.hpp"
#include "motion.hpp"
#include <utilities/error.h>
#include <velocityprofile_dirac.hpp>
#include <velocityprofile_rect.hpp>
#include <velocityprofile_spline.hpp>
#include <velocityprofile_trap.hpp>
#include <velocityprofile_traphalf.hpp>
using namespace KDL;

Heap<VelocityProfile>& profiles() { static Heap<VelocityProfile> h; return h; }

// a: name, kind, limits
OP("m.new") {
    VelocityProfile* p = newProfile(a[1].str(), a[2]);
    profiles().put(a[0], p);
    return none();
}
// a: name, from, to
OP("m.set") {
    profiles()(a[0]).SetProfile(a[1].num(), a[2].num());
    return none();
}
OP("m.setdur") {
    profiles()(a[0]).SetProfileDuration(a[1].num(), a[2].num(), a[3].num());
    return none();
}
OP("m.setat") {
    dynamic_cast<VelocityProfile_Trap&>(profiles()(a[0])).SetProfileVelocity(a[1].num(), a[2].num(), a[3].num());
    return none();
}
OP("m.spline") {
    auto& s = dynamic_cast<VelocityProfile_Spline&>(profiles()(a[0]));
    if (a.size() == 6) s.SetProfileDuration(a[1].num(), a[2].num(), a[3].num(), a[4].num(), a[5].num());
    else s.SetProfileDuration(a[1].num(), a[2].num(), a[3].num(), a[4].num(), a[5].num(), a[6].num(), a[7].num());
    return none();
}
OP("m.max") {
    VelocityProfile& p = profiles()(a[0]);
    if (auto* t = dynamic_cast<VelocityProfile_Trap*>(&p)) t->SetMax(a[1][0].num(), a[1][1].num());
    else if (auto* u = dynamic_cast<VelocityProfile_TrapHalf*>(&p)) u->SetMax(a[1][0].num(), a[1][1].num(), a[1][2].boolean());
    else dynamic_cast<VelocityProfile_Rectangular&>(p).SetMax(a[1][0].num());
    return none();
}
OP("m.clone") {
    VelocityProfile* c = profiles()(a[1]).Clone();
    profiles().put(a[0], c);
    return none();
}
OP("m.drop") {
    profiles().drop(a[0]);
    return none();
}
// a: -, fractions of the duration, times
J lookProfile(const VelocityProfile& p, const J& a) {
    double d = p.Duration();
    J rows = J::arr();
    std::vector<double> ts;
    for (size_t k = 0; k < a[1].size(); ++k) ts.push_back(a[1][k].num() * d);
    for (size_t k = 0; k < a[2].size(); ++k) ts.push_back(a[2][k].num());
    for (double t : ts) {
        double pos = p.Pos(t), v = 0, acc = 0;
        int ev = 0, ea = 0;
        try { v = p.Vel(t); } catch (Error& e) { ev = e.GetType(); }
        try { acc = p.Acc(t); } catch (Error& e) { ea = e.GetType(); }
        rows.push(ret(t, pos, ev, v, ea, acc));
    }
    return ret(d, rows);
}
OP("m.look") { return lookProfile(profiles()(a[0]), a); }
