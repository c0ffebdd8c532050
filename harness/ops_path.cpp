// Paths and trajectories, built from expressions.
#include "motion.hpp"
#include <path_circle.hpp>
#include <path_composite.hpp>
#include <path_cyclic_closed.hpp>
#include <path_line.hpp>
#include <path_point.hpp>
#include <path_roundedcomposite.hpp>
#include <rotational_interpolation_sa.hpp>

#include <trajectory_composite.hpp>
#include <trajectory_segment.hpp>
#include <trajectory_stationary.hpp>
#include <utilities/error.h>
#include <velocityprofile_dirac.hpp>
#include <velocityprofile_rect.hpp>
#include <velocityprofile_spline.hpp>
#include <velocityprofile_trap.hpp>
#include <velocityprofile_traphalf.hpp>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace KDL;

namespace {
RotationalInterpolation* orientOf(const J& x, Kept& kept) {
    auto* o = new RotationalInterpolation_SingleAxis;
    if (!x["own"].boolean()) kept.orients.emplace_back(o);
    return o;
}
}
// x: the expression; errors: of the points of a rounded path
Path* build(const J& x, Kept& kept, J& errors) {
    const std::string k = x["k"].str();
    if (k == "point") return new Path_Point(frame(x["f"]));
    if (k == "line") return new Path_Line(frame(x["f"]), frame(x["to"]), orientOf(x, kept), x["eq"].num(), x["own"].boolean());
    if (k == "twist") return new Path_Line(frame(x["f"]), twist(x["t"]), orientOf(x, kept), x["eq"].num(), x["own"].boolean());
    if (k == "circle")
        return new Path_Circle(frame(x["f"]), vec(x["c"]), vec(x["p"]), rot(x["m"]), x["alpha"].num(), orientOf(x, kept), x["eq"].num(), x["own"].boolean());
    if (k == "comp") {
        std::unique_ptr<Path_Composite> c(new Path_Composite);
        for (size_t i = 0; i < x["parts"].size(); ++i) {
            Path* p = build(x["parts"][i], kept, errors);
            bool mine = x["mine"][i].boolean();
            if (!mine) kept.parts.emplace_back(p);
            c->Add(p, mine);
            c->Pos(c->PathLength());        // being used in between must not matter
        }
        return c.release();
    }
    if (k == "round") {
        std::unique_ptr<Path_RoundedComposite> c(new Path_RoundedComposite(x["rad"].num(), x["eq"].num(), orientOf(x, kept), x["own"].boolean()));
        errors = J::arr();
        for (size_t i = 0; i < x["pts"].size(); ++i) {
            int err = 0;
            try { c->Add(frame(x["pts"][i])); } catch (Error_MotionPlanning& e) { err = e.GetType(); }
            errors.push(J(err));
        }
        c->Finish();
        return c.release();
    }
    if (k != "cyc") throw std::runtime_error("script: no path " + k);
    Path* p = build(x["part"], kept, errors);
    bool mine = x["mine"].boolean();
    if (!mine) kept.parts.emplace_back(p);
    return new Path_Cyclic_Closed(p, x["n"].integer(), mine);
}

namespace {
template<class C> J segmentsOf(C& c) {
    int n = c.GetNrOfSegments();
    J ends = J::arr(), lens = J::arr();
    for (int i = 0; i < n; ++i) { ends.push(J(c.GetLengthToEndOfSegment(i))); lens.push(J(c.GetSegment(i)->PathLength())); }
    return ret(n, ends, lens);
}
}
// a: expression, fractions of the length, speed, acceleration, a length
J look(Path& p, const J& a, const J& errors) {
    double len = p.PathLength();
    auto* comp = dynamic_cast<Path_Composite*>(&p);
    auto* round = dynamic_cast<Path_RoundedComposite*>(&p);
    J rows = J::arr(), segs = J::arr();
    for (size_t i = 0; i < a[1].size(); ++i) {
        double s = a[1][i].num() * len;
        Frame f;
        Twist v, acc;
        int seg = 0;
        double inner = 0;
        for (size_t k = 0; k < 4; ++k)      // each of the four may be the one asked first
            switch ((i + k) % 4) {
            case 0: f = p.Pos(s); break;
            case 1: v = p.Vel(s, a[2].num()); break;
            case 2: acc = p.Acc(s, a[2].num(), a[3].num()); break;
            case 3:
                if (comp) comp->GetCurrentSegmentLocation(s, seg, inner);
                if (round) round->GetCurrentSegmentLocation(s, seg, inner);
            }
        rows.push(ret(s, f, v, acc, seg, inner));
    }
    if (comp) segs = segmentsOf(*comp);
    if (round) segs = segmentsOf(*round);
    int err = 0;
    double lts = 0;
    try { lts = p.LengthToS(a[4].num()); } catch (Error_MotionPlanning& e) { err = e.GetType(); }
    int id = p.getIdentifier();
    return ret(0, errors, id, len, rows, segs, ret(err, lts));
}
static J refused(int type) { return ret(type, none(), 0, 0.0, none(), none(), none()); }

VelocityProfile* newProfile(const std::string& k, const J& lim) {
    if (k == "Trap") return new VelocityProfile_Trap(lim[0].num(), lim[1].num());
    if (k == "TrapHalf") return new VelocityProfile_TrapHalf(lim[0].num(), lim[1].num(), lim[2].boolean());
    if (k == "Rect") return new VelocityProfile_Rectangular(lim[0].num());
    if (k == "Dirac") return new VelocityProfile_Dirac;
    return new VelocityProfile_Spline;
}
VelocityProfile* profileOf(const J& y, double len) {
    const std::string k = y["kind"].str(), how = y["how"].str();
    double from = y["from"].num() * len, to = y["to"].num() * len, dur = y["dur"].num();
    VelocityProfile* p = newProfile(k, y["lim"]);
    if (how == "set") p->SetProfile(from, to);
    if (how == "setdur") p->SetProfileDuration(from, to, dur);
    if (how == "setat") dynamic_cast<VelocityProfile_Trap&>(*p).SetProfileVelocity(from, to, dur);
    if (how == "spline") dynamic_cast<VelocityProfile_Spline&>(*p).SetProfileDuration(from, 0, 0, to, 0, 0, dur);
    return p;
}
Trajectory* buildTraj(const J& x, Kept& kept) {
    const std::string k = x["k"].str();
    if (k == "still") return new Trajectory_Stationary(x["dur"].num(), frame(x["pos"]));
    if (k == "comp") {
        std::unique_ptr<Trajectory_Composite> c(new Trajectory_Composite);
        if (x["before"].boolean()) {        // emptied and used again
            c->Add(new Trajectory_Stationary(3.0, Frame::Identity()));
            c->Destroy();
        }
        for (size_t i = 0; i < x["parts"].size(); ++i) c->Add(buildTraj(x["parts"][i], kept));
        return c.release();
    }
    J errors;
    Path* p = build(x["path"], kept, errors);
    VelocityProfile* v = profileOf(x["prof"], p->PathLength());
    bool own = x["own"].boolean();
    if (!own) {
        kept.paths.emplace_back(p);
        kept.profiles.emplace_back(v);
    }
    Trajectory_Segment* t = x["prof"]["how"].str() == "ctor" ? new Trajectory_Segment(p, v, x["prof"]["dur"].num(), own) : new Trajectory_Segment(p, v, own);
    if (t->GetPath() != p || t->GetProfile() != v) throw std::logic_error("a segment has lost its parts");
    return t;
}
// a: expression, fractions of the duration, times
J lookTraj(const Trajectory& t, const J& a) {
    double dur = t.Duration();
    J rows = J::arr();
    std::vector<double> ts;
    for (size_t k = 0; k < a[1].size(); ++k) ts.push_back(a[1][k].num() * dur);
    for (size_t k = 0; k < a[2].size(); ++k) ts.push_back(a[2][k].num());
    for (double s : ts) {
        Frame f = t.Pos(s);
        Twist v = Twist::Zero(), acc = Twist::Zero();
        int ev = 0, ea = 0;
        try { v = t.Vel(s); } catch (Error& e) { ev = e.GetType(); }
        try { acc = t.Acc(s); } catch (Error& e) { ea = e.GetType(); }
        rows.push(ret(s, f, ev, v, ea, acc));
    }
    return ret(dur, rows);
}

namespace {
J lifeOfPath(const J& a) {
    J seen = J::arr();
    Kept kept;
    try {
        J errors = J::arr();
        std::unique_ptr<Path> p(build(a[0], kept, errors));
        seen.push(look(*p, a, errors));
        std::unique_ptr<Path> c(p->Clone()), spare(p->Clone());
        seen.push(look(*c, a, errors));
        p.reset();
        kept.parts.clear();
        seen.push(look(*c, a, errors));
        std::unique_ptr<Path> d(c->Clone());
        c.reset();
        seen.push(look(*d, a, errors));
        d.reset();
        seen.push(look(*spare, a, errors));
    } catch (Error_MotionPlanning& e) {
        seen.push(refused(e.GetType()));
    }
    return seen;
}
J lifeOfTraj(const J& a) {
    J seen = J::arr();
    Kept kept;
    std::unique_ptr<Trajectory> t(buildTraj(a[0], kept));
    seen.push(lookTraj(*t, a));
    std::unique_ptr<Trajectory> c(t->Clone());
    seen.push(lookTraj(*c, a));
    t.reset();
    seen.push(lookTraj(*c, a));
    std::unique_ptr<Trajectory> d(c->Clone());
    c.reset();
    seen.push(lookTraj(*d, a));
    return seen;
}
// the second run of f shows what is left behind
template<class F> int leftBy(F f, const J& a) {
    f(a);
    size_t before = __sanitizer_get_current_allocated_bytes();
    f(a);
    return static_cast<int>(__sanitizer_get_current_allocated_bytes() - before);
}
}

// a: start, end, fractions of the angle, speed, acceleration
OP("o.look") {
    RotationalInterpolation_SingleAxis o;
    o.SetStartEnd(rot(a[0]), rot(a[1]));
    std::unique_ptr<RotationalInterpolation> c(o.Clone());
    double angle = o.Angle(), again = c->Angle();
    auto rows = [&](RotationalInterpolation& x) {
        J r = J::arr();
        for (size_t k = 0; k < a[2].size(); ++k) {
            double t = a[2][k].num() * angle;
            r.push(ret(t, x.Pos(t), x.Vel(t, a[3].num()), x.Acc(t, a[3].num(), a[4].num())));
        }
        return r;
    };
    J first = rows(o);
    o.SetStartEnd(Rotation::RotX(1), Rotation::RotZ(2));
    if (angle != again) angle = again;
    return ret(angle, first, rows(*c));
}
OP("p.look") {
    Kept kept;
    try {
        J errors = J::arr();
        std::unique_ptr<Path> p(build(a[0], kept, errors));
        return look(*p, a, errors);
    } catch (Error_MotionPlanning& e) {
        return refused(e.GetType());
    }
}
OP("p.life") {
    int left = leftBy(lifeOfPath, a);
    return ret(lifeOfPath(a), left);
}
OP("j.look") {
    Kept kept;
    std::unique_ptr<Trajectory> t(buildTraj(a[0], kept));
    return lookTraj(*t, a);
}
OP("j.life") {
    int left = leftBy(lifeOfTraj, a);
    return ret(lifeOfTraj(a), left);
}
