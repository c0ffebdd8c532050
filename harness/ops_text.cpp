// Text: what is written, and what is read.
#include "mech.hpp"
#include "motion.hpp"
#include <frames_io.hpp>
#include <frameacc_io.hpp>
#include <framevel_io.hpp>
#include <kinfam_io.hpp>
#include <jntspaceinertiamatrix.hpp>
#include <utilities/error.h>
#include <utilities/rall1d_io.h>
#include <utilities/rall2d_io.h>
#include <utilities/error_stack.h>
#include <sstream>
using namespace KDL;

static J js(const Vector2& v) { return J::arr({J(v(0)), J(v(1))}); }
static J js(const Rotation2& r) { return J::arr({J(r(0, 0)), J(r(1, 0))}); }       // cosine and sine
static J js(const Frame2& f) { return J::obj().set("M", js(f.M)).set("p", js(f.p)); }
namespace {
Vector2 v2(const J& j) { return Vector2(j[0].num(), j[1].num()); }
Rotation2 r2(const J& j) { return Rotation2(j[0].num(), j[1].num()); }

template<class T> J readAs(std::istream& is, T x) {
    is >> x;
    return js(x);
}
// opts: how to look at paths, profiles, trajectories
J readOne(const std::string& kind, std::istream& is, const J& opts) {
    if (kind == "vector") return readAs(is, Vector(9, 9, 9));
    if (kind == "rotation") return readAs(is, Rotation::RotX(1));
    if (kind == "frame") return readAs(is, Frame(Rotation::RotX(1), Vector(9, 9, 9)));
    if (kind == "twist") return readAs(is, Twist(Vector(9, 9, 9), Vector(9, 9, 9)));
    if (kind == "wrench") return readAs(is, Wrench(Vector(9, 9, 9), Vector(9, 9, 9)));
    if (kind == "vector2") return readAs(is, Vector2(9, 9));
    if (kind == "rotation2") return readAs(is, Rotation2(1.0));
    if (kind == "frame2") return readAs(is, Frame2(Rotation2(1.0), Vector2(9, 9)));
    if (kind == "path") {
        std::unique_ptr<Path> p(Path::Read(is));
        return look(*p, opts["p"], J::arr());
    }
    if (kind == "profile") {
        std::unique_ptr<VelocityProfile> p(VelocityProfile::Read(is));
        J before = lookProfile(*p, opts["j"]);
        p->SetProfile(1, 2.5);
        return ret(before, lookProfile(*p, opts["j"]));
    }
    if (kind != "traj") throw std::runtime_error("script: cannot read a " + kind);
    std::unique_ptr<Trajectory> t(Trajectory::Read(is));
    return lookTraj(*t, opts["j"]);
}
// the numbers, words and punctuation of a text
J tokens(const std::string& text) {
    J r = J::arr();
    for (size_t i = 0; i < text.size();) {
        unsigned char c = text[i];
        if (isspace(c)) { ++i; continue; }
        if (strchr("[],;", c)) { r.push(ret(std::string("p"), std::string(1, c), 0)); ++i; continue; }
        if (isdigit(c) || c == '-' || c == '+' || c == '.') {
            char* end = 0;
            double d = strtod(text.c_str() + i, &end);
            size_t n = end - (text.c_str() + i);
            if (n) {
                std::string s = text.substr(i, n);
                if (s.find_first_of(".eEnN") == std::string::npos && s.size() < 10) r.push(ret(std::string("i"), std::string(), static_cast<int>(d)));
                else r.push(ret(std::string("n"), std::string(), d));
                i += n;
                continue;
            }
        }
        std::string w;
        while (i < text.size() && !isspace(static_cast<unsigned char>(text[i])) && !strchr("[],;", text[i])) w += static_cast<char>(toupper(text[i++]));
        r.push(ret(std::string("w"), w, 0));
    }
    return r;
}
void spell(std::string& out, const std::string& word, int style) {
    for (size_t i = 0; i < word.size(); ++i) {
        char c = word[i];
        bool low = style == 1 || (style == 2 && i > 0) || (style == 3 && i % 2);
        out += static_cast<char>(low ? tolower(c) : c);
    }
}
std::string textOf(const J& toks, const J& seps, int style) {
    std::string out;
    for (size_t i = 0; i < toks.size(); ++i) {
        out += seps[i].str();
        const std::string k = toks[i][0].str();
        char b[64];
        if (k == "n") { snprintf(b, sizeof b, "%.17g", toks[i][2].num()); out += b; }
        else if (k == "i") out += std::to_string(toks[i][2].integer());
        else if (k == "w") spell(out, toks[i][1].str(), style);
        else out += toks[i][1].str();
    }
    return out + seps[toks.size()].str();
}
void writeOne(const std::string& kind, const J& x, std::ostream& os) {
    if (kind == "vector") os << vec(x);
    else if (kind == "rotation") os << rot(x);
    else if (kind == "frame") os << frame(x);
    else if (kind == "twist") os << twist(x);
    else if (kind == "wrench") os << wrench(x);
    else if (kind == "vector2") os << v2(x);
    else if (kind == "rotation2") os << r2(x);
    else if (kind == "frame2") os << Frame2(r2(x["M"]), v2(x["p"]));
    else if (kind == "path") {
        Kept kept;
        J errors = J::arr();
        std::unique_ptr<Path> p(build(x, kept, errors));
        p->Write(os);
    } else if (kind == "profile") {
        std::unique_ptr<VelocityProfile> p(newProfile(x["kind"].str(), x["lim"]));
        if (x["planned"].boolean()) p->SetProfileDuration(-1, 3, 50);
        p->Write(os);
    } else if (kind == "traj") {
        Kept kept;
        std::unique_ptr<Trajectory> t(buildTraj(x, kept));
        t->Write(os);
    } else throw std::runtime_error("script: cannot write a " + kind);
}
std::string written(const std::string& kind, const J& x, int precision) {
    std::ostringstream os;
    os.precision(precision);
    writeOne(kind, x, os);
    return os.str();
}
void forgetTrace() {
    std::ostringstream sink;
    IOTraceOutput(sink);
}
// how many entries were left on the trace since it was marked; less than zero if entries were taken which were there before
const int MARKS = 8;
void markTrace() {
    forgetTrace();
    for (int i = 0; i < MARKS; ++i) IOTrace("before");
}
int traceSinceMark() {
    std::ostringstream all;
    IOTraceOutput(all);
    std::istringstream is(all.str());
    int lines = 0;
    for (std::string line; std::getline(is, line);) ++lines;
    return lines - MARKS;
}
}

// a: kinds, tokens, what separates them, style of the words, how to look
OP("x.read") {
    std::istringstream is(textOf(a[1], a[2], a[3].integer()));
    J values = J::arr();
    bool error = false;
    markTrace();
    for (size_t i = 0; i < a[0].size() && !error; ++i) {
        try { values.push(readOne(a[0][i].str(), is, a[4])); } catch (Error& e) { error = strlen(e.Description()) > 0; }
    }
    int trace = traceSinceMark();
    bool failed = is.fail();
    return ret(values, error, failed, trace);
}
// a: kind, value, precision, how to look
OP("x.write") {
    std::string text = written(a[0].str(), a[1], a[2].integer());
    std::istringstream is(text);
    bool error = false;
    J value = none();
    markTrace();
    try { value = readOne(a[0].str(), is, a[3]); } catch (Error& e) { error = true; }
    int trace = traceSinceMark();
    return ret(tokens(text), error, value, trace);
}
// the lengths of the beginnings of the text which are not refused
OP("x.cut") {
    std::string text = written(a[0].str(), a[1], a[2].integer());
    while (!text.empty() && isspace(static_cast<unsigned char>(text.back()))) text.pop_back();
    J accepted = J::arr();
    for (size_t n = 0; n < text.size(); ++n) {
        std::istringstream is(text.substr(0, n));
        try { readOne(a[0].str(), is, a[3]); accepted.push(J(static_cast<int>(n))); } catch (Error&) {}
    }
    forgetTrace();
    return ret(accepted);
}
// any text, given by the codes of its characters: what becomes of it is not said
OP("x.raw") {
    std::string text;
    for (size_t i = 0; i < a[1].size(); ++i) text += static_cast<char>(a[1][i].integer());
    std::istringstream is(text);
    try { readOne(a[0].str(), is, a[2]); } catch (Error&) {}
    forgetTrace();
    return none();
}
namespace {
std::string bytes(const J& a) {
    std::string s;
    for (size_t i = 0; i < a.size(); ++i) s += static_cast<char>(a[i].integer());
    return s;
}
template<class E> void tell(J& out, const E& e) {
    const Error& base = e;
    out.push(ret(base.GetType(), std::string(base.Description()), e.GetType() == base.GetType()));
}
template<class E> void tell(J& out) { E e; tell(out, e); }
}
// a: a text and a description, as codes; r: the number of the error or 0, and what of the text is left
OP("x.eat") {
    std::istringstream is(bytes(a[0]));
    int error = 0;
    try { Eat(is, bytes(a[1]).c_str()); } catch (Error& e) { error = e.GetType(); }
    forgetTrace();
    J left = J::arr();
    if (!error) { is.clear(); for (int c; (c = is.get()) != EOF;) left.push(J(c)); }
    return ret(error, left);
}
// a: a message, a number; r: of every error its number and description, and of one made with these
OP("x.errors") {
    J out = J::arr();
    tell<Error_BasicIO_File>(out); tell<Error_BasicIO_Exp_Delim>(out); tell<Error_BasicIO_Not_A_Space>(out); tell<Error_BasicIO_Unexpected>(out);
    tell<Error_BasicIO_ToBig>(out); tell<Error_BasicIO_Not_Opened>(out); tell<Error_Frame_Vector_Unexpected_id>(out); tell<Error_Frame_Frame_Unexpected_id>(out);
    tell<Error_Frame_Rotation_Unexpected_id>(out); tell<Error_Chain_Unexpected_id>(out); tell<Error_Redundancy_Illegal_Resolutiontype>(out);
    tell<Error_Redundancy_Unavoidable>(out); tell<Error_Redundancy_Low_Manip>(out); tell<Error_MotionIO_Unexpected_MotProf>(out);
    tell<Error_MotionIO_Unexpected_Traj>(out); tell<Error_MotionPlanning_Circle_ToSmall>(out); tell<Error_MotionPlanning_Circle_No_Plane>(out);
    tell<Error_MotionPlanning_Incompatible>(out); tell<Error_MotionPlanning_Not_Applicable>(out); tell<Error_Stepsize_Underflow>(out);
    tell<Error_To_Many_Steps>(out); tell<Error_Stepsize_To_Small>(out); tell<Error_Criterium_Unexpected_id>(out); tell<Error_Limits_Unexpected_id>(out);
    tell<Error_Not_Implemented>(out);
    J given = J::arr(), reasons = J::arr();
    tell(given, Error_IO(a[0].str(), a[1].integer()));
    tell<Error_IO>(given);
    for (int k = 1; k < 9; ++k) tell(reasons, Error_MotionPlanning_Not_Feasible(k));
    return J::arr({out, given, reasons});
}
// a: steps, <<"push", text>>, <<"pop", 0>>, <<"take", size>>, <<"all", 0>>; r: what was given by each
OP("x.trace") {
    forgetTrace();
    J r = J::arr();
    for (size_t k = 0; k < a[0].size(); ++k) {
        const std::string what = a[0][k][0].str();
        std::string got;
        if (what == "push") IOTrace(a[0][k][1].str());
        else if (what == "pop") IOTracePop();
        else if (what == "take") {
            int n = a[0][k][1].integer();
            std::vector<char> buffer(n > 0 ? n : 0, 'x');
            IOTracePopStr(buffer.data(), n);
            for (int i = 0; i < n && buffer[i]; ++i) got += buffer[i];
            if (n > 0 && got.size() == buffer.size()) got = "unterminated";
        } else {
            std::ostringstream os;
            IOTraceOutput(os);
            got = os.str();
        }
        r.push(J(got));
    }
    forgetTrace();
    return r;
}
namespace {
// values with derivatives, from rows of numbers in the order in which they are written
bool printJet(const std::string& k, const J& x, std::ostream& os) {
    size_t at = 0;
    auto vec3 = [&]() { Vector v(x[at][0].num(), x[at][1].num(), x[at][2].num()); ++at; return v; };
    auto rot3 = [&]() { Vector a = vec3(), b = vec3(), c = vec3(); return Rotation(a(0), a(1), a(2), b(0), b(1), b(2), c(0), c(1), c(2)); };
    auto vecVel = [&]() { VectorVel v; v.p = vec3(); v.v = vec3(); return v; };
    auto rotVel = [&]() { RotationVel r; r.R = rot3(); r.w = vec3(); return r; };
    auto vecAcc = [&]() { VectorAcc v; v.p = vec3(); v.v = vec3(); v.dv = vec3(); return v; };
    auto rotAcc = [&]() { RotationAcc r; r.R = rot3(); r.w = vec3(); r.dw = vec3(); return r; };
    if (k == "rall1") os << Rall1d<double>(x[0][0].num(), x[0][1].num());
    else if (k == "rall2") os << Rall2d<double>(x[0][0].num(), x[0][1].num(), x[0][2].num());
    else if (k == "vectorvel") os << vecVel();
    else if (k == "rotationvel") os << rotVel();
    else if (k == "framevel") { FrameVel f; f.M = rotVel(); f.p = vecVel(); os << f; }
    else if (k == "twistvel") { TwistVel t; t.vel = vecVel(); t.rot = vecVel(); os << t; }
    else if (k == "vectoracc") os << vecAcc();
    else if (k == "rotationacc") os << rotAcc();
    else if (k == "frameacc") { FrameAcc f; f.M = rotAcc(); f.p = vecAcc(); os << f; }
    else if (k == "twistacc") { TwistAcc t; t.vel = vecAcc(); t.rot = vecAcc(); os << t; }
    else return false;
    return true;
}
}
// a: kind, values, precision; r: the numbers in the text
OP("x.print") {
    const std::string k = a[0].str();
    std::ostringstream os;
    os.precision(a[2].integer());
    if (printJet(k, a[1], os)) {}
    else if (k == "jnts") os << jnts(a[1]);
    else if (k == "jacobian") {
        Jacobian m(static_cast<unsigned>(a[1][0].size()));
        for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.columns(); ++j) m(i, j) = a[1][i][j].num();
        os << m;
    } else {
        JntSpaceInertiaMatrix m(static_cast<int>(a[1].size()));
        for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.columns(); ++j) m(i, j) = a[1][i][j].num();
        os << m;
    }
    J r = J::arr();
    std::string text = os.str();
    size_t angle = text.find('>');      // the name of a type is no number
    if (angle != std::string::npos) text.erase(0, angle);
    for (const char* s = text.c_str(); *s;) {
        char* end = 0;
        double d = strtod(s, &end);
        if (end != s) { r.push(J(d)); s = end; } else ++s;
    }
    return ret(r);
}
