// The driver executes a script of operations against the real library and records what it observed.
#pragma once
#include "json.hpp"
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <frames.hpp>

typedef std::function<J(const J&)> Op;              // from the arguments to the results
std::map<std::string, Op>& ops();
std::vector<std::function<void()>>& resets();       // forget all objects

struct Reg { Reg(const char* name, Op op) { ops()[name] = op; } };
struct RegReset { explicit RegReset(std::function<void()> f) { resets().push_back(f); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define OP(name) static J CAT(op_, __LINE__)(const J& a); static Reg CAT(reg_, __LINE__)(name, CAT(op_, __LINE__)); \
    static J CAT(op_, __LINE__)([[maybe_unused]] const J& a)

// Objects that live across the operations of a script, by name.
template<class T> struct Heap {
    std::map<std::string, std::shared_ptr<T>> m;
    Heap() { resets().push_back([this]() { m.clear(); }); }
    T& operator()(const J& name) {
        auto it = m.find(name.str());
        if (it == m.end()) throw std::runtime_error("script: no object " + name.str());
        return *it->second;
    }
    bool has(const J& name) const { return m.count(name.str()) != 0; }
    void put(const J& name, T* p) { m[name.str()].reset(p); }
    void drop(const J& name) { m.erase(name.str()); }
};

inline KDL::Vector vec(const J& j) { return KDL::Vector(j[0].num(), j[1].num(), j[2].num()); }
inline KDL::Rotation rot(const J& j) {
    KDL::Rotation r;
    for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) r.data[3 * i + k] = j[i][k].num();
    return r;
}
inline KDL::Frame frame(const J& j) { KDL::Frame f; f.M = rot(j["M"]); f.p = vec(j["p"]); return f; }
inline KDL::Twist twist(const J& j) { return KDL::Twist(vec(j["vel"]), vec(j["rot"])); }
inline KDL::Wrench wrench(const J& j) { return KDL::Wrench(vec(j["f"]), vec(j["t"])); }

inline J js(const KDL::Vector& v) { return J::arr({J(v.data[0]), J(v.data[1]), J(v.data[2])}); }
inline J js(const KDL::Rotation& r) {
    J m = J::arr();
    for (int i = 0; i < 3; ++i) m.push(J::arr({J(r.data[3 * i]), J(r.data[3 * i + 1]), J(r.data[3 * i + 2])}));
    return m;
}
inline J js(const KDL::Frame& f) { return J::obj().set("M", js(f.M)).set("p", js(f.p)); }
inline J js(const KDL::Twist& t) { return J::obj().set("vel", js(t.vel)).set("rot", js(t.rot)); }
inline J js(const KDL::Wrench& w) { return J::obj().set("f", js(w.force)).set("t", js(w.torque)); }
inline J js(const J& j) { return j; }
inline J js(double d) { return J(d); }
inline J js(bool b) { return J(b); }
inline J js(int n) { return J(n); }
inline J js(const std::string& s) { return J(s); }

template<class... A> J ret(const A&... v) { J r = J::arr(); (r.push(js(v)), ...); return r; }
inline J none() { return J::arr(); }
