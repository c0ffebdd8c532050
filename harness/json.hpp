// A small JSON value: what scripts are read into and traces are written from.
// A number with a fraction or an exponent is a real, any other an integer (see Num.LoadTrace).
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

struct J {
    enum Kind { Null, Bool, Int, Real, Str, Arr, Obj } k = Null;
    bool b = false;
    long i = 0;
    double d = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;

    J() {}
    J(bool v) : k(Bool), b(v) {}
    J(int v) : k(Int), i(v) {}
    J(unsigned v) : k(Int), i(v) {}
    J(long v) : k(Int), i(v) {}
    J(double v) : k(Real), d(v) {}
    J(const char* v) : k(Str), s(v) {}
    J(const std::string& v) : k(Str), s(v) {}
    static J arr() { J j; j.k = Arr; return j; }
    static J obj() { J j; j.k = Obj; return j; }
    static J arr(std::initializer_list<J> l) { J j = arr(); j.a = l; return j; }

    J& push(const J& v) { a.push_back(v); return *this; }
    J& set(const std::string& key, const J& v) {
        for (auto& p : o) if (p.first == key) { p.second = v; return *this; }
        o.emplace_back(key, v);
        return *this;
    }
    bool has(const std::string& key) const { for (auto& p : o) if (p.first == key) return true; return false; }
    const J& operator[](const std::string& key) const {
        for (auto& p : o) if (p.first == key) return p.second;
        throw std::runtime_error("script: no field " + key);
    }
    const J& operator[](size_t n) const {
        if (k != Arr || n >= a.size()) throw std::runtime_error("script: no element " + std::to_string(n));
        return a[n];
    }
    size_t size() const { return k == Obj ? o.size() : a.size(); }
    double num() const {
        if (k == Real) return d;
        if (k == Int) return static_cast<double>(i);
        throw std::runtime_error("script: a number was expected");
    }
    int integer() const { if (k != Int) throw std::runtime_error("script: an integer was expected"); return static_cast<int>(i); }
    bool boolean() const { if (k != Bool) throw std::runtime_error("script: a boolean was expected"); return b; }
    const std::string& str() const { if (k != Str) throw std::runtime_error("script: a string was expected"); return s; }

    void write(std::string& out) const {
        switch (k) {
        case Null: out += "\"\""; break;
        case Bool: out += b ? "true" : "false"; break;
        case Int: out += std::to_string(i); break;
        case Real: {
            if (std::isnan(d)) { out += "nan"; break; }
            if (std::isinf(d)) { out += d < 0 ? "-inf" : "inf"; break; }
            char buf[40];
            snprintf(buf, sizeof buf, "%.17g", d);
            out += buf;
            bool plain = true;
            for (char* c = buf; *c; ++c) if (*c == '.' || *c == 'e') plain = false;
            if (plain) out += ".0";
            break;
        }
        case Str:
            out += '"';
            for (unsigned char c : s) {
                if (c == '"' || c == '\\') { out += '\\'; out += static_cast<char>(c); }
                else if (c == '\n') out += "\\n";
                else if (c == '\t') out += "\\t";
                else if (c < 32 || c > 126) { char buf[8]; snprintf(buf, sizeof buf, "\\u%04x", c); out += buf; }
                else out += static_cast<char>(c);
            }
            out += '"';
            break;
        case Arr:
            out += '[';
            for (size_t n = 0; n < a.size(); ++n) { if (n) out += ','; a[n].write(out); }
            out += ']';
            break;
        case Obj:
            out += '{';
            for (size_t n = 0; n < o.size(); ++n) {
                if (n) out += ',';
                out += '"'; out += o[n].first; out += "\":";
                o[n].second.write(out);
            }
            out += '}';
            break;
        }
    }

    static J parse(const std::string& text) { size_t p = 0; J j = value(text, p); return j; }

private:
    static void ws(const std::string& t, size_t& p) { while (p < t.size() && static_cast<unsigned char>(t[p]) <= ' ') ++p; }
    static std::string string(const std::string& t, size_t& p) {
        std::string out;
        ++p;
        while (t.at(p) != '"') {
            char c = t[p++];
            if (c == '\\') {
                c = t.at(p++);
                if (c == 'n') c = '\n';
                else if (c == 't') c = '\t';
                else if (c == 'r') c = '\r';
                else if (c == 'u') { c = static_cast<char>(strtol(t.substr(p, 4).c_str(), nullptr, 16)); p += 4; }
            }
            out += c;
        }
        ++p;
        return out;
    }
    static J value(const std::string& t, size_t& p) {
        ws(t, p);
        if (p >= t.size()) throw std::runtime_error("script: no value");
        char c = t[p];
        if (c == '{') {
            J j = obj();
            ++p; ws(t, p);
            if (t.at(p) == '}') { ++p; return j; }
            for (;;) {
                ws(t, p);
                std::string key = string(t, p);
                ws(t, p);
                if (t.at(p++) != ':') throw std::runtime_error("script: ':' expected");
                j.o.emplace_back(key, value(t, p));
                ws(t, p);
                c = t.at(p++);
                if (c == '}') return j;
                if (c != ',') throw std::runtime_error("script: ',' expected");
            }
        }
        if (c == '[') {
            J j = arr();
            ++p; ws(t, p);
            if (t.at(p) == ']') { ++p; return j; }
            for (;;) {
                j.a.push_back(value(t, p));
                ws(t, p);
                c = t.at(p++);
                if (c == ']') return j;
                if (c != ',') throw std::runtime_error("script: ',' expected");
            }
        }
        if (c == '"') return J(string(t, p));
        size_t q = p;
        while (q < t.size() && std::string(",]} \t\r\n").find(t[q]) == std::string::npos) ++q;
        std::string w = t.substr(p, q - p);
        p = q;
        if (w == "true") return J(true);
        if (w == "false") return J(false);
        if (w == "nan" || w == "NaN") return J(std::nan(""));
        if (w == "inf" || w == "Infinity") return J(HUGE_VAL);
        if (w == "-inf" || w == "-Infinity") return J(-HUGE_VAL);
        if (w.find_first_of(".eE") != std::string::npos) return J(strtod(w.c_str(), nullptr));
        return J(static_cast<long>(strtol(w.c_str(), nullptr, 10)));
    }
};
