// driver SCRIPT TRACE: executes the operations of SCRIPT one by one and writes one event for each to TRACE,
// flushed, so that the operation in which the library crashed or hung is the first one without an event.
#include "driver.hpp"
#include <csignal>
#include <cstring>
#include <cxxabi.h>
#include <fstream>
#include <iostream>
#include <typeinfo>
#include <unistd.h>
#include <utilities/error.h>

std::map<std::string, Op>& ops() { static std::map<std::string, Op> m; return m; }
std::vector<std::function<void()>>& resets() { static std::vector<std::function<void()>> v; return v; }

static std::string typeName(const std::type_info& t) {
    int st = 0;
    char* n = abi::__cxa_demangle(t.name(), nullptr, nullptr, &st);
    std::string s = n ? n : t.name();
    free(n);
    if (s.compare(0, 5, "KDL::") == 0) s = s.substr(5);
    return s;
}

static void hung(int) {
    static const char msg[] = "driver: the operation hangs\n";
    if (write(2, msg, sizeof msg - 1)) {}
    _exit(97);
}

int main(int argc, char** argv) {
    if (argc != 3) { std::cerr << "driver SCRIPT TRACE\n"; return 96; }
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    if (!in || !out) { std::cerr << "driver: cannot open the files\n"; return 96; }
    signal(SIGALRM, hung);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        J e;
        try { e = J::parse(line); } catch (std::exception& x) { std::cerr << "driver: " << x.what() << ": " << line << "\n"; return 96; }
        std::string op = e["op"].str(), thrown;
        J res = J::arr();
        alarm(30);
        if (op == "reset") {
            for (auto& f : resets()) f();
        } else {
            auto it = ops().find(op);
            if (it == ops().end()) { std::cerr << "driver: unknown operation " << op << "\n"; return 96; }
            try {
                res = it->second(e["a"]);
            } catch (KDL::Error& x) {
                thrown = typeName(typeid(x));
            } catch (std::exception& x) {
                if (strncmp(x.what(), "script:", 7) == 0) { std::cerr << "driver: " << x.what() << ": " << line << "\n"; return 96; }
                thrown = typeName(typeid(x));
            }
        }
        alarm(0);
        e.set("r", res).set("x", J(thrown));
        std::string text;
        e.write(text);
        text += '\n';
        fwrite(text.data(), 1, text.size(), out);
        fflush(out);
    }
    alarm(60);
    for (auto& f : resets()) f();       // whatever is left is destroyed here
    fprintf(out, "{\"op\":\"end\",\"a\":[],\"r\":[],\"x\":\"\"}\n");
    fclose(out);
    return 0;
}
