#pragma once
#include "common.h"
#include "t86/cpu.h"
#include "t86/os.h"
#include "t86-parser/parser.h"
#include "common/config.h"
#include "common/messenger.h"

inline std::string SourceText(const Scenario& s) {
    std::string src;
    for (auto& l : s.all("src")) src += Unescape(l) + "\n";
    return src;
}
struct Cfg { size_t alu, rs, gates, regs, fregs, ram; };
inline Cfg GetCfg(const Scenario& s) {
    auto t = Split(s.get("cfg"));
    return {std::stoul(t.at(0)), std::stoul(t.at(1)), std::stoul(t.at(2)),
            std::stoul(t.at(3)), std::stoul(t.at(4)), std::stoul(t.at(5))};
}
struct Redirect {
    std::ostringstream out;
    std::istringstream in;
    std::streambuf *o, *i;
    Redirect(const std::string& input) : in(input) { o = std::cout.rdbuf(out.rdbuf()); i = std::cin.rdbuf(in.rdbuf()); }
    ~Redirect() { std::cout.rdbuf(o); std::cin.rdbuf(i); std::cin.clear(); }
    std::string rest() { std::string r; char c; while (in.get(c)) r += c; return r; }
};

void SetMachine(size_t alu, size_t gates);
