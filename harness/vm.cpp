// VM-level scenarios: a program on the bare Cpu ("cpu") and a program under
// the OS with a scripted debugger connection ("vm").
#include "vmcommon.h"
#include "t86/utils/stats_logger.h"
using namespace tiny::t86;

void RunCpu(const Scenario& s) {
    auto c = GetCfg(s);
    size_t max = std::stoul(s.get("max", "20000"));
    std::istringstream is(SourceText(s));
    Redirect red(UnHex(s.get("in")));
    StatsLogger::instance().reset();
    Parser parser(is);
    Program prog = parser.Parse();
    Cpu cpu(c.regs, c.fregs, c.alu, c.rs, c.ram, c.gates);
    cpu.start(std::move(prog));
    for (auto& l : s.all("setreg")) {
        auto t = Split(l);
        auto v = static_cast<int64_t>(std::stoull(t[1]));
        if (t[0] == "SP") cpu.setRegister(Register::StackPointer(), v);
        else if (t[0] == "BP") cpu.setRegister(Register::StackBasePointer(), v);
        else if (t[0] == "FL") cpu.setRegister(Register::Flags(), v);
        else cpu.setRegister(Register{std::stoul(t[0].substr(1))}, v);
    }
    for (auto& l : s.all("setfreg")) {
        auto t = Split(l);
        cpu.setFloatRegister(FloatRegister{std::stoul(t[0].substr(1))}, FromBits(std::stoull(t[1])));
    }
    for (auto& l : s.all("setmem")) {
        auto t = Split(l);
        cpu.setMemory(std::stoull(t[0]), static_cast<int64_t>(std::stoull(t[1])));
    }
    std::string st = "timeout";
    size_t ticks = 0;
    try {
        for (; ticks < max; ++ticks) {
            cpu.tick();
            if (cpu.halted()) { st = "halt"; break; }
        }
    } catch (const std::exception& e) {
        st = "err";
    }
    Emit("st " + st);
    Emit("ticks " + std::to_string(ticks));
    std::string m;
    for (size_t a = 0; a < c.ram; ++a) m += std::to_string(cpu.getMemory(a)) + " ";
    Emit("mem " + m);
    if (st == "halt") {
        std::string r;
        r += "IP:" + std::to_string(cpu.getRegister(Register::ProgramCounter()));
        r += " BP:" + std::to_string(cpu.getRegister(Register::StackBasePointer()));
        r += " SP:" + std::to_string(cpu.getRegister(Register::StackPointer()));
        for (size_t k = 0; k < c.regs; ++k) r += " R" + std::to_string(k) + ":" + std::to_string(cpu.getRegister(Register{k}));
        Emit("regs " + r);
        Emit("fl " + std::to_string(cpu.getRegister(Register::Flags())));
        std::string f;
        for (size_t k = 0; k < c.fregs; ++k) f += "F" + std::to_string(k) + ":" + std::to_string(Bits(cpu.getFloatRegister(FloatRegister{k}))) + " ";
        Emit("fregs " + f);
    }
    Emit("out " + Hex(red.out.str()));
    Emit("left " + Hex(red.rest()));
}

class Scripted : public Messenger {
public:
    // `fin` replaces the rest of the script once REASON is answered HALT or CPU_ERROR
    Scripted(std::vector<std::string> cmds, std::vector<std::string> fin, std::ostringstream& out)
        : cmds(std::move(cmds)), fin(std::move(fin)), out(out) {}
    std::optional<std::string> Receive() override {
        if (next >= cmds.size()) { Emit("> EOF"); return std::nullopt; }
        Emit("> " + Escape(cmds[next]));
        return cmds[next++];
    }
    void Send(const std::string& m) override {
        Emit("< " + Escape(m));
        if (m == "STOPPED") Emit("o " + Hex(out.str()));
        if ((m == "HALT" || m == "CPU_ERROR") && !final_) { final_ = true; cmds = fin; next = 0; }
    }
private:
    std::vector<std::string> cmds, fin;
    std::ostringstream& out;
    size_t next{0};
    bool final_{false};
};

// The width of the machine is process-wide configuration; every run sets it.
void SetMachine(size_t alu, size_t gates) {
    using C = Cpu::Config;
    C::instance();
    auto opt = [](const char* k, size_t v) { return std::string(k) + "=" + std::to_string(v); };
    std::vector<std::string> args = {"x", opt(C::aluCountConfigString, alu), opt(C::ramGatesCountConfigString, gates),
        opt(C::registerCountConfigString, 10), opt(C::floatRegisterCountConfigString, 5),
        opt(C::reservationStationEntriesCountConfigString, 2 * alu), opt(C::ramSizeConfigString, 1024)};
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(a.data());
    tiny::config = tiny::Config{};
    tiny::config.parse(static_cast<int>(argv.size()), argv.data());
}

void RunVm(const Scenario& s) {
    auto c = GetCfg(s);
    SetMachine(c.alu, c.gates);
    std::istringstream is(SourceText(s));
    Redirect red(UnHex(s.get("in")));
    Parser parser(is);
    Program prog = parser.Parse();
    OS os(c.regs, c.fregs, c.ram);
    std::vector<std::string> cmds, fin;
    for (auto& l : s.all("fin")) fin.push_back(Unescape(l));
    for (auto& l : s.all("cmd")) cmds.push_back(Unescape(l));
    if (s.get("nodebug") != "1")
        os.SetDebuggerComms(std::make_unique<Scripted>(cmds, fin, red.out));
    bool ok = os.Run(std::move(prog));
    Emit(std::string("ret ") + (ok ? "true" : "false"));
    Emit("out " + Hex(red.out.str()));
}
