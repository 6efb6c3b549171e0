// Debugger-level scenarios: Native and Source (the debugger library) drive a
// VM running in another thread, connected by the in-process messenger.  Every
// command is traced with its result; `dump` traces everything a user can see.
#include "vmcommon.h"
#include <thread>
#include "common/threads_messenger.h"
#include "debugger/Source/Parser.h"
#include "debugger/Source/Source.h"

static std::string Ev(const DebugEvent& e) {
    return std::visit(utils::overloaded{
        [](const BreakpointHit& b) { return "bp " + std::to_string(b.address); },
        [](const WatchpointTrigger& w) { return "wp " + std::to_string(w.address); },
        [](const Singlestep&) { return std::string("step"); },
        [](const ExecutionBegin&) { return std::string("begin"); },
        [](const ExecutionEnd&) { return std::string("end"); },
        [](const CpuError&) { return std::string("err"); },
    }, e);
}
static std::string Loc(const expr::Location& l) {
    return std::visit(utils::overloaded{
        [](const expr::Register& r) { return "r:" + r.name; },
        [](const expr::Offset& o) { return "m:" + std::to_string(o.value); },
    }, l);
}
static std::string LocO(const std::optional<expr::Location>& l) { return l ? Loc(*l) : "-"; }
// {"t":...} JSON text of a value
static std::string Val(const TypedValue& v) {
    auto loc = [](auto&& x) { return std::string(",\"loc\":\"") + LocO(x.loc) + "\"}"; };
    return std::visit(utils::overloaded{
        [&](const PointerValue& x) { return "{\"t\":\"ptr\",\"to\":" + std::to_string(x.type.type_id) + ",\"v\":" + std::to_string(x.value) + loc(x); },
        [&](const IntegerValue& x) { return "{\"t\":\"int\",\"v\":" + std::to_string(x.value) + loc(x); },
        [&](const FloatValue& x) { return "{\"t\":\"float\",\"v\":" + std::to_string(Bits(x.value)) + loc(x); },
        [&](const CharValue& x) { return "{\"t\":\"char\",\"v\":" + std::to_string(static_cast<int>(x.value)) + loc(x); },
        [&](const StructuredValue& x) {
            std::string m;
            for (auto& [n, w] : x.members) m += (m.empty() ? "" : ",") + ("\"" + n + "\":") + Val(w);
            return "{\"t\":\"struct\",\"name\":\"" + Escape(x.name) + "\",\"m\":{" + m + "}" + loc(x);
        },
        [&](const ArrayValue& x) {
            std::string m;
            for (auto& w : x.members) m += (m.empty() ? "" : ",") + Val(w);
            return "{\"t\":\"arr\",\"of\":" + std::to_string(x.type.type_id) + ",\"v\":" + std::to_string(x.begin_address) + ",\"m\":[" + m + "]" + loc(x);
        },
    }, v);
}

struct Session {
    Cfg c;
    Native& n;
    Source& src;
    Redirect& red;
    bool over{false};
    std::map<std::string, std::string> last;

    void State(const std::string& k, const std::string& v) {
        if (last.count(k) && last[k] == v) return;
        last[k] = v;
        Emit(k + " " + v);
    }
    void Dump() {
        std::string s;
        for (auto& [k, v] : n.GetRegisters()) s += k + ":" + std::to_string(v) + " ";
        State("regs", s);
        s.clear();
        for (auto& [k, v] : n.GetFloatRegisters()) s += k + ":" + std::to_string(Bits(v)) + " ";
        State("fregs", s);
        s.clear();
        for (auto v : n.ReadMemory(0, c.ram)) s += std::to_string(v) + " ";
        State("mem", s);
        s.clear();
        size_t sz = n.TextSize();
        for (auto& t : n.ReadText(0, sz)) s += Escape(t) + ";";
        State("text", s);
        State("bps", Bps());
        State("wps", Wps());
        State("out", Hex(red.out.str()));
        Emit("state");
    }
    std::string Bps() {
        std::string s;
        for (auto& [a, b] : n.GetBreakpoints()) s += std::to_string(a) + ":" + (b.enabled ? "1 " : "0 ");
        return s;
    }
    std::string Wps() {
        std::string s;
        for (auto& [a, w] : n.GetWatchpoints()) s += std::to_string(a) + " ";
        return s;
    }
    std::string Resume(const DebugEvent& e) {
        if (std::holds_alternative<ExecutionEnd>(e) || std::holds_alternative<CpuError>(e)) over = true;
        return Ev(e);
    }
    std::string Do(const std::string& line) {
        auto sp = line.find(' ');
        std::string k = line.substr(0, sp), rest = sp == std::string::npos ? "" : line.substr(sp + 1);
        auto t = Split(rest);
        auto num = [&](size_t i) { return std::stoull(t.at(i)); };
        auto opt = [](auto&& o) { return o ? std::to_string(*o) : std::string("-"); };
        if (k == "bps") { n.SetBreakpoint(num(0)); return "ok"; }
        if (k == "bpu") { n.UnsetBreakpoint(num(0)); return "ok"; }
        if (k == "bpe") { n.EnableSoftwareBreakpoint(num(0)); return "ok"; }
        if (k == "bpd") { n.DisableSoftwareBreakpoint(num(0)); return "ok"; }
        if (k == "lbs") return std::to_string(src.SetSourceSoftwareBreakpoint(n, num(0)));
        if (k == "lbu") return std::to_string(src.UnsetSourceSoftwareBreakpoint(n, num(0)));
        if (k == "lbe") return std::to_string(src.EnableSourceSoftwareBreakpoint(n, num(0)));
        if (k == "lbd") return std::to_string(src.DisableSourceSoftwareBreakpoint(n, num(0)));
        if (k == "wps") { n.SetWatchpointWrite(num(0)); return "ok"; }
        if (k == "wpr") { n.RemoveWatchpoint(num(0)); return "ok"; }
        if (k == "sab") {
            std::map<uint64_t, SoftwareBreakpoint> m;
            for (auto& x : t) { auto p = x.find(':'); m[std::stoull(x.substr(0, p))] = SoftwareBreakpoint{"", x.substr(p + 1) == "1"}; }
            n.SetAllBreakpoints(m); return "ok";
        }
        if (k == "saw") {
            std::map<uint64_t, Watchpoint> m;
            size_t i = 0;
            for (auto& x : t) m[std::stoull(x)] = Watchpoint{Watchpoint::Type::Write, i++};
            n.SetAllWatchpoints(m); return "ok";
        }
        if (k == "cont") { n.ContinueExecution(); return Resume(n.WaitForDebugEvent()); }
        if (k == "si") return Resume(n.PerformSingleStep());
        if (k == "so") return Resume(n.PerformStepOver());
        if (k == "sout") return Resume(n.PerformStepOut());
        if (k == "sin") return Resume(src.StepIn(n));
        if (k == "sov") return Resume(src.StepOver(n));
        if (k == "rt") { std::string s; for (auto& x : n.ReadText(num(0), num(1))) s += x + ";"; return s; }
        if (k == "wt") {
            std::vector<std::string> v;
            std::string body = rest.substr(rest.find(' ') + 1), cur;
            for (char ch : body) { if (ch == ';') { v.push_back(cur); cur.clear(); } else cur += ch; }
            if (!cur.empty()) v.push_back(cur);
            n.WriteText(num(0), v); return "ok";
        }
        if (k == "reg") return std::to_string(n.GetRegister(t.at(0)));
        if (k == "freg") return std::to_string(Bits(n.GetFloatRegister(t.at(0))));
        if (k == "sreg") { n.SetRegister(t.at(0), static_cast<int64_t>(std::stoll(t.at(1)))); return "ok"; }
        if (k == "sfreg") { n.SetFloatRegister(t.at(0), FromBits(num(1))); return "ok"; }
        if (k == "rm") { std::string s; for (auto x : n.ReadMemory(num(0), num(1))) s += std::to_string(x) + " "; return s; }
        if (k == "sm") {
            std::vector<int64_t> v;
            for (size_t i = 1; i < t.size(); ++i) v.push_back(std::stoll(t[i]));
            n.SetMemory(num(0), v); return "ok";
        }
        if (k == "ts") return std::to_string(n.TextSize());
        if (k == "ip") return std::to_string(n.GetIP());
        if (k == "a2l") return opt(src.AddrToLine(num(0)));
        if (k == "l2a") return opt(src.LineToAddr(num(0)));
        if (k == "addr") return std::to_string(src.GetAddressFromString(t.at(0), t.at(1) == "1"));
        if (k == "fname") { auto f = src.GetFunctionNameByAddress(num(0)); return f ? "=" + Escape(*f) : "-"; }
        if (k == "faddr") { auto f = src.GetFunctionAddrByName(t.at(0)); return f ? std::to_string(f->first) + " " + std::to_string(f->second) : "-"; }
        if (k == "vars") { std::string s; for (auto& x : src.GetScopedVariables(num(0))) s += Escape(x) + " "; return s; }
        if (k == "loc") { auto l = src.GetVariableLocation(n, t.at(0)); return LocO(l); }
        if (k == "ev") { auto r = src.EvaluateExpression(n, Unescape(rest)); return std::to_string(r.second) + " " + Val(r.first); }
        if (k == "evn") return Val(src.EvaluateExpression(n, Unescape(rest), false).first);
        if (k == "evs") { auto v = src.EvaluateExpression(n, Unescape(rest), false).first; return Escape(src.TypedValueTypeToString(v) + "|" + src.TypedValueToString(n, v)); }
        throw std::logic_error("harness: unknown command " + k);
    }
    static bool Resuming(const std::string& k) {
        return k == "cont" || k == "si" || k == "so" || k == "sout" || k == "sin" || k == "sov";
    }
};

void RunDbg(const Scenario& s) {
    auto c = GetCfg(s);
    SetMachine(c.alu, c.gates);
    Redirect red(UnHex(s.get("in")));
    std::string text = SourceText(s);
    ThreadQueue<std::string> q1, q2;
    bool ret = false;
    std::thread vm([&] {
        std::istringstream is(text);
        Parser parser(is);
        auto prog = parser.Parse();
        tiny::t86::OS os(c.regs, c.fregs, c.ram);
        os.SetDebuggerComms(std::make_unique<ThreadMessenger>(q1, q2));
        ret = os.Run(std::move(prog));
    });
    {
        Source src;
        std::istringstream is(text);
        dbg::Parser p(is);
        auto info = p.Parse();
        if (info.line_mapping) src.RegisterLineMapping(std::move(*info.line_mapping));
        if (info.top_die) src.RegisterDebuggingInformation(std::move(*info.top_die));
        if (info.source_code) src.RegisterSourceFile(std::move(*info.source_code));
        Native n(std::make_unique<T86Process>(std::make_unique<ThreadMessenger>(q2, q1), c.regs, c.fregs, c.ram));
        Session S{c, n, src, red, false, {}};
        Emit("= " + Ev(n.WaitForDebugEvent()));
        S.Dump();
        for (auto& raw : s.all("cmd")) {
            std::string line = raw;
            std::string k = line.substr(0, line.find(' '));
            if (k == "dump") { S.Dump(); continue; }
            if (S.over && Session::Resuming(k)) continue;
            Emit("> " + line);
            try {
                std::string r = S.Do(line);
                Emit("= " + r);
            } catch (const DebuggerError& e) {
                Emit("! " + Escape(e.what()));
            } catch (const std::logic_error& e) {
                if (std::string(e.what()).rfind("harness:", 0) == 0) _exit(97);
                Emit("!! " + Escape(e.what()));
            } catch (const std::exception& e) {
                Emit("!! " + Escape(e.what()));
            }
        }
        S.Dump();
        n.Terminate();
    }
    vm.join();
    Emit(std::string("ret ") + (ret ? "true" : "false"));
    Emit("out " + Hex(red.out.str()));
}
