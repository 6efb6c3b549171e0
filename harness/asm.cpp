// Assembly scenarios ("asm"): a file is parsed, its instructions dumped by
// their operands (not by their printed form), printed and parsed again; with
// `load` the program is placed into a Cpu and the initial state dumped.
#include "vmcommon.h"
using namespace tiny::t86;

static std::string Rn(const Register& r) {
    if (r == Register::ProgramCounter()) return "IP";
    if (r == Register::StackPointer()) return "SP";
    if (r == Register::StackBasePointer()) return "BP";
    if (r == Register::Flags()) return "FLAGS";
    return "R" + std::to_string(r.index());
}
static std::string S(int64_t v) { return std::to_string(v); }
static std::string Mm(const std::string& b, int64_t o, const std::string& x, int64_t s) {
    return "M:" + b + ":" + S(o) + ":" + x + ":" + S(s);
}
static std::string Op(const Operand& o) {
    using T = Operand::Type;
    switch (o.getType()) {
    case T::Imm: return "I:" + S(o.getValue());
    case T::Reg: return "R:" + Rn(o.getRegister());
    case T::RegImm: return "RI:" + Rn(o.getRegisterOffset().reg()) + ":" + S(o.getRegisterOffset().offset());
    case T::FImm: return "D:" + std::to_string(Bits(o.getFloatValue()));
    case T::FReg: return "F:F" + std::to_string(o.getFloatRegister().index());
    case T::MemImm: return Mm("", static_cast<int64_t>(o.getMemoryImmediate().index()), "", 1);
    case T::MemReg: return Mm(Rn(o.getMemoryRegister().reg()), 0, "", 1);
    case T::MemRegImm: { auto x = o.getMemoryRegisterOffset().regOffset(); return Mm(Rn(x.reg()), x.offset(), "", 1); }
    case T::MemRegReg: { auto x = o.getMemoryRegisterRegister().regReg(); return Mm(Rn(x.reg1()), 0, Rn(x.reg2()), 1); }
    case T::MemRegScaled: { auto x = o.getMemoryRegisterScaled().regScaled(); return Mm("", 0, Rn(x.reg()), x.scale()); }
    case T::MemRegImmReg: {
        auto x = o.getMemoryRegisterOffsetRegister().regOffsetReg();
        return Mm(Rn(x.regOffset().reg()), x.regOffset().offset(), Rn(x.reg()), 1);
    }
    case T::MemRegRegScaled: {
        auto x = o.getMemoryRegisterRegisterScaled().regRegScaled();
        return Mm(Rn(x.reg()), 0, Rn(x.regScaled().reg()), x.regScaled().scale());
    }
    case T::MemRegImmRegScaled: {
        auto x = o.getMemoryRegisterOffsetRegisterScaled().regOffsetRegScaled();
        return Mm(Rn(x.regOffset().reg()), x.regOffset().offset(), Rn(x.regScaled().reg()), x.regScaled().scale());
    }
    default: return "X:" + Operand::typeToString(o.getType());
    }
}
static void Dump(const char* tag, const Program& p) {
    for (auto& i : p.instructions()) {
        std::string l = std::string(tag) + " " + Instruction::typeToString(i->type());
        for (auto& o : i->signatureOperands()) l += " " + Op(o);
        Emit(l);
    }
}
static bool ParseText(const std::string& text, Program& p, const char* tag) {
    std::istringstream is(text);
    try {
        Parser parser(is);
        p = parser.Parse();
        Emit(std::string(tag) + " ok");
        return true;
    } catch (const ParserError& e) {
        Emit(std::string(tag) + " reject");
    } catch (const std::exception& e) {
        Emit(std::string(tag) + " exception " + Escape(e.what()));
    }
    return false;
}
void RunAsm(const Scenario& s) {
    std::string text = UnHex(s.get("text"));
    Program p;
    if (!ParseText(text, p, "parse")) return;
    Dump("ins", p);
    std::string d;
    for (auto v : p.data()) d += S(v) + " ";
    Emit("data " + d);
    std::string printed = ".text\n";
    for (auto& i : p.instructions()) printed += i->toString() + "\n";
    Emit("printed " + Escape(printed));
    Program q;
    if (ParseText(printed, q, "again")) Dump("ins2", q);
    if (s.get("load").empty()) return;
    auto c = GetCfg(s);
    Cpu cpu(c.regs, c.fregs, c.alu, c.rs, c.ram, c.gates);
    cpu.start(std::move(p));
    std::string m;
    for (size_t a = 0; a < c.ram; ++a) m += std::to_string(cpu.getMemory(a)) + " ";
    Emit("mem " + m);
    std::string r;
    r += "IP:" + std::to_string(cpu.getRegister(Register::ProgramCounter()));
    r += " BP:" + std::to_string(cpu.getRegister(Register::StackBasePointer()));
    r += " SP:" + std::to_string(cpu.getRegister(Register::StackPointer()));
    for (size_t k = 0; k < c.regs; ++k) r += " R" + std::to_string(k) + ":" + std::to_string(cpu.getRegister(Register{k}));
    Emit("regs " + r);
    Emit("fl " + std::to_string(cpu.getRegister(Register::Flags())));
    std::string f;
    for (size_t k = 0; k < c.fregs; ++k) f += "F" + std::to_string(k) + ":" + std::to_string(Bits(cpu.getFloatRegister(FloatRegister{k}))) + " ";
    Emit("fregs " + f);
}
