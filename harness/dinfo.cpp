// Debug-information scenarios ("dinfo"): a file is read by the debugger's
// parser and what it understood is dumped.
#include "common.h"
#include <sstream>
#include "debugger/Source/Parser.h"
#include "common/helpers.h"

static void DumpDie(const DIE& d) {
    using T = DIE::TAG;
    std::string tag = "?";
    switch (d.get_tag()) {
    case T::function: tag = "DIE_function"; break;
    case T::scope: tag = "DIE_scope"; break;
    case T::variable: tag = "DIE_variable"; break;
    case T::primitive_type: tag = "DIE_primitive_type"; break;
    case T::structured_type: tag = "DIE_structured_type"; break;
    case T::pointer_type: tag = "DIE_pointer_type"; break;
    case T::array_type: tag = "DIE_array_type"; break;
    case T::compilation_unit: tag = "DIE_compilation_unit"; break;
    case T::invalid: tag = "none"; break;
    default: break;
    }
    Emit("die " + tag);
    for (auto it = d.begin_attr(); it != d.end_attr(); ++it) {
        std::visit(utils::overloaded {
            [](const ATTR_name& a) { Emit("name " + Hex(a.n)); },
            [](const ATTR_begin_addr& a) { Emit("num ATTR_begin_addr " + std::to_string(a.addr)); },
            [](const ATTR_end_addr& a) { Emit("num ATTR_end_addr " + std::to_string(a.addr)); },
            [](const ATTR_type& a) { Emit("num ATTR_type " + std::to_string(a.type_id)); },
            [](const ATTR_size& a) { Emit("num ATTR_size " + std::to_string(a.size)); },
            [](const ATTR_id& a) { Emit("num ATTR_id " + std::to_string(a.id)); },
            [](const ATTR_members& a) {
                std::string s = "members";
                for (auto& m : a.m) s += " " + std::to_string(m.offset) + ":" + std::to_string(m.type_id) + ":" + Hex(m.name);
                Emit(s);
            },
            [](const ATTR_location_expr& a) {
                std::string s = "loc";
                for (auto& l : a.locs) {
                    std::visit(utils::overloaded {
                        [&](const expr::Push& p) {
                            std::visit(utils::overloaded {
                                [&](const expr::Register& r) { s += " r:" + r.name; },
                                [&](const expr::Offset& o) { s += " o:" + std::to_string(o.value); },
                            }, p.value);
                        },
                        [&](const expr::Add&) { s += " a:"; },
                        [&](const expr::Dereference&) { s += " d:"; },
                        [&](const expr::FrameBaseRegisterOffset& b) { s += " b:" + std::to_string(b.offset); },
                    }, l);
                }
                Emit(s);
            },
        }, *it);
    }
    for (auto& c : d) DumpDie(c);
    Emit("end");
}

void RunDinfo(const Scenario& s) {
    std::istringstream is(UnHex(s.get("text")));
    std::optional<dbg::DebuggingInfo> info;
    try {
        dbg::Parser p(is);
        info.emplace(p.Parse());
    } catch (const ParserError& e) {
        Emit("parse reject");
        return;
    }
    Emit("parse ok");
    if (info->line_mapping) {
        std::string l = "line";
        for (auto& [a, b] : *info->line_mapping) l += " " + std::to_string(a) + ":" + std::to_string(b);
        Emit(l);
    }
    if (info->source_code) {
        Emit("source");
        for (auto& l : info->source_code->GetLines()) Emit("l " + Hex(l));
    }
    if (info->top_die) DumpDie(*info->top_die);
}
