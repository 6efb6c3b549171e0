From 972d17882e8f0ad66266e01565d3f3244fe33383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:02 +0000
Subject: [PATCH 01/46] fix: LEA [R1 + R2] read past its operand list

---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 07bc03e..7f02513 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -676,7 +676,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
             assert(operands.size() == 2);
             address = Operand::supply(
                     Operand::supply(mem_.getMemoryRegisterRegister(), operands[0].getValue()),
-                    operands[2].getValue()
+                    operands[1].getValue()
             ).index();
         }
         else if (mem_.isMemoryRegisterOffsetRegister()) {
-- 
2.43.0


From 56205fa3378f25333dbd5389046f4c2d072cd628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:19 +0000
Subject: [PATCH 02/46] fix: keep references to pending memory writes valid

---
 .../cpu/memory_writes_manager/memory_writes.cpp    |  4 ++--
 src/t86/cpu/memory_writes_manager/memory_writes.h  | 14 ++++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.cpp b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
index 9526ca3..2676d90 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.cpp
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.cpp
@@ -4,11 +4,11 @@
 #include <algorithm>
 
 namespace tiny::t86 {
-    std::vector<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
+    std::list<MemoryWrite>::iterator MemoryWrites::find(MemoryWrite::Id id) {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
-    std::vector<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
+    std::list<MemoryWrite>::const_iterator MemoryWrites::find(MemoryWrite::Id id) const {
         return std::lower_bound(writes_.begin(), writes_.end(), id, comp);
     }
 
diff --git a/src/t86/cpu/memory_writes_manager/memory_writes.h b/src/t86/cpu/memory_writes_manager/memory_writes.h
index 9edf239..3841bc1 100644
--- a/src/t86/cpu/memory_writes_manager/memory_writes.h
+++ b/src/t86/cpu/memory_writes_manager/memory_writes.h
@@ -1,8 +1,10 @@
 #pragma once
 
+#include <list>
 #include <utility>
 #include <optional>
 #include <set>
+#include <vector>
 
 #include "../../ram.h"
 #include "memory_write.h"
@@ -43,14 +45,14 @@ namespace tiny::t86 {
             return e.id() > i;
         }
 
-        // This vector is sorted using comp function, so that we can find writes
+        // This list is sorted using comp function, so that we can find writes
         // with id up to some value
-        // List would have slow lookup times, but better insertions
+        // It has to be a container with stable references, because
+        // MemoryWritesManager keeps references to the elements
         // Set does not allow modifications of it's elements once inserted
-        // Might change to list in the future after some benchmarking
-        std::vector<MemoryWrite> writes_;
+        std::list<MemoryWrite> writes_;
 
-        std::vector<MemoryWrite>::iterator find(MemoryWrite::Id id);
-        std::vector<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
+        std::list<MemoryWrite>::iterator find(MemoryWrite::Id id);
+        std::list<MemoryWrite>::const_iterator find(MemoryWrite::Id id) const;
     };
 }
-- 
2.43.0


From ae7d4544287f247474f88749e88ac9ccf633e01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:09 +0000
Subject: [PATCH 03/46] fix: PUTNUM printed only the low 32 bits of the value

---
 src/t86/instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86/instruction.cpp b/src/t86/instruction.cpp
index 7f02513..93c2753 100644
--- a/src/t86/instruction.cpp
+++ b/src/t86/instruction.cpp
@@ -715,7 +715,7 @@ INS_NAME::INS_NAME(Operand address) : ConditionalJumpInstruction([](Alu::Flags f
     void PUTNUM::retire(ReservationStation::Entry& entry) const {
         const auto& operands = entry.operands();
         assert(operands.size() == 1);
-        os_ << static_cast<int>(operands[0].getValue()) << std::endl;
+        os_ << static_cast<int64_t>(operands[0].getValue()) << std::endl;
     }
 
     void GETCHAR::retire(ReservationStation::Entry& entry) const {
-- 
2.43.0


From eb6faf1e4d2a9d08c46e20b1f0152e8413151f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:40 +0000
Subject: [PATCH 04/46] fix: division by zero and overflow of signed
 multiplication and division crashed the VM

---
 src/t86/cpu/alu.cpp                 | 14 +++++++++++---
 src/t86/cpu/reservation_station.cpp | 11 ++++++++++-
 src/t86/cpu/reservation_station.h   |  2 ++
 src/t86/execution_error.h           |  1 +
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/t86/cpu/alu.cpp b/src/t86/cpu/alu.cpp
index 4132f59..c3d44ad 100644
--- a/src/t86/cpu/alu.cpp
+++ b/src/t86/cpu/alu.cpp
@@ -1,4 +1,5 @@
 #include "alu.h"
+#include "../execution_error.h"
 
 #include <limits>
 #include <cmath>
@@ -64,6 +65,9 @@ namespace tiny::t86::Alu {
     }
 
     Result divide(int64_t x, int64_t y) {
+        if (y == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
         uint64_t ux = static_cast<uint64_t>(x);
         uint64_t uy = static_cast<uint64_t>(y);
         uint64_t uresult = ux / uy;
@@ -76,16 +80,20 @@ namespace tiny::t86::Alu {
     }
 
     Result signed_multiply(int64_t x, int64_t y) {
-        int64_t result = x * y;
+        int64_t result;
+        bool overflowFlag = __builtin_mul_overflow(x, y, &result);
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool carryFlag = false;
-        bool overflowFlag = x != 0 && y != 0 && x != result / y;
         return Result{result, Flags{signFlag, zeroFlag, carryFlag, overflowFlag}};
     }
 
     Result signed_divide(int64_t x, int64_t y) {
-        int64_t result = x / y;
+        if (y == 0) {
+            throw T86ExecutionError("Division by zero");
+        }
+        // The only overflowing quotient is min / -1, which wraps around
+        int64_t result = y == -1 ? static_cast<int64_t>(-static_cast<uint64_t>(x)) : x / y;
         bool signFlag = result < 0;
         bool zeroFlag = result == 0;
         bool overflowFlag = false;
diff --git a/src/t86/cpu/reservation_station.cpp b/src/t86/cpu/reservation_station.cpp
index e0ec5cf..986720e 100644
--- a/src/t86/cpu/reservation_station.cpp
+++ b/src/t86/cpu/reservation_station.cpp
@@ -1,5 +1,6 @@
 #include "reservation_station.h"
 #include "../cpu.h"
+#include "../execution_error.h"
 #include "../utils/stats_logger.h"
 #include "logger.h"
 
@@ -275,7 +276,11 @@ namespace tiny::t86 {
         }
         // This is done "two-steps" because some instructions might have zero execution tickCount required
         if (remainingExecutionTime_ == 0) {
-            instruction_->execute(*this);
+            try {
+                instruction_->execute(*this);
+            } catch (const T86ExecutionError&) {
+                executionException_ = std::current_exception();
+            }
             state_ = State::retiring;
             return true;
         }
@@ -303,6 +308,10 @@ namespace tiny::t86 {
     }
 
     void ReservationStation::Entry::retire() {
+        // delay throwing until we know that the instruction was not only speculated
+        if (executionException_) {
+            std::rethrow_exception(executionException_);
+        }
         instruction_->retire(*this);
         // delay throwing illegal read exception until we know that the instruction will be executed
         if (memoryAccessException_) {
diff --git a/src/t86/cpu/reservation_station.h b/src/t86/cpu/reservation_station.h
index a238f05..8df8d2d 100644
--- a/src/t86/cpu/reservation_station.h
+++ b/src/t86/cpu/reservation_station.h
@@ -173,5 +173,7 @@ namespace tiny::t86 {
         std::size_t loggingId_;
 
         std::exception_ptr memoryAccessException_;
+
+        std::exception_ptr executionException_;
     };
 }
diff --git a/src/t86/execution_error.h b/src/t86/execution_error.h
index e1a08b8..fb127fc 100644
--- a/src/t86/execution_error.h
+++ b/src/t86/execution_error.h
@@ -1,3 +1,4 @@
+#pragma once
 #include <exception>
 #include <string>
 
-- 
2.43.0


From 353de967cc3117eb57113140d8a78dbbbf61fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:38 +0000
Subject: [PATCH 05/46] fix: memory accesses in flight ignored a value set by
 the debugger

---
 src/t86/ram.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/t86/ram.cpp b/src/t86/ram.cpp
index 1797e99..a47a7b4 100644
--- a/src/t86/ram.cpp
+++ b/src/t86/ram.cpp
@@ -75,6 +75,12 @@ namespace tiny::t86 {
 
     void RAM::set(std::size_t address, int64_t value) {
         mem_.at(address) = value;
+        // Accesses still in flight carry the previous value of the cell
+        reads_.erase(address);
+        if (auto it = writes_.find(address); it != writes_.end()) {
+            writesById_.erase(it->second.id);
+            writes_.erase(it);
+        }
     }
 
     std::size_t RAM::size() const {
-- 
2.43.0


From eedca5776abab7a3de1b9292b5b863647d14f120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:38 +0000
Subject: [PATCH 06/46] fix: trap flag stayed set when a single step ended with
 a breakpoint

---
 src/t86/debug.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/t86/debug.cpp b/src/t86/debug.cpp
index 9044c52..bbf04a5 100644
--- a/src/t86/debug.cpp
+++ b/src/t86/debug.cpp
@@ -105,8 +105,9 @@ namespace tiny::t86 {
     bool Debug::Work(BreakReason reason) {
         if (reason == BreakReason::SingleStep) {
             log_info("Debug handler: After singlestep");
-            cpu.unsetTrapFlag();
         } 
+        // A single step can end with a different reason (ie. hardware breakpoint)
+        cpu.unsetTrapFlag();
         log_info("Sending stop message to the debugger");
         messenger->Send("STOPPED");
         
-- 
2.43.0


From f3b5e9bf1d7622cddd966864facdc353247b4bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:09 +0000
Subject: [PATCH 07/46] fix: a removed watchpoint stayed active in the debuggee

---
 src/debugger/Native.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index e2b1d8b..f483a09 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -377,11 +377,12 @@ void Native::SetWatchpointWrite(uint64_t address) {
 void Native::RemoveWatchpoint(uint64_t address) {
     auto wp = watchpoints.find(address);
     if (wp == watchpoints.end()) {
-        throw DebuggerError("A watchpoint is already set on that address.");
+        throw DebuggerError("No watchpoint is set on that address.");
     }
     
     auto dbg_regs = process->FetchDebugRegisters();
     Arch::DeactivateDebugRegister(wp->second.hw_reg, dbg_regs);
+    process->SetDebugRegisters(dbg_regs);
     watchpoints.erase(address); 
 }
 
-- 
2.43.0


From 2bad413c20a0ba5fa7305b6f863b979b78c5b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:00 +0000
Subject: [PATCH 08/46] fix: writing text ignored disabled breakpoints and
 applied rejected writes in part

---
 src/debugger/Native.cpp     | 20 ++++++++++----------
 src/debugger/T86Process.cpp |  7 +++++--
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index f483a09..7831e96 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -51,9 +51,8 @@ void Native::DisableSoftwareBreakpoint(uint64_t address) {
 }
 
 std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
-    // TODO: Needs to replace if some breakpoints are set.
     auto text_size = TextSize();
-    if (address + amount > text_size) {
+    if (amount > text_size || address > text_size - amount) {
         throw DebuggerError(
             fmt::format("Reading text at range {}-{}, but text size is {}",
                         address, address + amount, text_size));
@@ -73,24 +72,25 @@ std::vector<std::string> Native::ReadText(uint64_t address, size_t amount) {
 
 void Native::WriteText(uint64_t address, std::vector<std::string> text) {
     auto text_size = TextSize();
-    if (address + text.size() > text_size) {
+    if (text.size() > text_size || address > text_size - text.size()) {
         throw DebuggerError(
             fmt::format("Writing text at range {}-{}, but text size is {}",
                         address, address + text.size(), text_size));
     }
-    // Some of the code we want to rewrite might
-    // be occupied by a breakpoint, so instead
-    // we write it into its saved data and
-    // persist the breakpoint in the debuggee.
+    process->WriteText(address, text);
+    // Some of the code we have rewritten might
+    // have been occupied by a breakpoint, so save
+    // it and put the breakpoint back into the debuggee.
     for (size_t i = 0; i < text.size(); ++i) {
         uint64_t curr_addr = i + address;
         auto bp = software_breakpoints.find(curr_addr);
         if (bp != software_breakpoints.end()) {
-            bp->second.data = text[i];
-            text[i] = GetSoftwareBreakpointOpcode();
+            bp->second.data = process->ReadText(curr_addr, 1).at(0);
+            if (bp->second.enabled) {
+                process->WriteText(curr_addr, {std::string(GetSoftwareBreakpointOpcode())});
+            }
         }
     }
-    process->WriteText(address, text);
 }
 
 DebugEvent Native::PerformSingleStep() {
diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index 69cde65..b65b327 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -7,8 +7,9 @@
 /// respected.
 void T86Process::WriteText(uint64_t address,
                            const std::vector<std::string> &data) {
-    for (size_t i = 0; i < data.size(); ++i) {
-        std::istringstream iss(data[i]);
+    // Check everything first, so that nothing is written on error.
+    for (const auto& ins: data) {
+        std::istringstream iss(ins);
         Parser p(iss);
         try {
             p.Instruction();
@@ -16,6 +17,8 @@ void T86Process::WriteText(uint64_t address,
         } catch (const ParserError& err) {
             throw DebuggerError(fmt::format("Error in parsing instruction: {}", err.what()));
         }
+    }
+    for (size_t i = 0; i < data.size(); ++i) {
         process->Send(fmt::format("POKETEXT {} {}", address + i, data[i]));
         CheckResponse("POKETEXT error");
     }
-- 
2.43.0


From b4a17fad43d4cf175308850615c48b8e906dbbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:00 +0000
Subject: [PATCH 09/46] fix: SetAllBreakpoints and SetAllWatchpoints did not
 replace existing ones

---
 src/debugger/Native.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 7831e96..f0dacff 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -258,8 +258,8 @@ void Native::SetRegister(const std::string& name, int64_t value) {
 
 void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
     // Unset existing breakpoints
-    for (auto&& bp: software_breakpoints) {
-        DisableSoftwareBreakpoint(bp.first);
+    while (!software_breakpoints.empty()) {
+        UnsetBreakpoint(software_breakpoints.begin()->first);
     }
 
     for (auto&& breakpoint: bkpts) {
@@ -273,8 +273,8 @@ void Native::SetAllBreakpoints(std::map<uint64_t, SoftwareBreakpoint> bkpts) {
 }
 
 void Native::SetAllWatchpoints(std::map<uint64_t, Watchpoint> watchpoints) {
-    for (auto&& wp: this->watchpoints) {
-        RemoveWatchpoint(wp.first);
+    while (!this->watchpoints.empty()) {
+        RemoveWatchpoint(this->watchpoints.begin()->first);
     }
 
     for (auto&& wp: watchpoints) {
-- 
2.43.0


From ed2bb497be0bc6e5a9a697fe266d361ae88f804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:00 +0000
Subject: [PATCH 10/46] fix: step over ran through breakpoints and events at
 the call and its target

---
 src/debugger/Native.cpp | 53 +++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index f0dacff..265ef36 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -121,13 +121,21 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
     auto is_call = std::find_if(calls.begin(), calls.end(),
                                 [&text](auto&& ins) { return text.starts_with(ins); });
     if (is_call != calls.end()) {
-        bool bp_exists = software_breakpoints.contains(ip + 1);
-        if (!bp_exists) {
-            SetBreakpoint(ip + 1); 
+        auto current_bp = software_breakpoints.find(ip);
+        if (!skip_bp && current_bp != software_breakpoints.end()
+                && current_bp->second.enabled) {
+            // Runs onto the breakpoint and reports it.
+            return DoRawSingleStep();
         }
-        // To step over a breakpoint on current line.
-        if (skip_bp) {
-            PerformSingleStep();
+        const uint64_t ret = ip + 1;
+        auto ret_bp = software_breakpoints.find(ret);
+        const bool bp_exists = ret_bp != software_breakpoints.end();
+        const bool bp_enabled = bp_exists && ret_bp->second.enabled;
+        const bool ret_in_text = ret < TextSize();
+        if (bp_exists) {
+            EnableSoftwareBreakpoint(ret);
+        } else if (ret_in_text) {
+            SetBreakpoint(ret);
         }
         // There is a problem with recursive functions. They can hit the breakpoint
         // also. We do this bold heuristic where we check if the BP is the same,
@@ -135,34 +143,33 @@ DebugEvent Native::PerformStepOver(bool skip_bp) {
         // this guy, especially if they're recursive.
         auto bp = GetRegister("BP");
         DebugEvent e;
+        bool returned = false;
         while (true) {
+            // Also steps over a breakpoint on current instruction.
             ContinueExecution();
             e = WaitForDebugEvent();
-            // If we landed on the same position we came from
-            if (bp == GetRegister("BP")
-                    && GetIP() == ip + 1
-                    && std::holds_alternative<BreakpointHit>(e)) {
-                break;
-            }
-            // If other breakpoint happened
-            if (std::holds_alternative<BreakpointHit>(e)
-                    && GetIP() != ip + 1) {
+            // Some other event or a breakpoint somewhere else
+            if (!std::holds_alternative<BreakpointHit>(e) || GetIP() != ret) {
                 break;
             }
-            // Totally other event
-            if (!std::holds_alternative<BreakpointHit>(e)) {
+            // If we landed on the same position we came from
+            returned = bp == GetRegister("BP");
+            // The user wants to stop here even in a recursive call
+            if (returned || bp_enabled) {
                 break;
             }
         }
 
-        if (!bp_exists) {
-            UnsetBreakpoint(ip + 1);
+        if (bp_exists && !bp_enabled) {
+            DisableSoftwareBreakpoint(ret);
+        } else if (!bp_exists && ret_in_text) {
+            UnsetBreakpoint(ret);
         }
-        // We probably hit some other breakpoint in the call.
-        if (GetIP() != ip + 1) {
-            return e;
-        } else {
+        // If not returned, we probably hit some other breakpoint in the call.
+        if (returned) {
             return Singlestep{};
+        } else {
+            return e;
         }
     } else {
         if (skip_bp) {
-- 
2.43.0


From 3fb8d130ed4fb496573af4b04e4f9bf8d958b259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:00 +0000
Subject: [PATCH 11/46] fix: a breakpoint outside of the program crashed the
 debuggee

---
 src/debugger/Native.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/debugger/Native.cpp b/src/debugger/Native.cpp
index 265ef36..95b6b71 100644
--- a/src/debugger/Native.cpp
+++ b/src/debugger/Native.cpp
@@ -446,6 +446,12 @@ std::string_view Native::GetSoftwareBreakpointOpcode() const {
 }
 
 SoftwareBreakpoint Native::CreateSoftwareBreakpoint(uint64_t address) {
+    auto text_size = TextSize();
+    if (address >= text_size) {
+        throw DebuggerError(
+            fmt::format("Setting breakpoint at {}, but text size is {}",
+                        address, text_size));
+    }
     auto opcode = GetSoftwareBreakpointOpcode();
     auto backup = process->ReadText(address, 1).at(0);
 
-- 
2.43.0


From 05d8ec743722fc3895be95606b1640e54bb54762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 12/46] fix: malformed and too large numbers were not parse
 errors

---
 src/common/parsing.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index ec2cc2a..4c023e0 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -6,19 +6,25 @@ TokenKind Lexer::ParseNumber() {
     while (true) {
         lookahead = GetChar();
         if (lookahead == '.') {
+            if (is_float) {
+                throw ParserError(fmt::format("Malformed number '{}.'", num));
+            }
             is_float = true;
-
         } else if (!isdigit(lookahead)) {
             break;
         }
         num += lookahead;
     }
-    if (is_float) {
-        float_number = std::stod(num);
-        return TokenKind::FLOAT;
-    } else {
-        number = std::stoi(num);
-        return TokenKind::NUM;
+    try {
+        if (is_float) {
+            float_number = std::stod(num);
+            return TokenKind::FLOAT;
+        } else {
+            number = std::stoi(num);
+            return TokenKind::NUM;
+        }
+    } catch (const std::out_of_range&) {
+        throw ParserError(fmt::format("Number '{}' is out of range", num));
     }
 }
 
-- 
2.43.0


From feac8fc049719cc6e6227d005cc93ec1bdbdf007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 13/46] fix: expressions: <= and >= were not parsed, text after
 an expression was ignored

---
 src/debugger/Source/ExpressionParser.cpp | 2 ++
 src/debugger/Source/ExpressionParser.h   | 6 +++++-
 src/debugger/Source/Source.cpp           | 2 +-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/ExpressionParser.cpp b/src/debugger/Source/ExpressionParser.cpp
index 7407878..9878291 100644
--- a/src/debugger/Source/ExpressionParser.cpp
+++ b/src/debugger/Source/ExpressionParser.cpp
@@ -76,6 +76,8 @@ std::unique_ptr<Expression> ExpressionParser::logical() {
 std::unique_ptr<Expression> ExpressionParser::comparison() {
     std::unique_ptr<Expression> result = shifts();
     while (curtok.kind == TokenKind::LESS
+            || curtok.kind == TokenKind::LEQ
+            || curtok.kind == TokenKind::GEQ
             || curtok.kind == TokenKind::GREATER) {
         auto kind = curtok.kind;
         GetNext();
diff --git a/src/debugger/Source/ExpressionParser.h b/src/debugger/Source/ExpressionParser.h
index 8a7e9b1..bc848dd 100644
--- a/src/debugger/Source/ExpressionParser.h
+++ b/src/debugger/Source/ExpressionParser.h
@@ -27,7 +27,11 @@ class ExpressionParser {
 public:
     ExpressionParser(std::istream& is): lex(is) { GetNext(); }
     std::unique_ptr<Expression> ParseExpression() {
-        return expr();
+        auto e = expr();
+        if (curtok.kind != TokenKind::END) {
+            throw CreateError("Expected end of expression");
+        }
+        return e;
     }
 private:
     template<typename ...Args>
diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index f57a198..7d3ef13 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -342,9 +342,9 @@ std::map<std::string, const DIE*> Source::GetActiveVariables(uint64_t address) c
 std::pair<TypedValue, size_t>
 Source::EvaluateExpression(Native& native, std::string expression, bool cache) {
     std::istringstream iss(std::move(expression));
-    ExpressionParser parser(iss);
     std::unique_ptr<Expression> e; 
     try {
+        ExpressionParser parser(iss);
         e = parser.ParseExpression();
     } catch (const ParserError& err) {
         throw DebuggerError(fmt::format("Unable to parse expression: {}", err.what()));
-- 
2.43.0


From 3f83a629393b946961e89f5b38db3a0e9379459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 14/46] fix: chained assignment in an expression assigned the
 first variable only

---
 src/debugger/Source/ExpressionParser.cpp | 5 +++--
 src/debugger/Source/ExpressionParser.h   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/debugger/Source/ExpressionParser.cpp b/src/debugger/Source/ExpressionParser.cpp
index 9878291..83bb3a7 100644
--- a/src/debugger/Source/ExpressionParser.cpp
+++ b/src/debugger/Source/ExpressionParser.cpp
@@ -34,10 +34,11 @@ std::unique_ptr<Expression> ExpressionParser::expr() {
 
 std::unique_ptr<Expression> ExpressionParser::assign() {
     std::unique_ptr<Expression> result = equality();
-    while (curtok.kind == TokenKind::ASSIGN) {
+    // Assignment is right associative
+    if (curtok.kind == TokenKind::ASSIGN) {
         auto kind = curtok.kind;
         GetNext();
-        auto next = equality();
+        auto next = assign();
         result = std::make_unique<BinaryOperator>(std::move(result),
                                                   operators.at(kind),
                                                   std::move(next));
diff --git a/src/debugger/Source/ExpressionParser.h b/src/debugger/Source/ExpressionParser.h
index bc848dd..3ba5057 100644
--- a/src/debugger/Source/ExpressionParser.h
+++ b/src/debugger/Source/ExpressionParser.h
@@ -12,7 +12,7 @@
 ///                  
 /// Context-free syntax:
 ///  expr = assign
-///  assign = equality {"=" equality}
+///  assign = equality ["=" assign]
 ///  equality = logical {("==" | "!=") logical}
 ///  logical = comparison {("&&" | "||") comparison}
 ///  comparison = term {("<" | "<=" | ">=" | ">") term}
-- 
2.43.0


From 6ff2bfe78e51d6afd501494b16d6837bc0ebfccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 15/46] fix: assignment to a float variable stored it as an
 integer

---
 src/debugger/Source/Expression.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 8b329f2..048942f 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -322,7 +322,8 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             return std::move(left);
         },
         [&](FloatValue&& left, FloatValue&& right) -> TypedValue {
-            SetRaw(native, left.loc.value(), right.value);
+            SetRaw(native, left.loc.value(),
+                   utils::reinterpret_safe<uint64_t>(right.value));
             left.value = right.value;
             return std::move(left);
         },
-- 
2.43.0


From 6583e177384675f6cad6b0d1f8c4a036707b49b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 16/46] fix: expressions: bad indexes, sizes, types and
 divisions crashed the debugger

---
 src/debugger/Source/Expression.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 048942f..253e7e9 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -1,5 +1,6 @@
 #include <variant>
 #include <functional>
+#include <limits>
 #include "Expression.h"
 #include "Source.h"
 #include "debugger/Source/ExpressionInterpreter.h"
@@ -45,7 +46,7 @@ TypedValue ExpressionEvaluator::EvaluateTypeAndLocation(const expr::Location& lo
             } else if (t.type == PrimitiveType::Type::CHAR) {
                 return CharValue{utils::reinterpret_safe<char>(raw_value), loc};
             } else {
-                NOT_IMPLEMENTED;
+                throw DebuggerError("Values of this type are not supported");
             }
         },
         [&](const PointerType& t) -> TypedValue {
@@ -241,6 +242,9 @@ void ExpressionEvaluator::Visit(const ArrayAccess& id) {
         if (idx == nullptr) {
             throw DebuggerError("Can only indexate with integers");
         }
+        if (idx->value < 0) {
+            throw DebuggerError(fmt::format("Out of bounds access: {} < 0", idx->value));
+        }
         if (idx->value >= static_cast<int64_t>(av->members.size())) {
             throw DebuggerError(fmt::format("Out of bounds access: {} >= {}", idx->value, av->members.size()));
         }
@@ -250,6 +254,14 @@ void ExpressionEvaluator::Visit(const ArrayAccess& id) {
     }
 }
 
+/// The only division of integers that overflows.
+bool DivisionOverflows(const TypedValue& left, const TypedValue& right) {
+    auto l = std::get_if<IntegerValue>(&left);
+    auto r = std::get_if<IntegerValue>(&right);
+    return l && r && r->value == -1
+        && l->value == std::numeric_limits<int64_t>::min();
+}
+
 bool CheckZero(const TypedValue& val) {
     return std::visit(utils::overloaded{
         [](const IntegerValue& v) {
@@ -344,7 +356,9 @@ TypedValue ExpressionEvaluator::Assignment(TypedValue&& left, TypedValue&& right
             if (left.type.type_id != right.type.type_id) {
                 throw DebuggerError("Incopatible pointer types");
             }
-            assert(left.members.size() == right.members.size());
+            if (left.members.size() != right.members.size()) {
+                throw DebuggerError("Incompatible array sizes");
+            }
             for (size_t i = 0; i < left.members.size(); ++ i) {
                 left.members.at(i) = Assignment(std::move(left.members.at(i)),
                                                 std::move(right.members.at(i)));
@@ -392,6 +406,9 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
         if (!CheckZero(right)) {
             throw DebuggerError("Can't divide by zero");
         }
+        if (DivisionOverflows(left, right)) {
+            throw DebuggerError("Division overflows");
+        }
         visitor_value = ArithmeticOp(std::move(left),
                                      std::divides{},
                                      std::move(right));
@@ -399,6 +416,9 @@ void ExpressionEvaluator::Visit(const BinaryOperator& plus) {
         if (!CheckZero(right)) {
             throw DebuggerError("Can't divide by zero");
         }
+        if (DivisionOverflows(left, right)) {
+            throw DebuggerError("Division overflows");
+        }
         visitor_value = BitValues(std::move(left),
                                   std::modulus{},
                                   std::move(right));
-- 
2.43.0


From ffdfaa7b19c4c0b54446e8fea5e5726b1f939777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 17/46] fix: memory bounds check overflowed for negative
 addresses

---
 src/debugger/T86Process.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debugger/T86Process.cpp b/src/debugger/T86Process.cpp
index b65b327..f28ecbd 100644
--- a/src/debugger/T86Process.cpp
+++ b/src/debugger/T86Process.cpp
@@ -38,7 +38,7 @@ std::vector<std::string> T86Process::ReadText(uint64_t address, size_t amount) {
 }
 
 void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data) {
-    if (address + data.size() > data_size) {
+    if (data.size() > data_size || address > data_size - data.size()) {
         throw DebuggerError(fmt::format("Writing memory at {}-{}, but size is {}",
                     address, address + data.size() - 1, data_size));
     }
@@ -49,7 +49,7 @@ void T86Process::WriteMemory(uint64_t address, const std::vector<int64_t>& data)
 }
 
 std::vector<int64_t> T86Process::ReadMemory(uint64_t address, size_t amount) {
-    if (address + amount > data_size) {
+    if (amount > data_size || address > data_size - amount) {
         throw DebuggerError(fmt::format("Reading memory at {}-{}, but size is {}",
                     address, address + amount - 1, data_size));
     }
-- 
2.43.0


From 1ca739342d12a603ac9088732b78459d664b4bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 18/46] fix: DEREFERENCE in a location dereferenced twice,
 missing operands crashed

---
 src/debugger/Source/ExpressionInterpreter.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/ExpressionInterpreter.cpp b/src/debugger/Source/ExpressionInterpreter.cpp
index b42ed87..e30ad93 100644
--- a/src/debugger/Source/ExpressionInterpreter.cpp
+++ b/src/debugger/Source/ExpressionInterpreter.cpp
@@ -54,6 +54,9 @@ void ExpressionInterpreter::Interpret() {
                 s.push(ins.value);
             },
             [&](const expr::Add& ins) {
+                if (s.size() < 2) {
+                    throw DebuggerError("Location expression: not enough operands for ADD");
+                }
                 auto v1 = s.top();
                 s.pop();
                 auto v2 = s.top();
@@ -67,15 +70,18 @@ void ExpressionInterpreter::Interpret() {
                 s.push(expr::Offset{loc});
             },
             [&](const expr::Dereference& ins) {
+                if (s.empty()) {
+                    throw DebuggerError("Location expression: no operand for DEREFERENCE");
+                }
                 auto v1 = s.top();
+                s.pop();
                 auto v = std::visit(utils::overloaded {
                         [&](const expr::Register& reg) {
                             auto idx = native.GetRegister(reg.name);
                             return native.ReadMemory(idx, 1)[0];
                         },
                         [&](const expr::Offset& offset) {
-                            auto idx = native.ReadMemory(offset.value, 1)[0];
-                            return native.ReadMemory(idx, 1)[0];
+                            return native.ReadMemory(offset.value, 1)[0];
                         }
                 }, v1);
                 s.push(expr::Offset{v});
-- 
2.43.0


From 6b01dafdf765535d4125cee9ad6a22b1f43d4c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 19/46] fix: incomplete information about a structured type
 crashed the debugger

---
 src/debugger/Source/Source.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 7d3ef13..2a7c7f8 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -222,6 +222,10 @@ void Source::ReconstructTypeInformation() {
             auto name = FindDieAttribute<ATTR_name>(die);
             auto size = FindDieAttribute<ATTR_size>(die);
             auto members = FindDieAttribute<ATTR_members>(die);
+            if (!name || !size || !members) {
+                log_error("DIE structured type, missing name, size or members");
+                continue;
+            }
             std::vector<StructuredMember> members_vec;
             std::transform(members->m.begin(), members->m.end(),
                     std::back_inserter(members_vec),
-- 
2.43.0


From d0d9aae828888475425cbd10cc1dcd81b941309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 20/46] fix: a variable described after a nested scope hid the
 one in that scope

---
 src/debugger/Source/Source.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/debugger/Source/Source.cpp b/src/debugger/Source/Source.cpp
index 2a7c7f8..dcf5fe3 100644
--- a/src/debugger/Source/Source.cpp
+++ b/src/debugger/Source/Source.cpp
@@ -330,8 +330,16 @@ void FindVariables(uint64_t address, const DIE& die, std::map<std::string, const
             return;
         }
     }
+    // Variables in nested scopes hide the ones declared here.
     for (const auto& d: die) {
-        FindVariables(address, d, result);
+        if (d.get_tag() == DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
+    }
+    for (const auto& d: die) {
+        if (d.get_tag() != DIE::TAG::variable) {
+            FindVariables(address, d, result);
+        }
     }
 }
 
-- 
2.43.0


From 01494fc1e03a8ddf97c696c17fb6b131bca27379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:28 +0000
Subject: [PATCH 21/46] fix: difference of pointers was not scaled by the size
 of the pointee

---
 src/debugger/Source/Expression.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Expression.cpp b/src/debugger/Source/Expression.cpp
index 253e7e9..fab6a09 100644
--- a/src/debugger/Source/Expression.cpp
+++ b/src/debugger/Source/Expression.cpp
@@ -162,11 +162,15 @@ TypedValue ExpressionEvaluator::SubValues(TypedValue&& left, TypedValue&& right)
             auto item_size = source.GetTypeSize(left.type.type_id);
             return PointerValue{left.type, left.value - right.value * item_size};
         },
-        [](PointerValue&& left, PointerValue&& right) -> TypedValue {
+        [this](PointerValue&& left, PointerValue&& right) -> TypedValue {
             if (left.type.type_id != right.type.type_id) {
                 throw DebuggerError("Only pointers to the same type can be substracted");
             }
-            return IntegerValue{static_cast<int64_t>(left.value - right.value)};
+            auto item_size = static_cast<int64_t>(source.GetTypeSize(left.type.type_id));
+            if (item_size == 0) {
+                throw DebuggerError("Pointers to a type without size can't be subtracted");
+            }
+            return IntegerValue{static_cast<int64_t>(left.value - right.value) / item_size};
         },
         [](auto&&, auto&&) -> TypedValue {
             throw DebuggerError("Unsupported types for operator '-'");
-- 
2.43.0


From eec9de3364c05e5ca785738765ffac6349a3d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:47 +0000
Subject: [PATCH 22/46] fix: assembler accepted '-' not followed by a number,
 [R - R] and crashed on [R + R * ]

---
 src/t86-parser/parser.cpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index c4c62a4..c1031ab 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -79,7 +79,9 @@ int64_t Parser::Imm() {
         int neg = 1;
         if (curtok.kind == TokenKind::MINUS) {
             neg = -1;
-            GetNext();
+            if (GetNext() != TokenKind::NUM) {
+                throw CreateError("Expected i");
+            }
         }
         auto val = neg * lex.getNumber();
         GetNext();
@@ -227,9 +229,7 @@ tiny::t86::Operand Parser::Memory() {
         GetNext();
         // Must be [i]
         if (IsNumber(curtok)) {
-            auto imm = lex.getNumber();
-            GetNext();
-            result = Mem(imm);
+            result = Mem(Imm());
         } else if (curtok.kind == TokenKind::ID) {
             auto regname1 = lex.getId();
             auto reg1 = getRegister(regname1);
@@ -266,23 +266,21 @@ tiny::t86::Operand Parser::Memory() {
                     } else {
                         result = Mem(reg1 + imm1);
                     }
-                } else if (curtok.kind == TokenKind::ID) {
+                } else if (curtok.kind == TokenKind::ID && !minus) {
                     auto regname2 = lex.getId();
                     auto reg2 = getRegister(regname2);
                     GetNext();
                     // Must be [R + R * i]
                     if (curtok.kind == TokenKind::TIMES) {
                         GetNext();
-                        if (IsNumber(curtok)) {
-                            auto imm = Imm();
-                            result = Mem(reg1 + reg2 * imm);
-                        }
+                        auto imm = Imm();
+                        result = Mem(reg1 + reg2 * imm);
                     // Must be [R + R]
                     } else {
                         result = Mem(reg1 + reg2);
                     }
                 } else {
-                    throw CreateError("Expected either i or R");
+                    throw CreateError("Expected either '+ i', '- i' or '+ R'");
                 }
             // Must be [R * i]
             } else if (curtok.kind == TokenKind::TIMES) {
@@ -394,7 +392,7 @@ std::unique_ptr<tiny::t86::MOV> Parser::ParseMOV() {
 
 std::unique_ptr<tiny::t86::Instruction> Parser::Instruction() {
     // Address at the beginning is optional
-    if (IsNumber(curtok)) {
+    if (curtok.kind == TokenKind::NUM) {
         GetNext();
     }
 
@@ -496,7 +494,7 @@ std::unique_ptr<tiny::t86::Instruction> Parser::Instruction() {
 #undef PARSE_NULLARY
 
 void Parser::Text() {
-    while (IsNumber(curtok) || curtok.kind == TokenKind::ID) {
+    while (curtok.kind == TokenKind::NUM || curtok.kind == TokenKind::ID) {
         auto ins = Instruction();
         program.push_back(std::move(ins));
     }
-- 
2.43.0


From 781c1fbd51776e616ad16598e018b970823cf38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:11 +0000
Subject: [PATCH 23/46] fix: assembler rejected negative float immediates

---
 src/t86-parser/parser.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index c1031ab..b63deff 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -92,8 +92,13 @@ int64_t Parser::Imm() {
 }
 
 tiny::t86::Operand Parser::FloatImm() {
+    double sign = 1;
+    if (curtok.kind == TokenKind::MINUS) {
+        sign = -1;
+        GetNext();
+    }
     if (curtok.kind == TokenKind::FLOAT) {
-        double val = lex.getFloat();
+        double val = sign * lex.getFloat();
         GetNext();
         return tiny::t86::Operand(val);
     } else {
@@ -104,7 +109,7 @@ tiny::t86::Operand Parser::FloatImm() {
 tiny::t86::Operand Parser::FloatImmOrRegister() {
     if (curtok.kind == TokenKind::ID) {
         return FloatRegister();
-    } else if (curtok.kind == TokenKind::FLOAT) {
+    } else if (curtok.kind == TokenKind::FLOAT || curtok.kind == TokenKind::MINUS) {
         return FloatImm();
     } else {
         throw CreateError("Expected either f or F");
@@ -320,6 +325,15 @@ tiny::t86::Operand Parser::Operand() {
         } else {
             return Register();
         }
+    } else if (curtok.kind == TokenKind::MINUS) {
+        GetNext();
+        if (curtok.kind == TokenKind::FLOAT) {
+            return tiny::t86::Operand(-FloatImm().getFloatValue());
+        } else if (curtok.kind == TokenKind::NUM) {
+            return -Imm();
+        } else {
+            throw CreateError("Expected either i or f");
+        }
     } else if (IsNumber(curtok)) {
         return Imm();
     } else if (curtok.kind == TokenKind::FLOAT) {
-- 
2.43.0


From bb02f926ad0fa3313af2241188ce27e369793669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:27 +0000
Subject: [PATCH 24/46] fix: printed instructions lost digits of floats and did
 not show negative addresses

---
 src/t86/cpu/memory.h             |  2 +-
 src/t86/instructions/operand.cpp | 16 +++++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/t86/cpu/memory.h b/src/t86/cpu/memory.h
index 14d4139..0190577 100644
--- a/src/t86/cpu/memory.h
+++ b/src/t86/cpu/memory.h
@@ -15,7 +15,7 @@ namespace tiny::t86::Memory {
         size_t index() const { return index_; }
 
         std::string toString() const {
-            return "[" + std::to_string(index_) + "]";
+            return "[" + std::to_string(static_cast<int64_t>(index_)) + "]";
         }
 
     private:
diff --git a/src/t86/instructions/operand.cpp b/src/t86/instructions/operand.cpp
index c4bbc97..bdcfcf0 100644
--- a/src/t86/instructions/operand.cpp
+++ b/src/t86/instructions/operand.cpp
@@ -3,10 +3,24 @@
 #include "helpers.h"
 
 #include <cassert>
+#include <charconv>
+#include <iterator>
 
 
 namespace tiny::t86 {
 
+    /// The shortest decimal number which is read back as the same value.
+    static std::string floatToString(double value) {
+        char buffer[512];
+        auto result = std::to_chars(std::begin(buffer), std::end(buffer), value,
+                                    std::chars_format::fixed);
+        std::string str(buffer, result.ptr);
+        if (str.find('.') == std::string::npos) {
+            str += ".0";
+        }
+        return str;
+    }
+
     Operand::Operand(int64_t value) : value_(value) {}
 
     Operand::Operand(double value) : value_(value) {}
@@ -417,7 +431,7 @@ namespace tiny::t86 {
         } else if (isMemoryRegisterOffsetRegisterScaled()) {
             return getMemoryRegisterOffsetRegisterScaled().toString();
         } else if (isFloatValue()) {
-            return std::to_string(getFloatValue());
+            return floatToString(getFloatValue());
         } else if (isFloatRegister()) {
             return getFloatRegister().toString();
         }
-- 
2.43.0


From c314c632bb2100ec741810490c6b5aebc6687e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:27 +0000
Subject: [PATCH 25/46] fix: t86-cli crashed on a file beginning with an
 invalid token

---
 src/t86-cli/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index 693e76d..ae68df3 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -58,9 +58,9 @@ int main(int argc, char* argv[]) {
         return 3;
     }
 
-    Parser parser(f);
     tiny::t86::Program program;
     try {
+        Parser parser(f);
         program = parser.Parse();
         // program.dump();
     } catch (ParserError &err) {
-- 
2.43.0


From 85754c9887ef47b3ac889e6d1010c405d695ef28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:49 +0000
Subject: [PATCH 26/46] fix: first token of a skipped section had to be a valid
 token

---
 src/t86-parser/parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index b63deff..2b2a0c3 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -11,16 +11,17 @@ void Parser::Section() {
         throw CreateError("Expected '.section_name'");
     }
     std::string section_name = lex.getId();
-    GetNext();
-
     log_info("Parsing '{}' section", section_name);
     if (section_name == "text") {
+        GetNext();
         Text();
     } else if (section_name == "data") {
+        GetNext();
         Data();
     } else {
         log_info("Skipping '{}' section", section_name);
         lex.SetIgnoreMode(true);
+        GetNext();
         while (curtok.kind != TokenKind::DOT && curtok.kind != TokenKind::END) {
             GetNext();
         };
-- 
2.43.0


From 78ef0de05ff8e40d6528c124e08719d8edae3581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:49 +0000
Subject: [PATCH 27/46] fix: t86-cli crashed on data larger than the memory

---
 src/t86-cli/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/t86-cli/main.cpp b/src/t86-cli/main.cpp
index ae68df3..bf800e8 100644
--- a/src/t86-cli/main.cpp
+++ b/src/t86-cli/main.cpp
@@ -72,6 +72,11 @@ int main(int argc, char* argv[]) {
     size_t fltregs = args.get<size_t>("--float-register-cnt");
     size_t memsize = args.get<size_t>("--memory-size");
 
+    if (program.data().size() > memsize) {
+        std::cerr << "The data section does not fit into the memory\n";
+        return 2;
+    }
+
     OS os(regs, fltregs, memsize);
 
     if (args["debug"] == true) {
-- 
2.43.0


From 493da1fd07066e7cd1aea533522faf767a2f9e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:36 +0000
Subject: [PATCH 28/46] fix: assembler accepted a float as the destination of
 MOV

---
 src/t86-parser/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/t86-parser/parser.cpp b/src/t86-parser/parser.cpp
index 2b2a0c3..5466724 100644
--- a/src/t86-parser/parser.cpp
+++ b/src/t86-parser/parser.cpp
@@ -376,8 +376,8 @@ std::unique_ptr<tiny::t86::MOV> Parser::ParseMOV() {
     }
     GetNext();
     auto from = Operand();
-    if (dest.isValue() || dest.isRegisterOffset()) {
-        throw CreateError("MOV can't have i or R + i as dest");
+    if (dest.isValue() || dest.isFloatValue() || dest.isRegisterOffset()) {
+        throw CreateError("MOV can't have i, f or R + i as dest");
     } else if (dest.isRegister()) {
         // Allows almost everyting
         if (from.isRegisterOffset()) {
-- 
2.43.0


From f4b752e801db9bd9d7867225e32130fb9c5e4ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:02 +0000
Subject: [PATCH 29/46] fix: a TCP message was corrupted when its header
 arrived in pieces or sending failed

---
 src/common/TCP.h | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index b3960f4..883be7f 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -52,7 +52,11 @@ private:
 inline void SendRaw(int socket, const uint8_t* data, size_t size) {
     size_t sent = 0;
     while (sent < size) {
-        sent += send(socket, &data[sent], size - sent, 0);
+        ssize_t err = send(socket, &data[sent], size - sent, 0);
+        if (err < 0) {
+            throw TCPError("Sending failed");
+        }
+        sent += err;
     }
 }
 
@@ -66,27 +70,33 @@ inline void Send(int socket, const std::string& s) {
     SendRaw(socket, reinterpret_cast<const uint8_t*>(s.c_str()), s.length());
 }
 
-inline std::optional<std::string> Receive(int socket) {
-    // The messages are in form 8b | data
-    size_t size = 0;
-    int err = read(socket, &size, sizeof(size_t));
-    if (err < 0) {
-        throw TCPError("Reading failed");
-    } if (err == 0) {
-        return std::nullopt;
-    }
-
+/// Reads exactly 'size' bytes. Returns false if the connection
+/// has been closed before that.
+inline bool ReceiveRaw(int socket, uint8_t* data, size_t size) {
     size_t received = 0;
-    std::vector<uint8_t> data(size);
     while (received < size) {
-        int err = read(socket, data.data() + received, size - received);
+        ssize_t err = read(socket, data + received, size - received);
         if (err < 0) {
             throw TCPError("Reading failed");
         } else if (err == 0) {
-            return std::nullopt;
+            return false;
         }
         received += err;
     }
+    return true;
+}
+
+inline std::optional<std::string> Receive(int socket) {
+    // The messages are in form 8b | data
+    size_t size = 0;
+    if (!ReceiveRaw(socket, reinterpret_cast<uint8_t*>(&size), sizeof(size_t))) {
+        return std::nullopt;
+    }
+
+    std::vector<uint8_t> data(size);
+    if (!ReceiveRaw(socket, data.data(), size)) {
+        return std::nullopt;
+    }
     // Unecessary copy, but since the messages will be very small we frankly
     // dont care
     std::string result(data.begin(), data.end());
-- 
2.43.0


From 6fa68cf19c8a77e24bbfaaa3c3708fa09a09e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:10 +0000
Subject: [PATCH 30/46] fix: the connection stayed open after its TCP server
 was destroyed

---
 src/common/TCP.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/TCP.h b/src/common/TCP.h
index 883be7f..82ef01e 100644
--- a/src/common/TCP.h
+++ b/src/common/TCP.h
@@ -131,7 +131,7 @@ public:
 protected:
     bool initialized = false;
     int port;
-    int sock;
+    int sock{-1};
 };
 
 class TCPClient : public TCP<TCPClient> {
@@ -209,7 +209,9 @@ public:
 
     ~TCPServer() {
         if (initialized) {
+            close(sock);
             shutdown(server_fd, SHUT_RDWR);
+            close(server_fd);
         }
     }
 protected:
-- 
2.43.0


From 0cdd0362c44e0f9919bd4ffa5df4f4bea4e04d48 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:38:50 +0000
Subject: [PATCH 31/46] fix: debug information after a section beginning with
 an unknown token was refused

---
 src/debugger/Source/Parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index f65690e..2bfab2f 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -298,14 +298,16 @@ DebuggingInfo Parser::Parse() {
             // debug_source must be last section
             return info;
         }
-        GetNext();
-
         if (section_name == "debug_line") {
+            GetNext();
             info.line_mapping = DebugLine();
         } else if (section_name == "debug_info") {
+            GetNext();
             info.top_die = DebugInfo();
         } else {
+            // The first token of the section is skipped too
             lex.SetIgnoreMode(true);
+            GetNext();
             log_info("Skipping section '{}'", section_name);
             while (curtok.kind != TokenKind::DOT && curtok.kind != TokenKind::END) {
                 GetNext();
-- 
2.43.0


From 580f46492f9913d4aa3d348817fe764d8a55079a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:38:50 +0000
Subject: [PATCH 32/46] fix: debugger crashed on a file beginning with an
 invalid token

---
 src/debugger/Source/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger/Source/Parser.h b/src/debugger/Source/Parser.h
index 57412ac..66ad987 100644
--- a/src/debugger/Source/Parser.h
+++ b/src/debugger/Source/Parser.h
@@ -16,7 +16,7 @@ struct DebuggingInfo {
 /// Parser debugging information, like DIEs, line to addr mapping and so on.
 class Parser {
 public:
-    Parser(std::istream& iss) noexcept : lex(iss) { GetNext(); }
+    Parser(std::istream& iss) : lex(iss) { GetNext(); }
 
     template<typename ...Args>
     ParserError CreateError(fmt::format_string<Args...> format, Args&& ...args) const {
-- 
2.43.0


From ea184efc070b534983c42af1a328a5ad6f11a5fa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:38:50 +0000
Subject: [PATCH 33/46] fix: malformed debugging information entries were
 silently accepted

---
 src/debugger/Source/Parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/debugger/Source/Parser.cpp b/src/debugger/Source/Parser.cpp
index 2bfab2f..9569cd0 100644
--- a/src/debugger/Source/Parser.cpp
+++ b/src/debugger/Source/Parser.cpp
@@ -145,6 +145,9 @@ std::vector<expr::LocExpr> Parser::ParseExprLoc() {
             auto loc = ParseOneExprLoc();
             result.push_back(std::move(loc));
         }
+        if (curtok.kind != TokenKind::BACKTICK) {
+            throw CreateError("Expected closing '`'");
+        }
         GetNext(); // Eat the '`'
     } else if (curtok.kind == TokenKind::LBRACKET) {
         GetNext();
@@ -242,6 +245,9 @@ DIE Parser::ParseDIE(std::string name) {
     std::vector<DIE_ATTR> attributes;
     std::vector<DIE> childs;
     while (curtok.kind != TokenKind::RBRACE) {
+        if (curtok.kind != TokenKind::ID) {
+            throw CreateError("Expected either attribute or DIE name");
+        }
         auto id = lex.getId();
         GetNext();
         if (id.starts_with("ATTR")) {
@@ -250,6 +256,8 @@ DIE Parser::ParseDIE(std::string name) {
         } else if (id.starts_with("DIE")) {
             auto die = ParseDIE(std::move(id));
             childs.push_back(std::move(die));
+        } else {
+            throw CreateError("Expected either attribute or DIE, got '{}'", id);
         }
         if (curtok.kind == TokenKind::COMMA) {
             GetNext();
-- 
2.43.0


From 8d43dfcf3278ba1f3e2e28391481006678e182ca Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:40:54 +0000
Subject: [PATCH 34/46] fix: a long sequence of whitespace or comments
 overflowed the stack

---
 src/common/parsing.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index 4c023e0..e405bcb 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -54,17 +54,17 @@ void Lexer::ParseString() {
 }
 
 Token Lexer::getNext() {
-    if (lookahead == '#') {
-        while (lookahead != EOF && lookahead != '\n') {
-            GetChar();
+    // A loop and not a recursive call, the stack would not be enough for
+    // a long sequence of whitespace or comments.
+    while (lookahead == '#' || isspace(lookahead)) {
+        if (lookahead == '#') {
+            while (lookahead != EOF && lookahead != '\n') {
+                GetChar();
+            }
         }
-        if (lookahead == '\n') {
+        if (lookahead != EOF) {
             GetChar();
         }
-        return getNext();
-    } else if (isspace(lookahead)) {
-        GetChar();
-        return getNext();
     }
 
     RecordTokLoc();
-- 
2.43.0


From c773d234997e91c4f8d5e947de531d8b9ed095e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 35/46] fix: characters after a number in a command were
 ignored

---
 src/common/helpers.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/common/helpers.h b/src/common/helpers.h
index 8a9606b..53b0f73 100644
--- a/src/common/helpers.h
+++ b/src/common/helpers.h
@@ -71,7 +71,7 @@ namespace utils {
     inline std::optional<int64_t> svtoi64(std::string_view s) {
         int64_t result;
         auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
-        if (ec == std::errc()) {
+        if (ec == std::errc() && ptr == s.data() + s.size()) {
             return result;
         }
         return std::nullopt;
@@ -83,7 +83,11 @@ namespace utils {
 #ifdef __clang__
         if constexpr (std::is_floating_point_v<T>) {
             try {
-                auto res = std::stod(std::string{s});
+                size_t read;
+                auto res = std::stod(std::string{s}, &read);
+                if (read != s.size()) {
+                    return std::nullopt;
+                }
                 return res;
             } catch (...) {
                 return std::nullopt;
@@ -92,7 +96,7 @@ namespace utils {
 #endif
             T result;
             auto [ptr, ec] { std::from_chars(s.data(), s.data() + s.size(), result) };
-            if (ec == std::errc()) {
+            if (ec == std::errc() && ptr == s.data() + s.size()) {
                 return result;
             }
             return std::nullopt;
-- 
2.43.0


From 7dbec007865d8206a51da07a6081717cbfd6ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 36/46] fix: a program that cannot be loaded crashed the
 debugger and ended the previous run

---
 src/dbg-cli/CLI.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 9c2ced0..4acaa91 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -992,7 +992,6 @@ Most often, the correct address will be one below it.)";
         if (main_command == "") {
             fmt::print("{}", USAGE);
         } else if (utils::is_prefix_of(main_command, "run")) {
-            ExitProcess();
             HandleRun(command);
             return;
         } else if (utils::is_prefix_of(main_command, "attach")) {
@@ -1075,6 +1074,13 @@ Most often, the correct address will be one below it.)";
             memory_size = *v;
         }
 
+        if (program.data().size() > memory_size) {
+            Error("The data section does not fit into memory of size {}", memory_size);
+        }
+
+        // Nothing can fail from now on, so the previous run can be ended.
+        ExitProcess();
+
         auto m1 = std::make_unique<ThreadMessengerOwner>();
         auto m2 = std::make_unique<ThreadMessenger>(m1->GetOutQueue(), m1->GetInQueue());
 
@@ -1134,6 +1140,8 @@ Most often, the correct address will be one below it.)";
                 HandleCommand(line);
             } catch (const DebuggerError& err) {
                 fmt::print("Error: {}\n", err.what());
+            } catch (const ParserError& err) {
+                fmt::print("Error: {}\n", err.what());
             }
 FREE_LINE:
             free(line_raw);
-- 
2.43.0


From 2c6310b5f3c4f0af877bde532c943ed2eeb35c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 37/46] fix: attaching without a port or to a port nobody
 listens on crashed the debugger

---
 src/dbg-cli/CLI.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 4acaa91..09b47c2 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -995,10 +995,7 @@ Most often, the correct address will be one below it.)";
             HandleRun(command);
             return;
         } else if (utils::is_prefix_of(main_command, "attach")) {
-            ExitProcess();
             Attach(command);
-            is_running = true;
-            process.WaitForDebugEvent();
             return;
         } else if (utils::is_prefix_of(main_command, "help")) {
             HandleHelp(command);
@@ -1177,15 +1174,13 @@ private:
     void Attach(std::string_view command) {
         auto subcommands = utils::split_v(command);
         if (subcommands.size() < 1) {
-            fmt::print("A port is needed, use `attach <port>`");
-            return;
+            Error("A port is needed, use `attach <port>`");
         }
         auto port_o = utils::svtonum<int>(subcommands.at(0));
         if (!port_o) {
-            fmt::print("Expected port, got '{}'", *port_o);
+            Error("Expected port, got '{}'", subcommands.at(0));
         }
-        auto debuggee = Native::Initialize(*port_o);
-        process = Native(std::move(debuggee));
+        Source source;
         if (fname) {
             std::ifstream file(*fname);
             if (!file) {
@@ -1193,6 +1188,18 @@ private:
             }
             source = ParseDebugInfo(file);
         }
+        std::unique_ptr<Process> debuggee;
+        try {
+            debuggee = Native::Initialize(*port_o);
+        } catch (const TCP::TCPError& err) {
+            Error("Unable to attach to port {}: {}", *port_o, err.what());
+        }
+
+        ExitProcess();
+        process = Native(std::move(debuggee));
+        this->source = std::move(source);
+        is_running = true;
+        process.WaitForDebugEvent();
     }
 
     Source ParseDebugInfo(std::ifstream& file) {
-- 
2.43.0


From 9949e11bbdd8634fa2696a4a0df8c59bb5a8e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 38/46] fix: debugger crashed on a breakpoint at a function
 without line information

---
 src/dbg-cli/CLI.h | 56 ++++++++++++++++++-----------------------------
 1 file changed, 21 insertions(+), 35 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 09b47c2..bfc337f 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -453,6 +453,23 @@ Most often, the correct address will be one below it.)";
         }
     }
 
+    /// Reports what happened to a breakpoint that was specified by
+    /// a source location, which may lack line information.
+    void PrintBreakpointLocation(std::string_view what, uint64_t addr) {
+        auto line = source.AddrToLine(addr);
+        if (!line) {
+            fmt::print("Breakpoint {} address {}\n", what, addr);
+            return;
+        }
+        fmt::print("Breakpoint {} line {} (addr {})", what, *line + 1, addr);
+        auto source_line = source.GetLine(*line);
+        if (source_line) {
+            fmt::print(": {}\n", *source_line);
+        } else {
+            fmt::print("\n");
+        }
+    }
+
     void HandleBreakpoint(std::string_view command) {
         // TODO: Lot of repeated code
         if (!process.Active()) {
@@ -469,50 +486,19 @@ Most often, the correct address will be one below it.)";
         } else if (check_command(subcommands, "set", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.SetBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint set on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            PrintBreakpointLocation("set on", addr);
         } else if (check_command(subcommands, "remove", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.UnsetBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint removed from line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            PrintBreakpointLocation("removed from", addr);
         } else if (check_command(subcommands, "enable", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.EnableSoftwareBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint enabled on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            PrintBreakpointLocation("enabled on", addr);
         } else if (check_command(subcommands, "disable", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.DisableSoftwareBreakpoint(addr);
-            auto line = source.AddrToLine(addr);
-            assert(line);
-            auto source_line = source.GetLine(*line);
-            fmt::print("Breakpoint disabled on line {} (addr {})", *line + 1, addr);
-            if (source_line) {
-                fmt::print(": {}\n", *source_line);
-            } else {
-                fmt::print("\n");
-            }
+            PrintBreakpointLocation("disabled on", addr);
         } else if (check_command(subcommands, "idisable", 2)) {
             auto address = ParseAddress(subcommands.at(1));
             process.DisableSoftwareBreakpoint(address);
-- 
2.43.0


From c2599a6ec285ccb1b714dd281a6e473174d44a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 39/46] fix: debugger crashed on a malformed address to
 assemble at

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index bfc337f..92faf66 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -784,7 +784,7 @@ Most often, the correct address will be one below it.)";
         if (check_command(subcommands, "interactive", 2)) {
             auto addr = utils::svtonum<size_t>(subcommands.at(1));
             if (!addr) {
-                Error("Expected address, got '{}'", subcommands.at(2));
+                Error("Expected address, got '{}'", subcommands.at(1));
             }
             InteractiveAssemble(*addr);
         } else {
-- 
2.43.0


From 00f5fc523be69b5492528161a7061223a0d92b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 40/46] fix: a malformed address to write memory at was not
 rejected

---
 src/dbg-cli/CLI.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 92faf66..34edea8 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -836,6 +836,9 @@ Most often, the correct address will be one below it.)";
         auto subcommands = utils::split_v(command);
         if (check_command(subcommands, "set", 3)) {
             auto cell = utils::svtonum<size_t>(subcommands.at(1));
+            if (!cell) {
+                Error("Expected memory cell, got '{}'", subcommands.at(1));
+            }
             std::vector<int64_t> values;
             std::transform(std::next(subcommands.begin(), 2), subcommands.end(), 
                     std::back_inserter(values), [&](auto&& s) { 
-- 
2.43.0


From 6a1e9ca05f2f7d9d818a35a5f5bf8d59d243214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 41/46] fix: the end of a disassembled range was left out and a
 reversed one not rejected

---
 src/dbg-cli/CLI.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 34edea8..f074124 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -696,7 +696,10 @@ Most often, the correct address will be one below it.)";
         } else if (check_command(subcommands, "range", 3)) {
             auto begin = ParseAddress(subcommands.at(1));
             auto end = ParseAddress(subcommands.at(2));
-            auto text = process.ReadText(begin, end - begin);
+            if (end < begin) {
+                Error("The range ends before it begins");
+            }
+            auto text = process.ReadText(begin, end - begin + 1);
             PrintText(begin, text);
         } else if (check_command(subcommands, "from", 2)) {
             auto begin = ParseAddress(subcommands.at(1));
-- 
2.43.0


From c076a18100cfcb95462cdbbc4f209525ab3f358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 42/46] fix: the documented breakpoint unset command did not
 exist

---
 src/dbg-cli/CLI.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index f074124..8f8e7a2 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -487,7 +487,8 @@ Most often, the correct address will be one below it.)";
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.SetBreakpoint(addr);
             PrintBreakpointLocation("set on", addr);
-        } else if (check_command(subcommands, "remove", 2)) {
+        } else if (check_command(subcommands, "remove", 2)
+                || check_command(subcommands, "unset", 2)) {
             uint64_t addr = source.GetAddressFromString(subcommands.at(1), true);
             process.UnsetBreakpoint(addr);
             PrintBreakpointLocation("removed from", addr);
@@ -507,7 +508,8 @@ Most often, the correct address will be one below it.)";
             auto address = ParseAddress(subcommands.at(1));
             process.EnableSoftwareBreakpoint(address);
             fmt::print("Breakpoint enabled at address {}\n", address);
-        } else if (check_command(subcommands, "iremove", 2)) {
+        } else if (check_command(subcommands, "iremove", 2)
+                || check_command(subcommands, "iunset", 2)) {
             auto address = ParseAddress(subcommands.at(1));
             process.UnsetBreakpoint(address);
             fmt::print("Breakpoint removed from address {}\n", address);
-- 
2.43.0


From 2e521cecf3f986e1bdb5e1582c324092894379fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 43/46] fix: breakpoint list numbered lines from zero

---
 src/dbg-cli/CLI.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 8f8e7a2..745fa74 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -518,7 +518,7 @@ Most often, the correct address will be one below it.)";
             for (auto&& [addr, b]: bps) {
                 auto line = source.AddrToLine(addr);
                 fmt::print("addr: {}{}; {}", addr,
-                        line ? fmt::format(", line: {}", *line) : "",
+                        line ? fmt::format(", line: {}", *line + 1) : "",
                         b.enabled ? "enabled" : "disabled");
                 auto fun = source.GetFunctionNameByAddress(addr);
                 if (fun) {
-- 
2.43.0


From 5349fe2a64f1bda0a0245ab0878533a257e0b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:04 +0000
Subject: [PATCH 44/46] fix: printing more source lines than there are took
 forever

---
 src/dbg-cli/CLI.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index 745fa74..e032d78 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -348,7 +348,8 @@ public:
         for (size_t i = from; i < to; ++i) {
             auto line = source.GetLine(i);
             if (!line) {
-                continue;
+                // No more lines follow.
+                break;
             }
             std::string pretty_rest;
             if (curr_loc && i == *curr_loc) {
-- 
2.43.0


From ae1a2d838afbc5ddb73fc9a27d1a85e2560e7ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:04 +0000
Subject: [PATCH 45/46] fix: repeated spaces in a string written to memory were
 dropped

---
 src/common/helpers.h | 7 ++++++-
 src/dbg-cli/CLI.h    | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/helpers.h b/src/common/helpers.h
index 53b0f73..855419f 100644
--- a/src/common/helpers.h
+++ b/src/common/helpers.h
@@ -120,6 +120,8 @@ namespace utils {
     inline std::string squash_strip_whitespace(std::string_view s) {
         std::string result;
         bool last_space = true;
+        // Whitespace in string literals is significant.
+        bool in_string = false;
         while (!s.empty() && std::isspace(s.back())) {
             s.remove_suffix(1);
         }
@@ -127,7 +129,10 @@ namespace utils {
             s.remove_prefix(1);
         }
         for (const auto c: s) {
-            if (!std::isspace(c)) {
+            if (c == '"') {
+                in_string = !in_string;
+            }
+            if (!std::isspace(c) || in_string) {
                 result.push_back(c);
                 last_space = false;
             } else if (!last_space) {
diff --git a/src/dbg-cli/CLI.h b/src/dbg-cli/CLI.h
index e032d78..8c0032e 100644
--- a/src/dbg-cli/CLI.h
+++ b/src/dbg-cli/CLI.h
@@ -860,7 +860,8 @@ Most often, the correct address will be one below it.)";
             if (!cell) {
                 Error("Expected memory cell and string");
             }
-            auto str = utils::join(std::next(subcommands.begin(), 2), subcommands.end());
+            // Everything that follows the cell, with spaces preserved.
+            auto str = command.substr(subcommands.at(2).data() - command.data());
             auto unescaped_str = ParseString(str);
             log_info("setstr: string = '{}'", unescaped_str);
             std::vector<int64_t> data;
-- 
2.43.0


From d79e33812bb8efc0b2953df67abfd14f6e96a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:30 +0000
Subject: [PATCH 46/46] fix: long runs of invalid characters in skipped
 sections overflowed the stack

---
 src/common/parsing.cpp | 10 +++++++++-
 src/common/parsing.h   |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/common/parsing.cpp b/src/common/parsing.cpp
index e405bcb..7fa8fe0 100644
--- a/src/common/parsing.cpp
+++ b/src/common/parsing.cpp
@@ -54,6 +54,14 @@ void Lexer::ParseString() {
 }
 
 Token Lexer::getNext() {
+    std::optional<Token> token;
+    while (!token) {
+        token = ReadToken();
+    }
+    return *token;
+}
+
+std::optional<Token> Lexer::ReadToken() {
     // A loop and not a recursive call, the stack would not be enough for
     // a long sequence of whitespace or comments.
     while (lookahead == '#' || isspace(lookahead)) {
@@ -185,7 +193,7 @@ Token Lexer::getNext() {
     } else {
         if (ignore) {
             GetChar();
-            return getNext();
+            return std::nullopt;
         } else {
             throw ParserError(fmt::format("{}:{}:No token beginning with '{}'",
                                           row, col, lookahead));
diff --git a/src/common/parsing.h b/src/common/parsing.h
index 7f46a62..1889704 100644
--- a/src/common/parsing.h
+++ b/src/common/parsing.h
@@ -97,6 +97,9 @@ public:
     double getFloat() const noexcept { return float_number; }
     std::string getStr() const noexcept { return str; }
 private:
+    /// Reads one token, or nothing if a character was discarded.
+    std::optional<Token> ReadToken();
+
     TokenKind ParseNumber();
 
     Token MakeToken(TokenKind kind) {
-- 
2.43.0

