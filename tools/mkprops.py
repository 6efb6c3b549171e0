import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
p("C01","Pipelined execution is equivalent to sequential execution",
 "Running a program to HALT leaves exactly the integer, float and special registers, the memory and the output that executing its instructions one at a time, in program order, would leave. This holds for every number of ALUs, reservation-station entries, RAM gates and registers, and for every pattern of register and memory dependences between the instructions in flight.",
 ["programs","configurations"],"all programs x all pipeline configurations (ALUs, reservation stations, RAM gates, register counts, RAM size)",
 "Tests run a few dozen hand-written programs, nearly all with the default configuration (1 ALU, 2 entries); hazards between in-flight instructions depend on the instruction mix and on the configuration.",
 ["src/t86/cpu.cpp","src/t86/cpu/reservation_station.cpp","src/t86/cpu/register_allocation_table.cpp","src/t86/cpu/memory_writes_manager.cpp","src/t86/ram.cpp"],
 [("register renaming with read/write RAT snapshots","src/t86/cpu/reservation_station.cpp ReservationStation::add"),("in-order retirement","ReservationStation::executeAndRetire"),("store-to-load forwarding","src/t86/cpu/memory_writes_manager.cpp, Cpu::readMemory")],
 [("registers_","physical register values with ready bits and reader counts","src/t86/cpu.h"),("writesMap_","pending and outgoing memory writes per address","src/t86/cpu/memory_writes_manager.h")],
 ["Cpu::getRegister/getFloatRegister/getMemory after halt","program output stream"])
p("C02","Every instruction computes its documented result and flags",
 "Executing an instruction, with any operand form it accepts and any 64-bit integer or double operands for which the result is defined, changes exactly its documented destinations, to the documented result. Arithmetic, logic, shift and compare instructions set SF, ZF, CF and OF as their result requires; all other instructions leave the flags alone.",
 ["inputs","programs"],"all instructions x operand forms x operand values (64-bit words, IEEE doubles)",
 "Tests sample one or two values per instruction, mostly small positive ones, and hardly any flag outcome or wide operand form.",
 ["src/t86/cpu/alu.cpp","src/t86/instruction.cpp","src/t86/instruction.h","src/t86/instructions/operand.cpp"],
 [("ALU result and flag computation","src/t86/cpu/alu.cpp"),("effective-address evaluation","Operand::supply, LEA/MOV::execute")],
 [("flags","SF, ZF, CF, OF","src/t86/cpu/alu.h")],["registers, flags, memory and output after each single instruction"])
p("C03","Jumps go where they must and wrong-path instructions leave no trace",
 "A jump, conditional jump, LOOP, CALL or RET continues at exactly the address that its condition, evaluated on the flags left by the preceding instructions, and its operand determine. Instructions fetched or executed speculatively on a path that is not taken never change a register or memory cell, print, consume input, raise an error or stop the program.",
 ["programs","configurations"],"all programs with branches x all pipeline configurations",
 "The predictor's wrong guesses and how far the wrong path gets depend on program shape, latencies and configuration; tests contain few mispredictions and never a harmful wrong path.",
 ["src/t86/cpu.cpp","src/t86/cpu/reservation_station.cpp","src/t86/cpu/branch_predictors/naive_branch_predictor.cpp","src/t86/instruction.cpp"],
 [("misprediction unroll","Cpu::checkBranchPrediction, Cpu::unrollSpeculation"),("side effects only at retirement","Instruction::retire"),("delayed memory exceptions","ReservationStation::Entry::readMemory/retire")],
 [("predictions_","predicted destinations of in-flight jumps","src/t86/cpu.h")],["registers, memory, output and status after the run"])
p("C04","Faulting instructions end the run as a precise CPU error",
 "When an instruction that is really executed reads or writes a memory cell outside RAM or divides by zero, the run ends with a CPU error: the run reports failure, an attached debugger gets stop reason CPU_ERROR, and the VM process does not crash. All memory writes and output of earlier instructions are in effect at that point and none of later instructions, and a program without such an instruction never ends with a CPU error.",
 ["programs","inputs"],"all programs and data, in particular every faulting operand and every position of the fault relative to branches and pending writes",
 "Tests contain two invalid accesses; faults on speculative paths, arithmetic faults and the state left behind are not exercised.",
 ["src/t86/os.cpp","src/t86/cpu/reservation_station.cpp","src/t86/ram.cpp","src/t86/cpu/alu.cpp"],
 [("exception recorded at fetch/execute and rethrown at retirement","ReservationStation::Entry::retire"),("CPU_ERROR stop","OS::Run")],(),["OS::Run result","REASON reply","memory and output at the stop"])
p("C05","Single-stepping executes exactly one instruction and is transparent",
 "From any stop, SINGLESTEP executes exactly the instruction at IP and stops again with the registers, memory, output and IP that sequential execution of that one instruction gives; CONTINUE runs on to the next breakpoint, watched write, error or HALT. However a run is cut into single steps and continues, every stop shows a state of the sequential execution and the final state and output are the same.",
 ["programs","schedules","configurations"],"all programs x all sequences of SINGLESTEP/CONTINUE x pipeline configurations",
 "Tests step through two or three fixed straight-line programs.",
 ["src/t86/debug.cpp","src/t86/cpu.cpp","src/t86/cpu/reservation_station.cpp","src/t86/os.cpp"],
 [("trap flag with unroll at retirement","ReservationStation::Entry::retire"),("trap flag reset","Debug::Work")],
 [("trapFlag_","single step requested","src/t86/cpu.h")],["debug protocol replies at every stop"])
p("C06","The debug protocol reports every stop and answers every request",
 "Every time the VM stops it sends STOPPED exactly once and REASON reports why (START, SINGLESTEP, SW_BKPT, HW_BKPT, HALT, CPU_ERROR); each request gets exactly one reply, of the documented form, and unknown requests are answered UNKNOWN COMMAND. The VM stays stopped and answers until CONTINUE or SINGLESTEP; TERMINATE, or the end of the connection, ends it without executing anything more.",
 ["histories","programs"],"all request sequences at all stops of all programs",
 "Tests send a few fixed request sequences; the interplay of stop reason, trap flag and request history is unbounded.",
 ["src/t86/debug.cpp","src/t86/os.cpp"],[("request loop","Debug::Work"),("interrupt dispatch","OS::DispatchInterrupt")],(),["Messenger traffic"])
p("C07","Debugger reads show, and debugger writes take effect on, the real state",
 "At any stop, reading registers, float registers, debug registers, memory and program text returns exactly the state of the sequential execution as modified by the debugger's earlier writes. Every write changes just its target and is what all instructions executed afterwards see, whatever was still in flight when the VM stopped.",
 ["histories","programs","configurations"],"all programs x all histories of stops, reads and writes",
 "A write can race with reads and writes of memory that the pipeline has already started; tests poke only quiescent state.",
 ["src/t86/debug.cpp","src/t86/cpu.cpp","src/t86/ram.cpp","src/debugger/T86Process.cpp","src/debugger/Native.cpp"],
 [("architectural register access through the RAT","Cpu::getRegister/setRegisterDebug"),("memory access","Cpu::getMemory/setMemory, RAM::get/set"),("text access","Cpu::getText/setText")],(),["PEEK*/POKE* replies","Native getters"])
p("C08","Breakpoints stop before their instruction, every time, and only there",
 "Execution reaching an enabled breakpoint stops with a breakpoint event, with IP at that address and that instruction not yet executed, each time it gets there; disabled, removed or never reached breakpoints never stop it. Continuing or stepping from a breakpoint executes the original instruction and keeps the breakpoint armed, and apart from the stops the program behaves as without breakpoints.",
 ["histories","programs"],"all programs x all histories of setting, unsetting, enabling, disabling, continuing and stepping",
 "Tests cover short fixed sequences on one or two breakpoints.",
 ["src/debugger/Native.cpp","src/debugger/T86Process.cpp"],
 [("BKPT patching with backup","Native::CreateSoftwareBreakpoint/DisableSoftwareBreakpoint"),("step over breakpoint on resume","Native::ContinueExecution, StepOverBreakpoint")],
 [("software_breakpoints","address to backup instruction and enabled bit","src/debugger/Native.h")],["DebugEvent returned, GetIP, registers, memory"])
p("C09","The debugger's text view hides breakpoints and restores instructions",
 "At any stop, reading program text through the debugger returns the program's instructions as loaded or last overwritten by the user, never the breakpoint opcode, whatever breakpoints are set, disabled or removed. Text overwritten by the user is what executes from then on, also at a breakpoint's address, and writes that are out of range or not an instruction are rejected and change nothing.",
 ["histories","programs"],"all histories of text reads/writes and breakpoint operations on all programs",
 "Tests read text around one enabled breakpoint; the disabled, rewritten and re-enabled combinations are not covered.",
 ["src/debugger/Native.cpp","src/debugger/T86Process.cpp","src/t86/instructions/operand.cpp"],
 [("backup substitution","Native::ReadText/WriteText"),("instruction printing and parsing as backup format","Instruction::toString, Parser::Instruction")],(),["Native::ReadText","executed behaviour"])
p("C10","Watchpoints report exactly the writes to watched cells",
 "While a watchpoint is set on a memory cell, every executed instruction that writes that cell stops the program right after it, with an event naming that cell, and no other instruction does; a removed watchpoint never fires again. Up to four watchpoints can be set at once, a fifth or a duplicate is rejected, and removing one frees its slot for reuse.",
 ["histories","programs","configurations"],"all programs x all histories of setting and removing watchpoints and resuming",
 "Tests set one or two watchpoints and check the first hits only.",
 ["src/t86/cpu.cpp","src/debugger/Native.cpp","src/debugger/Arch.h","src/t86/debug.cpp"],
 [("debug registers checked at memory write","Cpu::checkWrite"),("slot allocation","Native::GetFreeDebugRegister"),("event decoding","Arch::GetResponsibleRegister")],
 [("debug_registers_","watched addresses and control bits","src/t86/cpu.h")],["HW_BKPT stops, WatchpointTrigger events"])
p("C11","Instruction-level step over and step out stop where documented",
 "Stepping over a CALL runs until the call has returned to the following instruction in the same frame, also for recursive functions that save BP; stepping over any other instruction executes just it. Stepping out stops right after the RET of the current function has executed; a breakpoint, watchpoint, error or HALT met on the way stops there and is reported, and the user's breakpoints are left as they were.",
 ["programs","histories"],"all programs with nested and recursive calls x all breakpoint sets x starting points",
 "Tests step over and out of one simple function.",
 ["src/debugger/Native.cpp"],[("temporary breakpoint with BP comparison","Native::PerformStepOver"),("step over until RET","Native::PerformStepOut")],(),["DebugEvent, GetIP, GetBreakpoints"])
p("C12","Source lines map to addresses and line stepping lands on line starts",
 "A line with debug information maps to its recorded address, an address maps back to a line recorded for it, and breakpoints set, enabled, disabled or unset by line act on exactly that address; lines without debug information are rejected. Source step (or next) runs instructions, entering (or running through) calls, until one with a line record is reached, or stops earlier at a breakpoint, watchpoint, error or HALT.",
 ["programs","histories","inputs"],"all line tables x all programs x all step/next/breakpoint sequences",
 "Tests use two or three tables and a handful of steps.",
 ["src/debugger/Source/Source.cpp","src/debugger/Source/LineMapping.cpp"],[("line table lookups","LineMapping"),("StepIn/StepOver loops","Source::StepIn, Source::StepOver")],(),["Source API results, IP after stepping"])
p("C13","Variables resolve to the innermost scope and to their described location",
 "At every address, the variables that are active, and the function reported, are exactly those of the scopes whose address range contains it, an inner declaration hiding outer ones of the same name. A variable's location is what its location program computes from the current registers and memory.",
 ["inputs","histories"],"all debug-information trees x addresses x machine states x location programs",
 "Tests check a few fixed trees and one-step location programs.",
 ["src/debugger/Source/Source.cpp","src/debugger/Source/Die.h","src/debugger/Source/LocExpr.h","docs/source-info.md"],
 [("scope walk","Source::GetActiveVariables / GetVariableDIE"),("location interpreter","ExpressionInterpreter.cpp (location programs)")],(),["Source::GetActiveVariables, GetFunctionNameByAddress, EvaluateExpression"])
p("C14","Expressions evaluate to the value C-like semantics give",
 "Evaluating an expression over literals, typed variables, pointers, arrays, structures and earlier results gives the value and type that its grammar's precedence and C-like typing prescribe on the current machine state, and evaluation without assignment changes nothing. Ill-typed, malformed or out-of-bounds expressions are reported as a debugger error instead of crashing or yielding a value.",
 ["inputs","histories"],"all expressions x all variable environments and machine states",
 "Tests evaluate a few dozen expressions in a few environments.",
 ["src/debugger/Source/Expression.cpp","src/debugger/Source/ExpressionParser.cpp","src/debugger/Source/ExpressionInterpreter.cpp","src/debugger/Source/Source.cpp"],
 [("recursive-descent parser","ExpressionParser"),("typed evaluator visitor","ExpressionEvaluator")],(),["Source::EvaluateExpression result"])
p("C15","Assigning through an expression writes the target and nothing else",
 "An assignment in an expression stores the value of its right side, converted to the target's type, in exactly the memory cell or register that the left side denotes, and reading the same expression afterwards yields the stored value. No other register or memory cell changes, a rejected assignment changes nothing, and the program continues with the new value.",
 ["inputs","histories"],"all assignable expressions x values x environments",
 "Tests assign a few integers and one float through fixed variables.",
 ["src/debugger/Source/Expression.cpp"],[("AssignValue on located typed values","src/debugger/Source/Expression.cpp")],(),["registers and memory before and after"])
p("C16","Assembly text and instructions convert into each other without loss",
 "Every instruction with every documented operand form is accepted by the assembler and yields exactly the written operation and operands, with optional addresses, comments and spacing making no difference; the printed form of any instruction, parsed again, gives an instruction that behaves identically. Text that is not a documented instruction is rejected with a parse error, never a crash or a different instruction.",
 ["inputs"],"all instruction texts: mnemonics x operand forms x immediates, and malformed ones",
 "Tests parse a few programs; operand forms, negative and extreme immediates, float immediates and print/parse round trips are barely touched.",
 ["src/t86-parser/parser.cpp","src/common/parsing.cpp","src/t86/instruction.cpp","src/t86/instructions/operand.cpp","docs/t86-isa.md","docs/t86.md"],
 [("recursive-descent operand parser","Parser::Instruction"),("printer","Instruction::toString, Operand::toString")],(),["parse result, toString, execution"])
p("C17","Program files load into text and memory as written",
 "Loading a program file places the instructions of its text sections at consecutive addresses from 0 in file order and its data at memory cells from 0 upwards, strings as one character per cell followed by a zero, all other memory zero and registers in their initial state. Other sections, comments and layout do not matter, sections may come in any order, and malformed files are rejected with an error before anything runs.",
 ["inputs"],"all program files",
 "Tests load a handful of files.",
 ["src/t86-parser/parser.cpp","src/common/parsing.cpp","src/t86/cpu.cpp","src/t86-cli/main.cpp"],
 [("section parsing","Parser::Parse/Section/Text/Data"),("data placement","Cpu::start")],(),["TEXTSIZE, PEEKTEXT, PEEKDATA, PEEKREGS at START; t86-cli output"])
p("C18","Messages between debugger and VM arrive intact and in order",
 "Over the in-process queue and over TCP, every message sent is received exactly once, unchanged and in order, independently in both directions, whatever its length or content, however sender and receiver are scheduled and however the stream is cut into segments. Receiving blocks until a message is complete, and reports the end of the connection instead of a message when the peer has closed it.",
 ["schedules","inputs","fault_sequences"],"all interleavings of sends and receives, message contents and lengths, segmentations and peer closes",
 "Tests exchange a few short messages that arrive in one segment.",
 ["src/common/TCP.h","src/common/threads_messenger.h"],
 [("length header framing","TCP.h SendRaw/ReceiveRaw"),("mutex and condition variable queue","threads_messenger.h")],(),["Messenger::Send/Receive"])
p("C19","Debug-information sections are read as written",
 "The line table, the tree of scopes, functions, variables and types, and the source text of a program file are reconstructed exactly as written, in any section order and layout, and a program without them still runs and debugs at instruction level. Malformed debug information is rejected with a parse error, never a crash or silently different information.",
 ["inputs"],"all debug-information sections",
 "Tests parse a few fixed sections.",
 ["src/debugger/Source/Parser.cpp","docs/source-info.md"],[("section parsers","dbg::Parser")],(),["lines, variables, types and source shown by the Source API"])
p("C20","A debugging session keeps its settings across commands and re-runs",
 "In a debugger session, breakpoints (with their enabled state) and watchpoints set by the user stay in force across continues, steps, program end and re-running the program, until removed. Each command acts as documented on the running program, commands needing a running program are refused without one, and an erroneous command prints an error and changes nothing.",
 ["histories"],"all sequences of debugger commands",
 "The command-line tests replay fifteen fixed sessions.",
 ["src/dbg-cli/CLI.h","src/debugger/Native.cpp","src/debugger/Source/Source.cpp"],[("session state carried over at run","Cli::HandleRun, Native::SetAllBreakpoints/SetAllWatchpoints")],(),["dbg-cli output"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
