#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the wording of every property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ZX = "src/z80/instructions.rs"
p("C01", "Every instruction computes exactly what the Z80 computes",
  "For every opcode (plain, CB, ED, DD, FD, DDCB, FDCB, documented or not), every register and memory state and every flavour, executing the instruction leaves all main, alternate and index registers, PC, SP, I, the accumulator, all eight bits of the flags, MEMPTR, IM and both interrupt flip-flops, memory and I/O writes exactly as the Z80 reference behaviour (\"The Undocumented Z80 Documented\" semantics, with the flavour-specific exceptions) prescribes. Everything the instruction does not name stays unchanged.",
  ["inputs"], "all instruction encodings x all CPU register states x all operand/memory/port values x three flavours",
  "mnemonics/cycle tests execute each opcode once or twice with fixed register values; the shuffle test covers a few instructions' flag tables; operand/flag/address combinations (2^100+) are not sampled.",
  [ZX, "src/z80/ops.rs", "src/z80/internal.rs", "src/z80/macros.rs", "src/z80/opcodes.rs", "src/cpu/flags.rs", "src/cpu/parse.rs", "src/cpu/registers.rs"],
  [("execute_instruction! opcode decoder", ZX), ("arithmetic/logic/rotate primitives", "src/z80/ops.rs"), ("memory, block, I/O helpers", "src/z80/internal.rs")],
  [("CPU registers, flags, MEMPTR", "architectural state after the instruction", "src/z80.rs: struct Z80")],
  ["Cpu getters", "Z80::get_memptr", "Memory::write_mem", "Io::write_io"])

p("C02", "Machine-cycle trace: bus accesses, their order, addresses and timestamps",
  "For every instruction, CPU state and host clock (including one that adds contention), the CPU issues exactly the documented Z80 machine cycles, in order: each opcode fetch, memory read/write, I/O and internal-delay cycle with the right address, T-state count and data, each access carrying the timestamp the clock returned for that very cycle and each refresh address carrying the current IR. The clock therefore advances by exactly the instruction's documented T-states plus what the host added.",
  ["inputs", "configurations"], "all instruction encodings x CPU states (taken/untaken, repeating/ending) x host contention and wait-state patterns",
  "cycles_test compares one cycle breakdown per mnemonic with a flat clock and one register state; contended addresses, wrap-around addresses, refresh address values and timestamps passed to memory/IO are not checked.",
  [ZX, "src/z80/internal.rs", "src/z80/macros.rs", "src/z80.rs", "src/host.rs"],
  [("fetch_next_opcode / fetch_next_imm8 / fetch_next_imm16 / push16 / pop16", "src/z80/internal.rs"), ("Clock calls interleaved with Memory/Io calls", ZX), ("cycle constants", "src/host.rs: cycles")],
  None, ["Clock trait calls", "Memory trait calls", "Io trait calls"])

p("C03", "Running to a limit equals stepping, however the limit is split",
  "execute_with_limit produces exactly the same CPU state, memory, I/O history and clock as repeatedly calling execute_next while the limit is not reached, for every program, interrupt schedule, entry state and limit; splitting one run into several runs with arbitrary intermediate limits, or resuming after a break, changes nothing. It returns Ok only once the limit has been reached.",
  ["programs", "schedules", "inputs"], "all programs x interrupt schedules x limits and limit partitions x flavours x entry states (after EI, after prefix, halted)",
  "no test compares the two execution engines; tests run single instructions or a fixed routine with a fixed limit.",
  ["src/z80.rs", "src/z80/macros.rs", "src/z80/internal.rs"],
  [("execute_with_limit and its inner loop keeping pc/flags/prefix in locals", "src/z80.rs"), ("execute_next", "src/z80.rs")],
  [("last_ei, prefix, halt", "state carried across run boundaries", "src/z80.rs")],
  ["Cpu::execute_with_limit", "Cpu::execute_next"])

p("C04", "A debugger closure observes faithfully and changes nothing",
  "Passing a debug closure to execute_next, execute_instruction or irq never changes the CPU state, bus trace or clock, and the closure is called exactly once per executed instruction (never for a lone 0xDD/0xFD prefix, nor for halted cycles). Its report contains the address of the instruction's first byte, its exact machine-code bytes (with the prefix that applied), and a mnemonic and operands that denote the executed instruction, including immediate values, displacements and jump targets.",
  ["inputs", "programs"], "all instruction encodings, operand bytes, PC values (wrapping) and CPU states; taken and untaken branches",
  "mnemonics_test checks one fixed operand pattern per mnemonic, from one PC, and does not compare execution with and without a debugger.",
  ["src/z80/debug.rs", ZX, "src/cpu/debug.rs", "src/z80.rs"],
  [("cpu_debug! macro family", "src/z80/debug.rs"), ("CpuDebug struct", "src/cpu/debug.rs")], None, ["debug closure argument CpuDebug"])

p("C05", "Maskable interrupt acceptance: mode 0, 1 and 2 sequences",
  "A maskable interrupt is taken exactly when IFF1 is set, the INT line is active at an instruction boundary and the previous opcode was neither EI nor a DD/FD prefix; acceptance clears both flip-flops, un-halts (returning past the HALT), bumps R, spends the 6 T-state acknowledge cycle plus requested wait states, and then executes the supplied opcode (IM 0), RST 38h (IM 1) or a call through the vector I:data (IM 2). If not allowed, irq() returns None and touches nothing.",
  ["inputs", "schedules", "histories"], "all CPU states x interrupt modes x vectors/opcodes on the bus x request times x wait states",
  "unit tests check one IM 1/IM 2 acceptance from a fixed state; IM 0 with arbitrary opcodes, halted entry, wrapped SP/PC and vector addresses are not explored.",
  ["src/z80.rs", "src/z80/internal.rs"],
  [("irq_no_check", "src/z80/internal.rs"), ("is_irq_allowed / irq / execute_next", "src/z80.rs")],
  [("iff1, iff2, last_ei, prefix, halt", "interrupt gate", "src/z80.rs")], ["Cpu::irq", "Io::is_irq", "Io::irq_data"])

p("C06", "Non-maskable interrupt sequence",
  "nmi() is accepted exactly when the previous opcode was neither EI nor a DD/FD prefix, whatever the flip-flops; it then pushes the return address (past HALT when halted), jumps to 0066h in 11 T-states (M1, one internal, two stack writes), clears only IFF1, un-halts and bumps R. When refused it returns false and touches nothing, and RETN later restores IFF1 from IFF2.",
  ["inputs", "histories"], "all CPU states x histories containing NMI, EI, prefixes, HALT, RETN",
  "a single unit test calls nmi from a fixed state.",
  ["src/z80.rs", "src/z80/internal.rs"], [("nmi_no_check", "src/z80/internal.rs"), ("nmi", "src/z80.rs")], None, ["Cpu::nmi", "Cpu::is_nmi_allowed"])

p("C07", "HALT state semantics",
  "Executing HALT reports a Halt break, leaves the CPU halted and, until an interrupt, reset or explicit instruction, every further step only spends one 4 T-state M1 cycle and bumps R, without memory access or change to any register; execute_with_limit in this state idles to the limit. An accepted interrupt resumes after the HALT instruction, and resuming is identical whether the halted time was idled by stepping, by one long run or by many short ones.",
  ["histories", "schedules"], "all CPU states and interrupt schedules that enter, idle in and leave HALT",
  "tests only enter HALT to stop the test program.",
  ["src/z80.rs", ZX, "src/z80/internal.rs"], [("halt branch of execute_next / execute_with_limit", "src/z80.rs")], [("halt", "halted flag", "src/z80.rs")], ["Cpu::is_halt", "BreakCause::Halt"])

p("C08", "Interrupt shadow after EI and index prefixes over any history",
  "In every history of instructions, irq()/nmi() requests, limited runs and API calls, no interrupt (maskable or NMI) is accepted between EI and the end of the following instruction, or between a DD/FD prefix and the opcode it modifies, and after any other instruction the shadow is gone; is_after_ei, is_after_prefix, get_prefix, is_irq_allowed and is_nmi_allowed report exactly this. DI, and interrupt acceptance clear the flip-flops, RETN/RETI restore IFF1 from IFF2.",
  ["histories", "schedules"], "all sequences of EI/DI/prefix/RETN/other opcodes interleaved with interrupt requests and run boundaries",
  "the tests contain no history that mixes EI chains, prefix chains and pending interrupts or run boundaries.",
  ["src/z80.rs", ZX, "src/z80/internal.rs"], [("last_ei and prefix bookkeeping", "src/z80.rs"), ("EI/DI/RETN/RETI/prefix arms", ZX)], [("last_ei", "previous opcode was EI", "src/z80.rs"), ("prefix", "pending DD/FD", "src/z80.rs")], ["is_irq_allowed", "is_nmi_allowed", "is_after_ei", "get_prefix"])

p("C09", "Break requests from I/O and RETI complete the instruction and lose nothing",
  "When write_io or reti asks for a break, the instruction completes (registers, memory, PC and clock as if no break had been asked), the matching BreakCause with the host's own value is returned immediately after that instruction, and continuing afterwards yields the same state and history as the run in which the host never asked to break. This holds for every OUT form including each iteration of OTIR/OTDR, for instructions injected in interrupt mode 0, and in all execution methods.",
  ["programs", "fault_sequences"], "all programs x subsets of break points x execution method",
  "no test requests breaks except one hello-world style example.",
  ["src/z80.rs", ZX, "src/z80/internal.rs", "src/z80/macros.rs"], [("LoopExitReason::WriteIo / Reti", "src/z80.rs"), ("block_out, io_a_out_an, io_r_out_bc", "src/z80/internal.rs")], None, ["BreakCause", "Io::write_io", "Io::reti"])

p("C10", "Host timing (contention, wait states) never changes results, only time",
  "For a host whose data does not depend on time, running the same program with different contention and wait-state patterns gives the same sequence of memory, I/O and register values; only timestamps differ. Each wait state reported by read_io, write_io or irq_data is added to the clock exactly once, on the right bus address, and the total T-states equal the uncontended total plus everything the host added.",
  ["configurations", "programs"], "all programs x pairs of contention/wait-state patterns",
  "all tests use a flat TsCounter without wait states.",
  ["src/z80/internal.rs", "src/host.rs", "src/z80.rs"], [("add_wait_states after each I/O or acknowledge", "src/z80/internal.rs")], None, ["Clock::add_wait_states", "Clock::add_* return values"])

p("C11", "Disassembly covers memory exactly and agrees with execution",
  "For every byte string and start address, disassembling reports consecutive instructions whose addresses and code bytes tile the input (skipping only superseded DD/FD prefixes and at most one truncated instruction at the end), wrapping the address past FFFFh; it never panics, never reads outside the slice, depends only on the bytes and start address, and stops immediately with the error the callback returns. Each report equals what a debugger sees when a CPU executes those bytes, and disassembling once equals the first element of disassembling all.",
  ["inputs"], "all byte strings (any length, including empty and truncated) x start addresses x flavours",
  "the doc example and one unit test disassemble a handful of instructions.",
  ["src/disasm.rs", "src/z80/debug.rs", ZX], [("disasm_memory / disasm_memory_once", "src/disasm.rs")], None, ["disasm_memory", "disasm_memory_once", "disasm_memory_write_text"])

p("C12", "Disassembly text is faithful and re-assembles to the same bytes",
  "For every instruction encoding and operand, the Display, {:x}, {:X} and alternate forms of a debug report succeed, and show the address, exact code bytes and a mnemonic/operand text from which the instruction's bytes (up to documented synonyms) can be re-assembled; all formats denote the same numbers, with correct sign for displacements and correct padding.",
  ["inputs"], "all instruction encodings x operand bytes x PC values x four text formats",
  "mnemonics_test compares text for one fixed operand value in one format.",
  ["src/cpu/debug.rs", "src/z80/debug.rs", ZX], [("fmt impls of CpuDebug, CpuDebugArgs, CpuDebugArg", "src/cpu/debug.rs")], None, ["Display/LowerHex/UpperHex of CpuDebug"])

p("C13", "Serialize/deserialize round-trip preserves the machine",
  "For every reachable CPU state (including after-EI, pending prefix, halted, lazily kept R, flavour state) and every flavour, serializing Z80 or Z80Any to JSON, TOML, CBOR or bincode and deserializing gives an equal CPU, and continuing execution from the copy is indistinguishable from continuing with the original. Time counters (TsCounter) survive the same formats.",
  ["inputs", "histories"], "all CPU states x flavours x (Z80, Z80Any) x (self-describing, binary) formats",
  "serde tests round-trip the reset state and two hand-written documents.",
  ["src/z80/serde.rs", "src/cpu/registers.rs", "src/z80/flavours.rs", "src/z80/any.rs"], [("Serialize/Deserialize for Z80 and Z80Any", "src/z80/serde.rs"), ("RegisterPair (de)serialization", "src/cpu/registers.rs")], None, ["serde_json", "toml", "ciborium", "bincode"])

p("C14", "Deserialization accepts every documented form and rejects the rest cleanly",
  "Every documented alternative representation (snake_case or camelCase field names, any field order, register pairs as unsigned or negative numbers in whatever integer type the format presents, [lo,hi] pairs or hex strings, an empty prefix as null or left out, legacy documents without type/memptr/r/flavour, documents of another flavour) is read to the value it denotes; out-of-range, malformed, truncated or arbitrary input yields an error, never a panic or a silently wrong register.",
  ["inputs"], "all mutations of field names, order, omission and value encodings; arbitrary bytes",
  "three fixed JSON literals are tested.",
  ["src/z80/serde.rs", "src/cpu/registers.rs"], [("Z80 visitor", "src/z80/serde.rs"), ("RegisterPair visitor", "src/cpu/registers.rs")], None, ["serde_json::from_str", "bincode::deserialize"])

p("C15", "Flavours differ only where documented",
  "On every program, NMOS, CMOS and BM1 CPUs differ only in: flag bits 3 and 5 after SCF/CCF, the byte output by the undocumented OUT (C),(HL), MEMPTR's high byte after the LD (nn|BC|DE),A / OUT (n),A group on BM1, and P/V after LD A,I / LD A,R when an interrupt is being accepted on NMOS. Converting a CPU between flavours keeps everything except the flavour's own state, and NMOS<->BM1 keeps that too.",
  ["programs", "configurations"], "all programs and states x pairs of flavours",
  "flav_test checks SCF/CCF in a handful of short sequences.",
  ["src/z80/flavours.rs", ZX, "src/z80/internal.rs", "src/z80.rs"], [("Flavour trait and its implementations", "src/z80/flavours.rs"), ("into_flavour", "src/z80.rs")], [("flags_modified / last_flags_modified", "Q emulation", "src/z80/flavours.rs")], ["Z80NMOS, Z80CMOS, Z80BM1"])

p("C16", "Z80Any behaves exactly like the CPU it wraps",
  "For every sequence of Cpu operations, a Z80Any holding a flavour returns the same values, makes the same bus accesses and reaches the same state as the corresponding Z80 type; tags, predicates, unwrapping and flavour conversions are mutually consistent, and tag lookup is case-insensitive and rejects unknown names.",
  ["histories", "configurations"], "all sequences of Cpu trait calls x flavours; all tag strings",
  "one unit test touches constructors and tags.",
  ["src/z80/any.rs"], [("dispatch macro over enum variants", "src/z80/any.rs")], None, ["Z80Any"])

p("C17", "Register accessors form one consistent register file",
  "For every sequence of setters, getters, swaps and flip-flop calls, each getter returns the value last stored through any view of the same register (8-bit, pair, hi/lo tuple, index half via prefix, alternate set after EX/EXX), writes touch nothing else, swaps are involutive, and reset gives the documented state from any state, equal to a newly created CPU. The RegisterPair building block (16-bit, low, high and tuple views, swaps, split borrows) obeys the same rules.",
  ["histories"], "all sequences of register API calls with all values",
  "unit tests read back a few registers after fixed writes.",
  ["src/z80.rs", "src/z80/internal.rs", "src/cpu/registers.rs"], [("reg8_ptr, stkreg16_mut, index16_mut", "src/z80/internal.rs"), ("RegisterPair", "src/cpu/registers.rs")], None, ["Cpu getters and setters"])

p("C18", "Refresh register R counts M1 cycles",
  "R's low seven bits advance by exactly one for every M1 cycle (each opcode and prefix byte fetch, each halted cycle, each interrupt or NMI acknowledge) and by nothing else, wrap within seven bits, and bit 7 changes only by LD R,A, set_r or reset; LD A,R, get_r, get_ir and the refresh address passed to read_opcode all agree, and normalizing R never changes the observable value.",
  ["programs", "histories"], "all programs, R and I values, inc_r/add_r/set_r calls",
  "no test runs longer than 128 M1 cycles with bit 7 set or checks the refresh addresses.",
  ["src/z80.rs", "src/z80/internal.rs"], [("lazy r counter merged with ir", "src/z80.rs")], [("r, ir", "lazily merged refresh register", "src/z80.rs")], ["Cpu::get_r", "Cpu::get_ir", "Memory::read_opcode ir argument"])

p("C19", "TsCounter honours the Clock contract for every counter type",
  "For every numeric counter type and start value (including near wrap-around), each TsCounter method advances the counter by exactly the documented T-states (modulo the type), returns the documented timestamp (end of cycle for M1/memory, +1 for I/O, +2 for interrupt acknowledge), and is_past_limit is exactly counter >= limit; construction, conversion and serialization preserve the value.",
  ["inputs", "histories"], "all sequences of Clock calls x counter types x start values",
  "one unit test calls each method once on one type.",
  ["src/host.rs"], [("impl Clock for TsCounter", "src/host.rs")], None, ["TsCounter"])

p("C20", "Host wrapper macros forward every call transparently",
  "A host type built with the forwarding macros behaves exactly as the wrapped Clock, Memory and Io implementations: every method call reaches the wrapped object once with the same arguments and returns its result, so running any program through the wrapper is indistinguishable from running it directly; defaulted trait methods behave as documented.",
  ["programs", "histories"], "all programs and all direct trait calls with all argument values",
  "the macro tests check one value per method.",
  ["src/macros.rs", "src/host.rs"], [("impl_forward_host_* macros", "src/macros.rs"), ("default trait methods", "src/host.rs")], None, ["wrapped host traces"])

p("C21", "Opcode constants and operand enums encode and decode consistently",
  "For every code byte and every enum value, decoding then encoding (and parsing the displayed name) returns the same operand, conditions are satisfied exactly per their flag, the CpuFlags helpers compute what they document, and every public opcode constant, base and mask identifies exactly the opcodes the CPU executes as that instruction.",
  ["inputs"], "all 256 code bytes x all enum types x all flag values; all public opcode constants",
  "unit tests check a sample of values against literals, not against the CPU's decoder.",
  ["src/cpu/parse.rs", "src/lib.rs", "src/cpu/registers.rs", "src/cpu/flags.rs"], [("reg_enum_mask_from macros", "src/cpu/parse.rs"), ("opconsts", "src/lib.rs")], None, ["from_code/to_code/TryFrom/FromStr/Display", "opconsts"])

p("C22", "Long program histories stay in step with a reference machine",
  "Over any program (including self-modifying code, wrap-around of PC/SP/memory, block instructions interrupted mid-way, nested interrupts and NMIs) driven through any interleaving of the execution methods, the CPU's state, memory, I/O history and clock remain equal to an independent reference Z80 after every step; equal CPUs given equal hosts evolve identically.",
  ["programs", "histories", "schedules"], "all programs x interrupt schedules x interleavings of execute_next, execute_instruction, execute_with_limit, irq, nmi, reset",
  "the longest test history is a fixed program with no interrupts.",
  ["src/z80.rs", ZX, "src/z80/internal.rs", "src/z80/macros.rs"], [("whole execution engine", "src/z80.rs")], None, ["whole Cpu API"])

p("C23", "Execution is total and bounded for any input",
  "From any CPU state, over any memory, I/O and clock responses (including clocks that wrap), every execution, interrupt and debug call returns without panicking or overflowing, executes at most one instruction (or one prefix byte) per step with a bounded number of bus cycles, always advances the clock, and never stalls a run-to-limit forever on prefix chains or jumps to self.",
  ["inputs", "programs"], "all byte streams (especially prefix chains, EI chains), all states, all host responses",
  "tests execute only well-formed fixed programs.",
  ["src/z80.rs", ZX, "src/z80/internal.rs", "src/host.rs"], [("prefix executed as its own step", "src/z80.rs"), ("Wrapping arithmetic", "src/z80/internal.rs")], None, ["Cpu execution methods"])

p("C24", "CPU equality, cloning and debug printing reflect exactly the state",
  "Two CPUs (Z80 or Z80Any) that differ in anything the API can observe, or in the flavour's own memory or kind, compare unequal, and CPUs in the same state compare equal once R is normalized, however R came to be; == and != are symmetric and consistent. A clone equals its original and using either never affects the other, and the Debug output shows the true value of every register, flip-flop, mode, prefix and MEMPTR.",
  ["inputs", "histories"], "all pairs of reachable CPU states x flavours",
  "unit tests compare default CPUs only.",
  ["src/z80.rs", "src/z80/debug.rs", "src/z80/any.rs", "src/cpu/registers.rs"], [("derived PartialEq and normalize_r", "src/z80.rs"), ("impl Debug for Z80", "src/z80/debug.rs")], [("r, ir", "lazily merged refresh register", "src/z80.rs")], ["==, clone(), {:?} of Z80 and Z80Any"])

p("C25", "A user-defined Flavour is honoured exactly where documented",
  "For a type implementing Flavour with arbitrary behaviour, a Z80 of that flavour behaves on every program like the NMOS one, except that MEMPTR after LD (nn|BC|DE),A / OUT (n),A is what memptr_mix(A, address low byte) returns, OUT (C),(HL) outputs CONSTANT_OUT_DATA, P/V after LD A,I|R follows ACCEPTING_INT_RESETS_IFF2_EARLY and bits 3 and 5 after SCF/CCF come from get_q(A, flags). begin_instruction is called once before each instruction or interrupt, flags_modified exactly by the instructions that modify the flags, reset by Cpu::reset, and conversions map the flavour through From.",
  ["programs", "histories", "configurations"], "all programs x all Flavour implementations",
  "tests call the built-in flavours' hooks directly.",
  ["src/z80/flavours.rs", "src/z80/internal.rs", "src/z80/instructions.rs", "src/z80.rs"], [("Flavour trait", "src/z80/flavours.rs"), ("calls of the hooks", "src/z80/internal.rs"), ("into_flavour", "src/z80.rs")], None, ["Flavour hooks of a user's type"])

p("C26", "Every build of the crate behaves the same, without undefined behaviour",
  "The crate compiles with every selection of its features (std, serde, none), and for every program, state and host all of its builds give the same registers, bus accesses, timestamps, disassembly, texts and results: with or without std and serde, with or without debug assertions and overflow checks, at any optimisation level. No call of the safe API on any input executes undefined behaviour in the library's unsafe code, and none overflows or panics in a checked build while passing in an optimised one.",
  ["inputs", "histories", "configurations"], "all programs, states and hosts x features x build profiles",
  "tests run in one build: debug with all features.",
  ["Cargo.toml", "src/lib.rs", "src/host.rs", "src/z80/macros.rs", "src/z80/internal.rs", "src/cpu/registers.rs", "src/cpu/parse.rs"], [("debug_unreachable_unchecked", "src/z80/macros.rs"), ("unreachable_unchecked in register enums", "src/cpu/parse.rs"), ("register pointers", "src/cpu/registers.rs")], None, ["every execution, accessor and disassembly method in each build"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        n = x["statement"].count(". ") + 1
        if n > 3: print("sentences", x["id"], n)
    print(len(P))
