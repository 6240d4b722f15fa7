#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
MODEL = "property-based testing (proptest, shrinking) against an independent reference model"
META = "property-based testing (proptest, shrinking), metamorphic/differential oracle"
MON = "stateful property-based testing (proptest, shrinking), trace monitor and direct expected-effect oracle"
T = {
 "C01": (MODEL + "; exhaustive operand enumeration for ALU/accumulator/CB/block-I/O", "8-bit arithmetic, rotates, DAA, BIT/SET/RES, INI/OUTI families are enumerated over all operand x flag values; other encodings sampled with random and edge-biased states. Trusts the hand-written reference Z80 in harness/src/model.rs."),
 "C02": (MODEL + " on the complete bus/clock event trace", "every encoding is covered many thousand times under flat, ULA-like and random contention; sampled, not proved. Trusts the reference Z80's cycle lists."),
 "C03": (META, "random programs/entry states/limits/interrupt schedules, stepping vs one run vs split runs; is_irq must be a level. Sampled."),
 "C04": (META + ", plus bus-trace and re-assembly oracles for the report", "with/without debugger runs compared completely; report bytes compared with the bytes fetched, its text re-assembled by an independent assembler. Sampled."),
 "C05": (MON, "acceptance from arbitrary states through irq(), execute_next and execute_with_limit; histories under interrupt schedules. Sampled."),
 "C06": (MON, "acceptance from arbitrary states and histories with NMI. Sampled."),
 "C07": (MON, "three ways of idling, four ways of leaving HALT, histories. Sampled."),
 "C08": (MON, "histories of up to 40 API operations biased to EI/DI/prefix/RETN with a busy INT line. Sampled."),
 "C09": (META, "the same history with and without break requests, all execution methods, IM 0 OUT/RETI included. Sampled."),
 "C10": (META, "the same history under two independent contention/wait patterns; T-state accounting of each. Sampled."),
 "C11": (META + " (tiling predicate, execution under a debugger)", "byte strings up to 64 KiB plus truncations at every length; one element vs all; execution vs disassembly. Sampled."),
 "C12": ("property-based testing (proptest, shrinking), round-trip oracle through an independent assembler; every encoding enumerated", "all encodings x edge operands enumerated, random operands and PCs sampled; alignment/padding judged as documented, not byte-exact column layout of future formats."),
 "C13": (META + " (round trip)", "states reached by random histories, JSON, TOML, CBOR and bincode, Z80 and Z80Any, continued in lock-step. Sampled."),
 "C14": ("property-based testing (proptest, shrinking) and structured fuzzing of documents; denotation oracle; all 65536 register values enumerated", "forms not documented ('+' signs, unknown fields, nested arrays) are not judged beyond not panicking."),
 "C15": (META + " between flavours", "documented differences are predicted from the executed opcode and removed; everything else must be equal. Sampled."),
 "C16": (META + " (Z80Any against the wrapped type)", "histories over the whole Cpu trait; tags enumerated and mutated. Sampled."),
 "C17": ("model-based stateful property-based testing (proptest, shrinking)", "accessor sequences up to 40 operations against a plain register-file model; all 65536 pair values enumerated."),
 "C18": (MON, "histories incl. inc/add/set R; R compared with counted M1 cycles. Sampled."),
 "C19": ("model-based stateful property-based testing (proptest, shrinking)", "i8..i128/u8..u128 counters near wrap against an exact integer model; programs run with TsCounter against the traced clock. Sampled."),
 "C20": (META + " (recording host direct and through each forwarding macro form)", "direct calls and whole programs; default methods against their documentation. Sampled."),
 "C21": ("exhaustive generated enumeration plus property-based testing, inverse and execution oracles", "all code bytes, enum values and flag values enumerated; each opcode executed from random states."),
 "C22": (MODEL + ", stateful histories", "histories of up to ~40 operations (several hundred instructions). Sampled; trusts the reference Z80."),
 "C23": ("property-based testing and fuzzing (proptest, shrinking), totality/progress/bound oracle", "chaotic hosts and wrapping clocks; overflow checks on; hang monitor and signal handler turn stalls and crashes into violations. Sampled."),
 "C24": ("property-based testing (proptest, shrinking), algebraic laws of ==/clone and read-back of the debug output", "states reached by histories, single mutations incl. one-bit flips of every register; trusts the Debug field names. Sampled."),
 "C25": (META + " (user-defined flavours next to NMOS, predicted exceptions)", "four flavours recording their hooks, histories incl. interrupts; which instructions modify flags is taken from the reference model. Sampled."),
 "C26": ("property-based testing (proptest, shrinking), differential oracle between builds of the crate; generated cases interpreted under Miri", "one probe program built with five feature/profile combinations and run under Miri; everything it observes must be equal. Sampled; x86-64 only."),
}
NA = {}
exec(open(root + "/tools/manifest_extra.py").read()) if os.path.exists(root + "/tools/manifest_extra.py") else None
checks = [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
           "technique": T[i][0], "level": "exploration", "level_note": T[i][1]} for i in ids if i in T]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "check not built yet")} for i in ids if i not in T],
     "notes": "No hooks in /repo: everything is observed through the public API. See DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
