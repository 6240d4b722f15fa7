BUGS = []
def bug(id, prop, needs, breaks, edits, demo, run="cargo run --offline --quiet"):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, run=run))

INT = "src/z80/internal.rs"
Z80 = "src/z80.rs"
OPS = "src/z80/ops.rs"
INS = "src/z80/instructions.rs"
ANY = "src/z80/any.rs"
SER = "src/z80/serde.rs"
FLV = "src/z80/flavours.rs"
DBG = "src/cpu/debug.rs"
REG = "src/cpu/registers.rs"
HOST = "src/host.rs"
MAC = "src/macros.rs"
LIB = "src/lib.rs"
OPC = "src/z80/opcodes.rs"
DIS = "src/disasm.rs"
ZMAC = "src/z80/macros.rs"
PARSE = "src/cpu/parse.rs"

# ---------------------------------------------------------------- C01
bug("c01-ini-carry-saturates", "C01",
    "INI/INIR with C = FFh (or IND/INDR with C = 00h) and an input byte that makes the half carry/carry differ",
    "C+1 saturates instead of wrapping when the flags of the block input instructions are computed",
    [(INT, "(bc as u8).wrapping_add(delta as u8), flags)", "(bc as u8).saturating_add_signed(delta as i8), flags)")],
    '''
let mut bus = Bus::new(0, &[0xED, 0xA2]);
bus.inp = 1;
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_reg16(StkReg16::BC, 0x02FF);
cpu.set_reg16(StkReg16::HL, 0x8000);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert!(!cpu.get_flags().cf(), "1 + ((FFh + 1) & FFh) does not carry");
assert!(!cpu.get_flags().hf());
''')

bug("c01-ex-af-counts-as-flag-op", "C01",
    "EX AF,AF' directly followed by SCF or CCF on NMOS/BM1, with an accumulator whose bits 3/5 differ from the flags",
    "EX AF,AF' is treated as an instruction that modifies flags, so SCF/CCF take bits 3 and 5 from A alone",
    [(INT, "        self.af_alt.set(a, flags.bits());\n", "        self.af_alt.set(a, flags.bits());\n        self.flavour.flags_modified();\n")],
    '''
let mut bus = Bus::new(0, &[0x08, 0x37]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_reg16(StkReg16::AF, 0x0028);
cpu.ex_af_af();
cpu.set_reg16(StkReg16::AF, 0x0000);
step(&mut cpu, &mut bus, &mut clk).unwrap();
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_reg16(StkReg16::AF), 0x0029);
''')

bug("c01-cpi-stale-half-carry", "C01",
    "CPI/CPD/CPIR/CPDR executed when the H flag before the instruction differs from the half borrow it computes",
    "bits 3 and 5 of F after CPI are derived with the old H flag instead of the new one",
    [(OPS, "let n = res.wrapping_sub(bits.hf() as u8);", "let n = res.wrapping_sub(flags.hf() as u8);")],
    '''
let mut bus = Bus::new(0, &[0xED, 0xA1]);
bus.put(0x8000, &[0x00]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_reg16(StkReg16::AF, 0x2010); // old H set, no new half borrow
cpu.set_reg16(StkReg16::BC, 5);
cpu.set_reg16(StkReg16::HL, 0x8000);
step(&mut cpu, &mut bus, &mut clk).unwrap();
// n = 20h - 0 = 20h: bit 1 of n -> Y = 0, bit 3 of n -> X = 0
assert_eq!(cpu.get_flags().bits() & 0x28, 0);
''')

bug("c01-jr-cc-taken-keeps-memptr-page", "C01",
    "a taken conditional JR crossing into another 256-byte page, observed through MEMPTR (BIT n,(HL))",
    "a taken JR cc writes only the low byte of MEMPTR",
    [(INS, "                cpu_debug!([$code, e] JR cc:cc, nn_0:addr);\n                // JR/DJNZ/RET/RETI/RST (jumping to addr) MEMPTR = addr\n                $cpu.memptr.set16(addr.0);",
           "                cpu_debug!([$code, e] JR cc:cc, nn_0:addr);\n                // JR/DJNZ/RET/RETI/RST (jumping to addr) MEMPTR = addr\n                $cpu.memptr.set8lo(addr.0 as u8);")],
    '''
let mut bus = Bus::new(0x1FFE, &[0x28, 0x10]); // JR Z,2010h
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x1FFE);
cpu.set_flags(CpuFlags::Z);
cpu.set_memptr(0x1F00);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_pc(), 0x2010);
assert_eq!(cpu.get_memptr(), 0x2010);
''')

bug("c01-ddcb-bit-xy-from-memptr", "C01",
    "DDCB/FDCB BIT n,(ii+d) where the high byte of ii+d and of ii differ (the sum crosses a page)",
    "BIT n,(ii+d) takes flag bits 3 and 5 from the high byte of the index register, not of the effective address",
    [(INT, "ops::bit_mp(b, val, (ii_d >> 8) as u8, flags);", "ops::bit_mp(b, val, self.get_index2(prefix).0, flags);")],
    '''
let mut bus = Bus::new(0, &[0xDD, 0xCB, 0x01, 0x46]); // BIT 0,(IX+1)
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_index16(Prefix::Xdd, 0x27FF);
step(&mut cpu, &mut bus, &mut clk).unwrap();
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_flags().bits() & 0x28, 0x28, "address 2800h");
''')

# ---------------------------------------------------------------- C02
# ---------------------------------------------------------------- C03
bug("c03-empty-slice-forgets-ei", "C03",
    "EI executed as the last instruction before a limit, followed by an execute_with_limit call whose limit is already reached, then a further run with INT active",
    "an empty time slice clears the EI shadow, so the interrupt is accepted directly after EI",
    [(Z80, "        else if tsc.is_past_limit(vc_limit) {\n            return Ok(());\n        }\n\n        if self.last_ei {",
           "        else if tsc.is_past_limit(vc_limit) {\n            self.last_ei = false;\n            return Ok(());\n        }\n\n        if self.last_ei {")],
    '''
let mut bus = Bus::new(0, &[0xFB, 0x3E, 0x55, 0x00]); // EI; LD A,55h; NOP
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_im(InterruptMode::Mode1);
bus.irq = true;
cpu.execute_with_limit(&mut bus, &mut clk, 4).unwrap();
cpu.execute_with_limit(&mut bus, &mut clk, 4).unwrap();
cpu.execute_with_limit(&mut bus, &mut clk, 5).unwrap();
assert_eq!((cpu.get_pc(), cpu.get_acc()), (3, 0x55));
''')

bug("c03-ei-overruns-limit", "C03",
    "EI being the very instruction that reaches the limit of execute_with_limit",
    "after EI the limit is not checked, so one more instruction is executed past the limit",
    [(Z80, "                if !tsc.is_past_limit(vc_limit)  {\n                    self.last_ei = false;\n                    continue // this way",
           "                {\n                    self.last_ei = false;\n                    continue // this way")],
    '''
let mut bus = Bus::new(0, &[0xFB, 0x00, 0x00]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.execute_with_limit(&mut bus, &mut clk, 4).unwrap();
assert_eq!((cpu.get_pc(), clk.t), (1, 4));
''')

bug("c03-halted-irq-before-limit", "C03",
    "a halted CPU run with a limit which is reached in the very T-state in which INT becomes active",
    "execute_with_limit serves the interrupt of a halted CPU even though the limit is already reached",
    [(Z80, "                if tsc.is_past_limit(vc_limit) {\n                    return Ok(());\n                }\n                if self.iff1 && control.is_irq(tsc.as_timestamp()) {\n                    break\n                }\n                tsc.add_m1(pc);",
           "                if self.iff1 && control.is_irq(tsc.as_timestamp()) {\n                    break\n                }\n                if tsc.is_past_limit(vc_limit) {\n                    return Ok(());\n                }\n                tsc.add_m1(pc);")],
    '''
let mut bus = Bus::new(0, &[0x76]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_iffs(true, true);
cpu.set_im(InterruptMode::Mode1);
let _ = step(&mut cpu, &mut bus, &mut clk);
assert!(cpu.is_halt());
bus.irq = true;
bus.irq_from = 20;
cpu.execute_with_limit(&mut bus, &mut clk, 20).unwrap();
assert_eq!((clk.t, cpu.is_halt()), (20, true));
''')

# ---------------------------------------------------------------- C04
bug("c04-debug-untaken-djnz-target", "C04",
    "a debugger attached while DJNZ falls through (B becomes zero)",
    "the debug report of an untaken DJNZ is made before PC moves past the displacement: address and jump target are one too low",
    [(INS, "                $pc += Wrapping(1);\n                cpu_debug!([$code, e] DJNZ rel:e);", "                cpu_debug!([$code, e] DJNZ rel:e);\n                $pc += Wrapping(1);")],
    '''
let mut bus = Bus::new(0x100, &[0x10, 0x10]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x100);
cpu.set_reg(Reg8::B, None, 1);
let mut rep = None;
cpu.execute_next(&mut bus, &mut clk, Some(|d: CpuDebug| rep = Some(d))).unwrap();
let rep = rep.unwrap();
assert_eq!(rep.pc, 0x100);
assert_eq!(rep.args, CpuDebugArgs::Single(CpuDebugArg::Imm16(0x112)));
''')

# ---------------------------------------------------------------- C05
bug("c05-im2-even-vector", "C05",
    "interrupt mode 2 with an odd byte on the data bus",
    "the lowest bit of the vector supplied by the device is forced to zero",
    [(INT, "let vaddr = ir & 0xFF00 | vector as u16;", "let vaddr = ir & 0xFF00 | (vector & 0xFE) as u16;")],
    '''
let mut bus = Bus::new(0, &[0]);
bus.put(0x80FE, &[0x11, 0x22, 0x33]);
bus.irq = true;
bus.vec = 0xFF;
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_iffs(true, true);
cpu.set_im(InterruptMode::Mode2);
cpu.set_i(0x80);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_pc(), 0x3322);
''')

bug("c05-im0-halted-return-address", "C05",
    "a maskable interrupt in mode 0 or 1 accepted while halted",
    "the address pushed is that of the HALT, so the CPU halts again after RETI instead of going on",
    [(INT, "            pc = pc.wrapping_add(1);\n            self.pc.set16(pc);\n        }\n        let bus_ts", "            pc = pc.wrapping_add(1);\n            if self.im == InterruptMode::Mode2 {\n                self.pc.set16(pc);\n            }\n        }\n        let bus_ts")],
    '''
let mut bus = Bus::new(0x100, &[0x76]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x100);
cpu.set_iffs(true, true);
cpu.set_im(InterruptMode::Mode0);
bus.vec = 0xEF; // RST 28h
let _ = step(&mut cpu, &mut bus, &mut clk);
bus.irq = true;
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_pc(), 0x28);
assert_eq!(bus.mem[cpu.get_sp() as usize], 0x01);
''')

# ---------------------------------------------------------------- C06
bug("c06-nmi-halt-at-top-of-memory", "C06",
    "an NMI accepted while halted on a HALT located at address FFFFh",
    "the return address saturates at FFFFh instead of wrapping to 0000h",
    [(INT, "            pc = pc.wrapping_add(1);\n        }\n        tsc.add_m1(pc); // pc:4", "            pc = pc.saturating_add(1);\n        }\n        tsc.add_m1(pc); // pc:4")],
    '''
let mut bus = Bus::new(0xFFFF, &[0x76]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0xFFFF);
cpu.set_sp(0x8000);
let _ = step(&mut cpu, &mut bus, &mut clk);
assert!(cpu.is_halt());
assert!(cpu.nmi(&mut bus, &mut clk));
assert_eq!((bus.mem[0x7FFF], bus.mem[0x7FFE]), (0, 0));
''')

# ---------------------------------------------------------------- C07
bug("c07-halted-slice-loses-refresh", "C07",
    "a halted CPU idled by execute_with_limit until an interrupt arrives within the slice",
    "R is advanced in one batch when the limit is reached, and not at all when an interrupt ends the halted state",
    [(Z80, "            loop {\n                if tsc.is_past_limit(vc_limit) {\n                    return Ok(());\n                }\n                if self.iff1",
           "            let mut cycles = 0;\n            loop {\n                if tsc.is_past_limit(vc_limit) {\n                    self.add_r(cycles);\n                    return Ok(());\n                }\n                if self.iff1"),
     (Z80, "                tsc.add_m1(pc);\n                self.inc_r();\n            }\n        }\n        else if",
           "                tsc.add_m1(pc);\n                cycles += 1;\n            }\n        }\n        else if")],
    '''
let mut bus = Bus::new(0, &[0x76]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_iffs(true, true);
cpu.set_im(InterruptMode::Mode1);
let _ = step(&mut cpu, &mut bus, &mut clk);
bus.irq = true;
bus.irq_from = 24;
cpu.execute_with_limit(&mut bus, &mut clk, 25).unwrap();
assert_eq!((cpu.get_pc(), cpu.get_r()), (0x38, 7));
''')

bug("c07-halted-step-moves-pc", "C07",
    "a HALT located in the last byte of memory, or a halted CPU whose state is read between steps",
    "leaving the halted state through execute_next with an interrupt in mode 2 pushes the address of the HALT",
    [(INT, "                self.push16(pc, control, tsc); // sp-1:3, sp-2:3\n                let vaddr", "                self.push16(if pc == 0 { 0xFFFF } else { pc }, control, tsc); // sp-1:3, sp-2:3\n                let vaddr")],
    '''
let mut bus = Bus::new(0xFFFF, &[0x76]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0xFFFF);
cpu.set_sp(0x8000);
cpu.set_iffs(true, true);
cpu.set_im(InterruptMode::Mode2);
let _ = step(&mut cpu, &mut bus, &mut clk);
bus.irq = true;
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!((bus.mem[0x7FFF], bus.mem[0x7FFE]), (0, 0));
''')

# ---------------------------------------------------------------- C08
bug("c08-prefix-shadow-ignored-in-run", "C08",
    "INT becoming active between a DD/FD prefix and its opcode while execute_with_limit is running",
    "the running loop checks for interrupts between an index prefix and the opcode it modifies",
    [(Z80, "                if is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {\n                    break 'main LoopExitReason::Irq\n                }\n            };\n\n            if let LoopExitReason::EnableInt = reason {\n                if",
           "                if self.iff1 && control.is_irq(tsc.as_timestamp()) {\n                    break 'main LoopExitReason::Irq\n                }\n            };\n\n            if let LoopExitReason::EnableInt = reason {\n                if")],
    '''
let mut bus = Bus::new(0x100, &[0x00, 0xDD, 0x21, 0x34, 0x12, 0x00]); // NOP; LD IX,1234h
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x100);
cpu.set_sp(0x8000);
cpu.set_iffs(true, true);
cpu.set_im(InterruptMode::Mode1);
bus.irq = true;
bus.irq_from = 8; // right after the prefix
cpu.execute_with_limit(&mut bus, &mut clk, 19).unwrap();
assert_eq!(cpu.get_index16(Prefix::Xdd), 0x1234);
''')

bug("c08-retn-only-enables", "C08",
    "RETN/RETI (or restore_iff1) executed when IFF1 is set and IFF2 is clear",
    "IFF1 is only ever set by the restore, never cleared",
    [(Z80, "        self.iff1 = self.iff2;\n", "        self.iff1 |= self.iff2;\n")],
    '''
let mut bus = Bus::new(0, &[0xED, 0x45]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_iffs(true, false);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_iffs(), (false, false));
''')

# ---------------------------------------------------------------- C09
bug("c09-im0-break-lost-at-limit", "C09",
    "interrupt mode 0 with an injected OUT instruction whose host asks for a break, reaching the limit at the same time, inside execute_with_limit",
    "the break cause is dropped and Ok returned when the interrupt's instruction also reaches the limit",
    [(Z80, "                    Err(cause) => return Err(cause)\n", "                    Err(cause) => return if tsc.is_past_limit(vc_limit) { Ok(()) } else { Err(cause) }\n")],
    '''
let mut bus = Bus::new(0x100, &[0x00, 0xFE]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x100);
cpu.set_acc(0x77);
cpu.set_iffs(true, true);
bus.irq = true;
bus.irq_from = 4;
bus.vec = 0xD3; // OUT (n),A
bus.out_break = true;
let r = cpu.execute_with_limit(&mut bus, &mut clk, 10);
assert!(matches!(r, Err(BreakCause::WriteIo(0x77))), "{:?}", r);
''')

bug("c09-break-ends-otir", "C09",
    "a host that asks for a break in the middle of OTIR/OTDR",
    "a break requested during OTIR stops the repetition: after resuming, the rest of the block is never sent",
    [(INT, "            if b != 0 {\n                // tsc.add_no_mreq::<{NO_MREQ_X5.get()}>(bc);", "            if b != 0 && should_break.is_none() {\n                // tsc.add_no_mreq::<{NO_MREQ_X5.get()}>(bc);")],
    '''
let mut bus = Bus::new(0x100, &[0xED, 0xB3, 0x00]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x100);
cpu.set_reg16(StkReg16::BC, 0x0310);
bus.out_break = true;
for _ in 0..3 {
    assert!(cpu.execute_with_limit(&mut bus, &mut clk, 1000).is_err());
}
assert_eq!(bus.log.len(), 3);
assert_eq!(cpu.get_pc(), 0x102);
''')

# ---------------------------------------------------------------- C10
bug("c10-outi-wait-address", "C10",
    "OUTI/OUTD/OTIR/OTDR with wait states requested by write_io, on a clock that looks at the bus address",
    "the wait states are reported on the port address before B was decremented",
    [(INT, "        let (should_break, wait_states) = control.write_io(bc, data, tsc.add_io(bc));\n        if let Some(ws) = wait_states {\n            tsc.add_wait_states(bc, ws);\n        }\n        self.regs.bc.set8hi(b);",
           "        let (should_break, wait_states) = control.write_io(bc, data, tsc.add_io(bc));\n        if let Some(ws) = wait_states {\n            tsc.add_wait_states(self.regs.bc.get16(), ws);\n        }\n        self.regs.bc.set8hi(b);")],
    '''
let mut bus = Bus::new(0x100, &[0xED, 0xA3]);
bus.io_wait = 3;
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x100);
cpu.set_reg16(StkReg16::BC, 0x0310);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert!(clk.log.contains(&"wait 0210 3".to_string()), "{:?}", clk.log);
''')

bug("c10-in-f-c-drops-waits", "C10",
    "the undocumented IN (C) (ED 70h) with wait states requested by read_io",
    "wait states are honoured only for the forms which store the byte in a register",
    [(INT, "        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));\n        if let Some(ws) = wait_states {\n            tsc.add_wait_states(bc, ws);\n        }\n        ops::io(data, flags);",
           "        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));\n        if let (Some(ws), Ok(_)) = (wait_states, arg) {\n            tsc.add_wait_states(bc, ws);\n        }\n        ops::io(data, flags);")],
    '''
let mut bus = Bus::new(0x100, &[0xED, 0x70]);
bus.io_wait = 3;
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x100);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(clk.t, 15);
''')

# ---------------------------------------------------------------- C11
bug("c11-disasm-straddles-ffff", "C11",
    "a multi-byte instruction in the slice whose bytes straddle address FFFFh/0000h",
    "operand bytes past the address wrap are read from the start of the chunk",
    [(DIS, "self.1.get(addr.wrapping_sub(self.0) as usize)", "self.1.get(addr.saturating_sub(self.0) as usize)")],
    '''
let d = disasm::disasm_memory_once::<Z80NMOS>(0xFFFE, &[0x21, 0x34, 0x12]).unwrap();
assert_eq!(d.code.as_slice(), &[0x21, 0x34, 0x12]);
''')

# ---------------------------------------------------------------- C12
bug("c12-upperhex-minus-128", "C12",
    "upper-case hexadecimal text of an operand (IX-80h) (displacement -128)",
    "the displacement -128 is printed as -7Fh",
    [(DBG, '''                write!(f, "({}-{:02X}h)", px, 0u8.wrapping_sub(*d as u8))''', '''                write!(f, "({}-{:02X}h)", px, d.saturating_neg())''')],
    '''
let a = CpuDebugAddr::IndexAddr(Prefix::Xdd, Some(-128));
assert_eq!(format!("{:X}", a), "(IX-80h)");
assert_eq!(format!("{:x}", a), "(IX-80h)");
''')

bug("c12-alt-upperhex-overflow", "C12",
    "the {:#X} form of the longest operand text, RES/SET b,(ii+d),r",
    "the temporary buffer is one byte too short and formatting fails (to_string panics)",
    [(DBG, '''            pad!([15] f, (#"{:#X}", "{:X}"), self)''', '''            pad!([14] f, (#"{:#X}", "{:X}"), self)''')],
    '''
let a = CpuDebugArgs::BitOpExt(7, CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(Prefix::Xdd, Some(5))), Reg8::C);
assert_eq!(format!("{:#15X}", a), "7, (IX+0x05), C");
''')

# ---------------------------------------------------------------- C13
bug("c13-bm1-loses-flavour-state", "C13",
    "a BM1 CPU serialized to JSON right after an instruction that modified flags, and SCF/CCF executed next",
    "the flavour state of a BM1 is not read back from a map",
    [(SER, "            flavour: flavour.map(BM1::from).unwrap_or_default()\n", "            flavour: BM1::default()\n")],
    '''
type Z80BM1 = Z80<z80::BM1>;
let mut bus = Bus::new(0, &[0xAF]);
let mut clk = Clk::default();
let mut cpu = Z80BM1::new();
step(&mut cpu, &mut bus, &mut clk).unwrap();
let back: Z80BM1 = serde_json::from_str(&serde_json::to_string(&cpu).unwrap()).unwrap();
assert_eq!(cpu, back);
''')

bug("c13-bincode-swaps-iffs", "C13",
    "a binary (sequence) round trip of a CPU whose two interrupt flip-flops differ, e.g. inside an NMI handler",
    "IFF1 and IFF2 are exchanged when reading a CPU back from a sequence",
    [(SER, "    let iff1     = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(n + 11, &visitor))?;\n    let iff2     = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(n + 12, &visitor))?;",
           "    let iff2     = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(n + 11, &visitor))?;\n    let iff1     = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(n + 12, &visitor))?;")],
    '''
let mut cpu = Z80NMOS::new();
cpu.set_iffs(false, true);
let back: Z80NMOS = bincode::deserialize(&bincode::serialize(&cpu).unwrap()).unwrap();
assert_eq!(back.get_iffs(), (false, true));
''')

# ---------------------------------------------------------------- C14
bug("c14-missing-r-reads-zero", "C14",
    "a legacy document without the field r, with a non-zero refresh register in ir",
    "a missing r is read as zero instead of the low byte of ir",
    [(SER, "r.unwrap_or_else(|| Wrapping(ir.get8lo()));", "r.unwrap_or_else(|| Wrapping(ir.get8hi() & 0));")],
    '''
let doc = r#"{"af":0,"afAlt":0,"regs":{"bc":0,"de":0,"hl":0},"regsAlt":{"bc":0,"de":0,"hl":0},"index":{"ix":0,"iy":0},"pc":0,"sp":0,"lastEi":false,"ir":4660,"im":"Mode0","iff1":false,"iff2":false,"halt":false,"prefix":null}"#;
let cpu: Z80NMOS = serde_json::from_str(doc).unwrap();
assert_eq!(cpu.get_ir(), 0x1234);
''')

bug("c14-u64-truncated", "C14",
    "a document giving a register pair a number whose low 32 bits look like a 16-bit value",
    "numbers of 2^32 and more are compared after truncation and silently accepted",
    [(REG, "if value <= u64::from(std::u16::MAX) {", "if value as u32 <= u32::from(std::u16::MAX) {")],
    '''
assert!(serde_json::from_str::<RegisterPair>("65535").is_ok());
assert!(serde_json::from_str::<RegisterPair>("65536").is_err());
assert!(serde_json::from_str::<RegisterPair>("4294967296").is_err());
assert!(serde_json::from_str::<RegisterPair>("18446744069414584321").is_err());
''')

# ---------------------------------------------------------------- C15
bug("c15-bm1-to-nmos-swaps-q", "C15",
    "converting a BM1 into an NMOS CPU (or back) directly after an instruction that changed flags, with SCF/CCF next",
    "the two flag-history bits are exchanged by the conversion",
    [(FLV, "        NMOS {flags_modified, last_flags_modified}\n", "        NMOS {flags_modified: last_flags_modified, last_flags_modified: flags_modified}\n")],
    '''
type Z80BM1 = Z80<z80::BM1>;
let mut bus = Bus::new(0, &[0xAF]);
let mut clk = Clk::default();
let mut cpu = Z80BM1::new();
step(&mut cpu, &mut bus, &mut clk).unwrap();
let same: Z80BM1 = cpu.clone().into_flavour::<z80::NMOS>().into_flavour::<z80::BM1>();
assert_eq!(cpu, same);
''')

# ---------------------------------------------------------------- C16
bug("c16-any-irq-debug-dropped", "C16",
    "a maskable interrupt accepted through Z80Any::irq with a debugger attached",
    "Z80Any does not pass the debugger on, so the interrupt's instruction is not reported",
    [(ANY, "cpu_dispatch_any!(self(cpu) => cpu.irq(control, tsc, debug))", "{\n            let _ = debug;\n            cpu_dispatch_any!(self(cpu) => cpu.irq(control, tsc, None::<F>))\n        }")],
    '''
let mut bus = Bus::new(0, &[0]);
bus.irq = true;
let mut clk = Clk::default();
let mut cpu = Z80Any::new_cmos();
cpu.set_iffs(true, true);
cpu.set_im(InterruptMode::Mode1);
let mut n = 0;
cpu.irq(&mut bus, &mut clk, Some(|_: CpuDebug| n += 1)).unwrap().unwrap();
assert_eq!(n, 1);
''')

bug("c16-bm1-tag-case-sensitive", "C16",
    "looking up the BM1 flavour by a tag not written in capitals",
    "the BM1 tag is matched case-sensitively",
    [(ANY, '''tag.eq_ignore_ascii_case("BM1")''', '''tag == "BM1"''')],
    '''
assert!(Z80Any::with_tag("nmos").is_some());
assert!(Z80Any::with_tag("bm1").is_some());
''')

# ---------------------------------------------------------------- C17
bug("c17-reset-keeps-prefix", "C17",
    "reset() requested between an index prefix and its opcode",
    "the pending prefix survives the reset and modifies the first instruction after it",
    [(Z80, "        self.prefix = None;\n        self.r = Wrapping(0);", "        self.r = Wrapping(0);")],
    '''
let mut bus = Bus::new(0, &[0xDD]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
step(&mut cpu, &mut bus, &mut clk).unwrap();
cpu.reset();
assert_eq!(cpu, Z80NMOS::new());
''')

# ---------------------------------------------------------------- C18
bug("c18-add-r-negative", "C18",
    "add_r with a negative delta",
    "the sign of the delta is ignored",
    [(Z80, "self.r += Wrapping(delta as u8);", "self.r += Wrapping(delta.unsigned_abs() as u8);")],
    '''
let mut cpu = Z80NMOS::new();
cpu.set_r(0x10);
cpu.add_r(-3);
assert_eq!(cpu.get_r(), 0x0D);
''')

# ---------------------------------------------------------------- C19
bug("c19-wait-states-truncated", "C19",
    "more than 255 wait states requested at once",
    "only the low byte of the number of wait states is added to the counter",
    [(HOST, "self.0 += Wrapping(wait_states.get().into())", "self.0 += Wrapping((wait_states.get() as u8).into())")],
    '''
let mut t = TsCounter::<i64>::from(10);
t.add_wait_states(0, NonZeroU16::new(0x0201).unwrap());
assert_eq!(t.as_timestamp(), 10 + 0x201);
''')

# ---------------------------------------------------------------- C20
bug("c20-default-read16-top", "C20",
    "a host relying on the default read_mem16, reading a word at FFFFh (POP, LD rr,(nn) or an operand at the top of memory)",
    "the high byte is read from FFFFh again instead of 0000h",
    [(HOST, "self.read_debug(address.wrapping_add(1))])", "self.read_debug(address.saturating_add(1))])")],
    '''
let mut bus = Bus::new(0xFFFF, &[0x34, 0x12]);
bus.mem[0] = 0x12;
assert_eq!(bus.read_mem16(0xFFFF, 0), 0x1234);
''')

bug("c20-forward-read-mem", "C20",
    "a wrapped Memory whose read_mem differs from read_debug (paging, watch points, timing)",
    "the forwarding macro maps read_mem to read_debug of the wrapped object",
    [(MAC, "            ($fwd).read_mem(addr, ts)\n", "            let _ = ts;\n            ($fwd).read_debug(addr)\n")],
    '''
struct Inner;
impl Memory for Inner {
    type Timestamp = i32;
    fn read_mem(&self, _a: u16, _t: i32) -> u8 { 1 }
    fn read_debug(&self, _a: u16) -> u8 { 2 }
}
struct Outer(Inner);
impl Memory for Outer {
    forward_host_memory_types! { @ => Inner }
    forward_host_memory_methods! { @ => |me| me.0 }
}
assert_eq!(Outer(Inner).read_mem(0, 0), 1);
''')

# ---------------------------------------------------------------- C21
bug("c21-call-cc-mask-matches-push", "C21",
    "using the public CALL cc mask/base to recognise calls (step over) on a PUSH or CALL nn opcode",
    "the mask also matches 11_xxx_101 codes: PUSH, CALL nn and the DD/ED/FD prefixes",
    [(LIB, "    pub const CALL_CC_OPMASK: u8 = 0b11_000_111;", "    pub const CALL_CC_OPMASK: u8 = 0b11_000_110;")],
    '''
assert_ne!(0xC5 & opconsts::CALL_CC_OPMASK, opconsts::CALL_CC_OPBASE);
''')

# ---------------------------------------------------------------- C22
bug("c22-nmi-keeps-flag-history", "C22",
    "an NMI after a flag-changing instruction, with SCF/CCF as the first instruction of the handler (NMOS, BM1)",
    "NMI acceptance does not count as an instruction in the flag history",
    [(INT, "        self.flavour.begin_instruction();\n        self.pc.set16(NMI_RESTART);", "        self.pc.set16(NMI_RESTART);")],
    '''
let mut bus = Bus::new(0, &[0xAF, 0x00]); // XOR A
bus.put(0x66, &[0x37]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
step(&mut cpu, &mut bus, &mut clk).unwrap();
cpu.set_flags(CpuFlags::XY);
assert!(cpu.nmi(&mut bus, &mut clk));
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_flags().bits() & 0x28, 0x28);
''')

bug("c22-ldir-over-itself", "C22",
    "LDIR/LDDR overwriting its own opcode bytes, driven by execute_with_limit or execute_next",
    "a repeating LDIR whose destination is its own second opcode byte is finished early",
    [(INT, "                // MEMPTR = PC + 1\n                self.memptr.set16((pc - Wrapping(1)).0);\n                return Some(pc - Wrapping(2))\n            }\n        }\n        None\n    }\n\n    #[inline(never)]\n    pub(super) fn block_search",
           "                // MEMPTR = PC + 1\n                self.memptr.set16((pc - Wrapping(1)).0);\n                return Some(if de == (pc - Wrapping(1)).0 { pc } else { pc - Wrapping(2) })\n            }\n        }\n        None\n    }\n\n    #[inline(never)]\n    pub(super) fn block_search")],
    '''
let mut bus = Bus::new(0x100, &[0xED, 0xB0]);
bus.put(0x200, &[0x00, 0x00]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x100);
cpu.set_reg16(StkReg16::HL, 0x200);
cpu.set_reg16(StkReg16::DE, 0x101);
cpu.set_reg16(StkReg16::BC, 9);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_pc(), 0x100);
''')

# ---------------------------------------------------------------- C23
bug("c23-prefix-chain-hangs-run", "C23",
    "execute_with_limit over memory filled with DD/FD prefixes",
    "the limit is not checked while an index prefix is pending, so an endless prefix chain never returns",
    [(Z80, "                if tsc.is_past_limit(vc_limit)  {\n                    break 'main LoopExitReason::LimitReached\n                }\n\n                if is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {\n                    break 'main LoopExitReason::Irq\n                }\n            };\n\n            if let",
           "                if prefix.is_some() {\n                    continue\n                }\n\n                if tsc.is_past_limit(vc_limit)  {\n                    break 'main LoopExitReason::LimitReached\n                }\n\n                if is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {\n                    break 'main LoopExitReason::Irq\n                }\n            };\n\n            if let")],
    '''
let mut bus = Bus::new(0x100, &[0xDD; 1000]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x100);
cpu.execute_with_limit(&mut bus, &mut clk, 40).unwrap();
assert!(clk.t <= 44, "{}", clk.t);
''')

bug("c23-index-overflow-panics", "C23",
    "an indexed operand whose address wraps around 0000h/FFFFh, in a build with overflow checks",
    "the effective address is computed with plain arithmetic which panics on overflow",
    [(ZMAC, "        $ii.wrapping_add($d as i8 as i16 as u16)\n", "        if ($d as i8) < 0 { $ii.wrapping_sub(($d as i8).unsigned_abs() as u16) } else { $ii + $d as u16 }\n")],
    '''
let mut bus = Bus::new(0x100, &[0xDD, 0x7E, 0x02]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x100);
cpu.set_index16(Prefix::Xdd, 0xFFFF);
step(&mut cpu, &mut bus, &mut clk).unwrap();
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_memptr(), 0x0001);
''')

# ---------------------------------------------------------------- second batch (replacing changes the existing tests notice)
bug("c02-pop-top-of-memory", "C02",
    "POP or RET with SP = FFFFh, on a clock whose contention depends on the address",
    "the second memory read cycle of a pop is clocked with the address FFFFh instead of 0000h",
    [(INT, "        tsc.add_mreq(sp.wrapping_add(1));\n        self.sp.set16(sp.wrapping_add(2));\n        val",
           "        tsc.add_mreq(sp.saturating_add(1));\n        self.sp.set16(sp.wrapping_add(2));\n        val")],
    '''
let mut bus = Bus::new(0x8000, &[0xC1]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x8000);
cpu.set_sp(0xFFFF);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(clk.log, ["m1 8000", "ffff:3", "0000:3"]);
''')

bug("c02-nmi-raw-refresh", "C02",
    "an NMI some M1 cycles after R was last written, on a clock whose contention depends on the address",
    "the internal T-state of the NMI response is reported with the stale R value last stored",
    [(INT, "        tsc.add_no_mreq(self.get_ir(), NO_MREQ_X1); // ir:1\n        self.push16(pc, control, tsc); // sp-1:3, sp-2:3\n        self.flavour",
           "        tsc.add_no_mreq(self.ir.get16(), NO_MREQ_X1); // ir:1\n        self.push16(pc, control, tsc); // sp-1:3, sp-2:3\n        self.flavour")],
    '''
let mut bus = Bus::new(0x8000, &[0x00, 0x00]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x8000);
cpu.set_i(0x40);
cpu.set_r(0x10);
for _ in 0..2 { step(&mut cpu, &mut bus, &mut clk).unwrap(); }
assert!(cpu.nmi(&mut bus, &mut clk));
assert_eq!(clk.log[3], "4013:1");
''')

bug("c04-debug-lost-on-out-break", "C04",
    "OUT (n),A executed with a debugger while the host's write_io asks for a break",
    "the debug closure is not called for an OUT (n),A whose write breaks the execution",
    [(INS, "            cpu_debug!([$code, n] OUT port:n, r:A);\n", ""),
     (INS, "            if let Some(cause) = $cpu.io_a_out_an($control, $tsc, n) {\n                break $main LoopExitReason::WriteIo(cause);\n            }\n",
           "            if let Some(cause) = $cpu.io_a_out_an($control, $tsc, n) {\n                break $main LoopExitReason::WriteIo(cause);\n            }\n            cpu_debug!([$code, n] OUT port:n, r:A);\n")],
    '''
let mut bus = Bus::new(0, &[0xD3, 0xFE]);
bus.out_break = true;
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
let mut n = 0;
let _ = cpu.execute_next(&mut bus, &mut clk, Some(|d: CpuDebug| { assert_eq!(&d.code[..], [0xD3, 0xFE]); n += 1 }));
assert_eq!(n, 1);
''')

bug("c06-halted-nmi-clears-iff2", "C06",
    "an NMI accepted while halted with interrupts enabled, then RETN",
    "waking from HALT by NMI clears IFF2 too, so the interrupts stay disabled after RETN",
    [(INT, "        self.last_ei = false;\n        self.iff1 = false;\n        self.inc_r();\n        let mut pc = self.pc.get16();\n        if self.halt {\n            self.halt = false;",
           "        self.last_ei = false;\n        self.iff1 = false;\n        self.inc_r();\n        let mut pc = self.pc.get16();\n        if self.halt {\n            self.iff2 = false;\n            self.halt = false;")],
    '''
let mut bus = Bus::new(0, &[0x76]);
bus.put(0x66, &[0xED, 0x45]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_iffs(true, true);
let _ = step(&mut cpu, &mut bus, &mut clk);
assert!(cpu.is_halt());
assert!(cpu.nmi(&mut bus, &mut clk));
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_iffs(), (true, true));
''')

bug("c11-disasm-long-slice", "C11",
    "disassembling a slice longer than 64 KiB",
    "addresses of the instructions beyond the first 64 KiB of the slice stop advancing",
    [(DIS, "        let pc = pc.wrapping_add(cursor as u16);", "        let pc = pc.wrapping_add(cursor.min(0xFFFF) as u16);")],
    '''
let mem = vec![0u8; 0x10004];
let mut last = 0;
disasm::disasm_memory::<Z80NMOS, _, ()>(0, &mem, |d| { last = d.pc; Ok(()) }).unwrap();
assert_eq!(last, 3);
''')

bug("c15-conversion-drops-prefix", "C15",
    "converting between flavours between a DD/FD prefix and the instruction it modifies",
    "into_flavour forgets the pending prefix",
    [(Z80, "            prefix: self.prefix,\n            r: self.r,\n            flavour: self.flavour.into()", "            prefix: None,\n            r: self.r,\n            flavour: self.flavour.into()")],
    '''
let mut bus = Bus::new(0, &[0xDD, 0x23]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
step(&mut cpu, &mut bus, &mut clk).unwrap();
let mut cpu: z80::Z80BM1 = cpu.into_flavour();
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_index16(Prefix::Xdd), 1);
''')

bug("c17-di-keeps-iff2", "C17",
    "disable_interrupts() with IFF1 already clear and IFF2 set (inside an NMI handler)",
    "disable_interrupts leaves IFF2 set",
    [(Z80, "        self.iff1 = false;\n        self.iff2 = false;\n    }\n\n    #[inline]\n    fn enable_interrupts", "        if self.iff1 {\n            self.iff1 = false;\n            self.iff2 = false;\n        }\n    }\n\n    #[inline]\n    fn enable_interrupts")],
    '''
let mut cpu = Z80NMOS::new();
cpu.set_iffs(false, true);
cpu.disable_interrupts();
assert_eq!(cpu.get_iffs(), (false, false));
''')

bug("c18-halted-irq-keeps-r", "C18",
    "an interrupt accepted while the CPU is halted",
    "the acknowledge M1 cycle that ends a HALT does not advance R",
    [(INT, "        self.disable_interrupts();\n        self.inc_r();\n        let mut pc = self.pc.get16();\n        if self.halt {\n            self.halt = false;\n            pc = pc.wrapping_add(1);\n            self.pc.set16(pc);\n        }\n",
           "        self.disable_interrupts();\n        let mut pc = self.pc.get16();\n        if self.halt {\n            self.halt = false;\n            pc = pc.wrapping_add(1);\n            self.pc.set16(pc);\n        }\n        else {\n            self.inc_r();\n        }\n")],
    '''
let mut bus = Bus::new(0, &[0x76]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_im(InterruptMode::Mode1);
cpu.set_iffs(true, true);
let _ = step(&mut cpu, &mut bus, &mut clk);
assert!(cpu.is_halt());
let r = cpu.get_r();
cpu.irq(&mut bus, &mut clk, NODEB).unwrap().unwrap();
assert_eq!(cpu.get_r(), r + 1);
''')

bug("c21-jr-cc-mask", "C21",
    "matching opcodes with JR_CC_OPBASE / JR_CC_OPMASK",
    "the mask ignores bit 2, so INC H, INC L and similar opcodes look like JR cc",
    [(LIB, "JR_CC_OPMASK  : u8 = 0b11_100_111;", "JR_CC_OPMASK  : u8 = 0b11_100_011;")],
    '''
for op in 0..=255u8 {
    let jr = matches!(op, 0x20 | 0x28 | 0x30 | 0x38);
    assert_eq!(op & opconsts::JR_CC_OPMASK == opconsts::JR_CC_OPBASE, jr, "{:02x}", op);
}
''')

# ================================================================ round 2
bug("c01-ld-a-nn-memptr-top", "C01",
    "LD A,(FFFFh): MEMPTR is then visible in bits 3 and 5 of F after BIT n,(HL)",
    "MEMPTR saturates at FFFFh instead of wrapping to 0000h",
    [(INT, "        // LD A, (nn) MEMPTR = addr + 1\n        self.memptr.set16(addr.wrapping_add(1));", "        // LD A, (nn) MEMPTR = addr + 1\n        self.memptr.set16(addr.saturating_add(1));")],
    '''
let mut bus = Bus::new(0, &[0x3A, 0xFF, 0xFF]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_memptr(), 0);
''')

bug("c01-outi-carry-at-page-end", "C01",
    "OUTI/OTIR with HL at xxFFh",
    "the flags are computed from HL before it is incremented when L is FFh",
    [(INT, "ops::iox(data, b, hl1 as u8, flags);", "ops::iox(data, b, if hl1 as u8 == 0 { hl } else { hl1 } as u8, flags);")],
    '''
let mut bus = Bus::new(0, &[0xED, 0xA3]);
bus.put(0x80FF, &[0x01]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_flags(CpuFlags::empty());
cpu.set_reg16(StkReg16::HL, 0x80FF);
cpu.set_reg16(StkReg16::BC, 0x0210);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert!(!cpu.get_flags().contains(CpuFlags::C));
''')

bug("c03-irq-overruns-limit", "C03",
    "execute_with_limit whose limit falls inside the interrupt acknowledge sequence of an interrupt accepted in the middle of the run",
    "one more instruction is executed after the limit was reached",
    [(Z80, "                    Ok(()) => {\n                        if tsc.is_past_limit(vc_limit) {\n                            return Ok(());\n                        }\n",
           "                    Ok(()) => {\n                        if self.iff1 && tsc.is_past_limit(vc_limit) {\n                            return Ok(());\n                        }\n")],
    '''
let mut bus = Bus::new(0x38, &[0x3C]);
bus.irq = true;
bus.irq_from = 8;
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_im(InterruptMode::Mode1);
cpu.set_iffs(true, true);
cpu.execute_with_limit(&mut bus, &mut clk, 9).unwrap();
assert_eq!(cpu.get_pc(), 0x38);
''')

bug("c08-stale-shadow-after-run", "C08",
    "EI followed by another instruction within one execute_with_limit run, then an NMI or irq() right after the run",
    "the EI shadow is still reported after the next instruction was executed",
    [(Z80, "                if !tsc.is_past_limit(vc_limit)  {\n                    self.last_ei = false;\n                    continue // this way skipping irq check immediately after EI",
           "                if !tsc.is_past_limit(vc_limit)  {\n                    continue // this way skipping irq check immediately after EI")],
    '''
let mut bus = Bus::new(0, &[0xFB, 0, 0, 0]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.execute_with_limit(&mut bus, &mut clk, 12).unwrap();
assert_eq!(cpu.get_pc(), 3);
assert!(cpu.nmi(&mut bus, &mut clk));
''')

bug("c08-second-ei-no-shadow", "C08",
    "EI executed while interrupts are already enabled",
    "enable_interrupts() leaves no shadow when IFF1 was already set",
    [(Z80, "        self.iff1 = true;\n        self.iff2 = true;\n        self.last_ei = true;", "        self.last_ei = !self.iff1;\n        self.iff1 = true;\n        self.iff2 = true;")],
    '''
let mut cpu = Z80NMOS::new();
cpu.set_iffs(true, true);
cpu.enable_interrupts();
assert!(cpu.is_after_ei());
assert!(!cpu.is_irq_allowed());
''')

bug("c10-irq-waits-only-im0-im1", "C10",
    "an interrupt accepted in IM 2 with wait states requested by irq_data",
    "the wait states of the acknowledge cycle are dropped in IM 2",
    [(INT, "        if let Some(ws) = wait_states {\n            tsc.add_wait_states(pc, ws);\n        }\n        match self.im {", "        if let (Some(ws), InterruptMode::Mode0|InterruptMode::Mode1) = (wait_states, self.im) {\n            tsc.add_wait_states(pc, ws);\n        }\n        match self.im {")],
    '''
struct W(Bus);
impl Io for W {
    type Timestamp = i32;
    type WrIoBreak = ();
    type RetiBreak = ();
    fn is_irq(&mut self, _ts: i32) -> bool { true }
    fn irq_data(&mut self, _pc: u16, _ts: i32) -> (u8, Option<NonZeroU16>) { (0xFF, NonZeroU16::new(9)) }
}
impl Memory for W {
    type Timestamp = i32;
    fn read_debug(&self, addr: u16) -> u8 { self.0.mem[addr as usize] }
}
let mut bus = W(Bus::new(0, &[]));
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_im(InterruptMode::Mode2);
cpu.set_iffs(true, true);
cpu.irq(&mut bus, &mut clk, NODEB).unwrap().unwrap();
assert_eq!(clk.t, 19 + 9);
''')

bug("c10-ini-wait-address", "C10",
    "INI/IND/INIR/INDR from a device requesting wait states, on a clock that looks at the address",
    "the wait states are put on HL instead of the port address",
    [(INT, "        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));\n        if let Some(ws) = wait_states {\n            tsc.add_wait_states(bc, ws);\n        }\n        let hl = self.regs.hl.get16();",
           "        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));\n        let hl = self.regs.hl.get16();\n        if let Some(ws) = wait_states {\n            tsc.add_wait_states(hl, ws);\n        }")],
    '''
let mut bus = Bus::new(0, &[0xED, 0xA2]);
bus.io_wait = 3;
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_reg16(StkReg16::HL, 0x8000);
cpu.set_reg16(StkReg16::BC, 0x0210);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert!(clk.log.contains(&"wait 0210 3".to_string()));
''')

bug("c18-ld-i-changes-r7", "C18",
    "LD I,A (or set_i) after the 7-bit refresh counter has wrapped since R was last loaded",
    "bit 7 of R picks up the carry out of the refresh counter",
    [(Z80, "        self.ir.set8hi(i);", "        self.ir.set(i, self.r.0);")],
    '''
let mut bus = Bus::new(0, &[0; 4]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_r(0x7F);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_r(), 0);
cpu.set_i(0x12);
assert_eq!(cpu.get_r(), 0);
assert_eq!(cpu.get_i(), 0x12);
''')

bug("c06-nmi-after-halt-pushes-halt", "C06",
    "an NMI on a CPU halted with interrupts disabled",
    "the return address is moved past HALT only when IFF2 is set",
    [(INT, "        let mut pc = self.pc.get16();\n        if self.halt {\n            self.halt = false;\n            pc = pc.wrapping_add(1);\n        }\n        tsc.add_m1(pc);",
           "        let mut pc = self.pc.get16();\n        if self.halt {\n            self.halt = false;\n            pc = pc.wrapping_add(self.iff2 as u16);\n        }\n        tsc.add_m1(pc);")],
    '''
let mut bus = Bus::new(0x1000, &[0x76]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0x1000);
cpu.set_sp(0x9000);
let _ = step(&mut cpu, &mut bus, &mut clk);
assert!(cpu.nmi(&mut bus, &mut clk));
assert_eq!((bus.mem[0x8FFE], bus.mem[0x8FFF]), (0x01, 0x10));
''')

bug("c23-imm16-at-top-panics", "C23",
    "a 16-bit operand whose low byte lies at FFFFh",
    "the address of the high byte is computed without wrapping and overflows",
    [(INT, "let pc1 = pc.0.wrapping_add(1);", "let pc1 = pc.0 + 1;")],
    '''
let mut bus = Bus::new(0xFFFE, &[0x21, 0x34, 0x12]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_pc(0xFFFE);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_reg16(StkReg16::HL), 0x1234);
''')

bug("c22-cpi-memptr-page", "C22",
    "CPI/CPD or the end of CPIR/CPDR when the low byte of MEMPTR wraps",
    "only the low byte of MEMPTR is advanced",
    [(INT, "        // MEMPTR = MEMPTR +/- 1\n        self.memptr.add16(delta as u16);\n        None", "        // MEMPTR = MEMPTR +/- 1\n        let lo = self.memptr.get8lo().wrapping_add(delta as u8);\n        self.memptr.set8lo(lo);\n        None")],
    '''
let mut bus = Bus::new(0, &[0xED, 0xA1]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_memptr(0x12FF);
cpu.set_reg16(StkReg16::BC, 5);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_memptr(), 0x1300);
''')

bug("c11-disasm-halt-before-top", "C11",
    "disassembling memory with a HALT at FFFEh and an instruction at FFFFh",
    "the instruction at FFFFh following the HALT is skipped",
    [(DIS, "        else { // reset after halt\n            cpu.reset();\n        }", "        else { // reset after halt\n            cpu.reset();\n            cursor += (pc == 0xFFFF) as usize;\n        }")],
    '''
let mem = [0x76, 0x3C, 0x3D];
let mut v = vec![];
disasm::disasm_memory::<Z80NMOS, _, ()>(0xFFFE, &mem, |d| { v.push(d.pc); Ok(()) }).unwrap();
assert_eq!(v, [0xFFFE, 0xFFFF, 0]);
''')

bug("c04-debugger-stops-refresh-in-halt", "C04",
    "single stepping a halted CPU with a debugger attached",
    "R is not advanced by the NOPs of the HALT state when a debugger function is given",
    [(Z80, "            tsc.add_m1(self.pc.get16());\n            self.inc_r();\n            Ok(())", "            tsc.add_m1(self.pc.get16());\n            if debug.is_none() {\n                self.inc_r();\n            }\n            Ok(())")],
    '''
let mut bus = Bus::new(0, &[0x76]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
let _ = step(&mut cpu, &mut bus, &mut clk);
let r = cpu.get_r();
cpu.execute_next(&mut bus, &mut clk, Some(|_d: CpuDebug| {})).unwrap();
assert_eq!(cpu.get_r(), r + 1);
''')

bug("c09-reti-break-only-when-enabling", "C09",
    "RETI executed with IFF2 clear, on a host whose reti() asks for a break",
    "the break requested by reti() is dropped unless RETI re-enables interrupts",
    [(INS, "            if let Some(cause) = should_break {\n                break $main LoopExitReason::Reti(cause);", "            if let (Some(cause), true) = (should_break, $cpu.iff1) {\n                break $main LoopExitReason::Reti(cause);")],
    '''
let mut bus = Bus::new(0, &[0xED, 0x4D]);
bus.reti_break = true;
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
assert!(matches!(step(&mut cpu, &mut bus, &mut clk), Err(BreakCause::Reti(2))));
''')

# ---------------------------------------------------------------- C24, C25 and round 3
_EQ = """
impl<Q: Flavour> PartialEq for Z80<Q> {
    fn eq(&self, other: &Self) -> bool {
        self.af == other.af && self.af_alt == other.af_alt && self.regs == other.regs && self.regs_alt == other.regs_alt
        && self.index == other.index && self.pc == other.pc && self.sp == other.sp && self.ir == other.ir && self.r == other.r
        && self.iff1 == other.iff1 && self.iff2 == other.iff2 && self.im == other.im && self.halt == other.halt
        && self.last_ei == other.last_ei && %s && self.flavour == other.flavour
    }
}
impl<Q: Flavour> Eq for Z80<Q> {}

/// Returns `true` if the interrupt"""
def _eq(body):
    return [(Z80, "#[derive(Clone, Default, PartialEq, Eq)]\npub struct Z80", "#[derive(Clone, Default)]\npub struct Z80"),
            (Z80, "\n/// Returns `true` if the interrupt", _EQ % body)]
bug("c24-eq-skips-memptr", "C24",
    "comparing two CPUs which differ only in MEMPTR",
    "a hand-written PartialEq leaves MEMPTR out",
    _eq("self.prefix == other.prefix"),
    '''
let a = Z80NMOS::new();
let mut b = a.clone();
b.set_memptr(0x1234);
assert!(a != b);
''')
bug("c24-eq-any-prefix", "C24",
    "comparing a CPU after a DD prefix with the same CPU after an FD prefix",
    "a hand-written PartialEq compares only whether a prefix is pending",
    _eq("self.memptr == other.memptr && self.prefix.is_some() == other.prefix.is_some()"),
    '''
let mut bus = Bus::new(0, &[]);
let mut clk = Clk::default();
let (mut a, mut b) = (Z80NMOS::new(), Z80NMOS::new());
a.execute_instruction(&mut bus, &mut clk, NODEB, 0xDD).unwrap();
b.execute_instruction(&mut bus, &mut clk, NODEB, 0xFD).unwrap();
assert!(a != b);
''')
bug("c24-debug-ei-needs-iff1", "C24",
    "printing a CPU after EI whose IFF1 was cleared meanwhile through set_iffs",
    "the Debug output does not show the pending EI shadow",
    [("src/z80/debug.rs", '.field("ei", &self.last_ei)', '.field("ei", &(self.last_ei && self.iff1))')],
    '''
let mut cpu = Z80NMOS::new();
cpu.enable_interrupts();
cpu.set_iffs(false, false);
assert!(cpu.is_after_ei());
assert!(format!("{:?}", cpu).contains("ei: true"));
''')
bug("c24-clone-halted-forgets-history", "C24",
    "cloning a halted CPU whose last instruction before the HALT modified flags, or comparing it with the clone",
    "a hand-written Clone drops the flavour's memory of a halted CPU",
    [(Z80, "#[derive(Clone, Default, PartialEq, Eq)]\npub struct Z80", "#[derive(Default, PartialEq, Eq)]\npub struct Z80"),
     (Z80, "\n/// Returns `true` if the interrupt", """
impl<Q: Flavour> Clone for Z80<Q> {
    fn clone(&self) -> Self {
        Z80 {
            af: self.af, af_alt: self.af_alt, regs: self.regs, regs_alt: self.regs_alt, index: self.index,
            pc: self.pc, sp: self.sp, memptr: self.memptr, last_ei: self.last_ei, ir: self.ir, im: self.im,
            iff1: self.iff1, iff2: self.iff2, halt: self.halt, prefix: self.prefix, r: self.r,
            flavour: if self.halt { Q::default() } else { self.flavour }
        }
    }
}

/// Returns `true` if the interrupt""")],
    '''
let mut bus = Bus::new(0, &[0xB7, 0x76]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
step(&mut cpu, &mut bus, &mut clk).unwrap();
let _ = step(&mut cpu, &mut bus, &mut clk);
assert!(cpu.is_halt());
assert!(cpu == cpu.clone());
''')
_USER = '''
use z80emu::z80::{Flavour, NMOS};
use z80emu::z80::any::Z80Any;
#[derive(Clone, Copy, Default, PartialEq, Eq)]
struct My { n: u32, modified: bool }
impl Flavour for My {
    const CONSTANT_OUT_DATA: u8 = 0x5A;
    const ACCEPTING_INT_RESETS_IFF2_EARLY: bool = false;
    fn tag() -> &'static str { "MY" }
    fn memptr_mix(_msb: u8, lsb: u8) -> (u8, u8) { (0x77, lsb ^ 0xFF) }
    fn begin_instruction(&mut self) { self.modified = false; self.n += 1; }
    fn flags_modified(&mut self) { self.modified = true; }
    fn get_q(&self, acc: u8, _flags: CpuFlags) -> u8 { acc }
    fn cpu_into_any(_: Z80<Self>) -> Z80Any { unimplemented!() }
    fn unwrap_cpu_any(_: Z80Any) -> Z80<Self> { unimplemented!() }
    fn reset(&mut self) { self.n = 1000; }
}
'''
bug("c25-out-constant-all-or-nothing", "C25",
    "a flavour defined by the user whose CONSTANT_OUT_DATA is neither 00h nor FFh, executing OUT (C),(HL)",
    "the constant is reduced to 00h or FFh",
    [(INT, "                Q::CONSTANT_OUT_DATA\n", "                if Q::CONSTANT_OUT_DATA == 0 { 0 } else { u8::MAX }\n")],
    _USER + '''
let mut bus = Bus::new(0, &[0xED, 0x71]);
let mut clk = Clk::default();
let mut cpu = Z80::<My>::new();
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(bus.log, ["out 0000 5a"]);
''')
bug("c25-memptr-low-byte-fixed", "C25",
    "a flavour defined by the user whose memptr_mix does not return lsb + 1, executing LD (nn),A",
    "only the high byte returned by memptr_mix is used",
    [(INT, "self.memptr = Q::memptr_mix(a, addr as u8).into();", "let (hi, _) = Q::memptr_mix(a, addr as u8);\n        self.memptr = (hi, (addr as u8).wrapping_add(1)).into();")],
    _USER + '''
let mut bus = Bus::new(0, &[0x32, 0x34, 0x12]);
let mut clk = Clk::default();
let mut cpu = Z80::<My>::new();
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_memptr(), 0x77CB);
''')
bug("c25-indexed-bit-not-reported", "C25",
    "BIT n,(IX+d)|(IY+d) on a flavour that tracks flag changes (SCF/CCF directly after it on NMOS and BM1)",
    "flags_modified is not called for the indexed BIT",
    [(INT, "                ops::bit_mp(b, val, (ii_d >> 8) as u8, flags);\n                self.flavour.flags_modified();\n", "                ops::bit_mp(b, val, (ii_d >> 8) as u8, flags);\n")],
    _USER + '''
let mut bus = Bus::new(0, &[0xDD, 0xCB, 0x00, 0x46]);
let mut clk = Clk::default();
let mut cpu = Z80::<My>::new();
step(&mut cpu, &mut bus, &mut clk).unwrap(); // the prefix
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert!(cpu.flavour.modified);
''')
bug("c25-reset-bypasses-flavour", "C25",
    "a flavour defined by the user with its own reset(), and Cpu::reset",
    "reset() assigns the default flavour instead of calling Flavour::reset",
    [(Z80, "        self.flavour.reset();\n", "        self.flavour = Q::default();\n")],
    _USER + '''
let cpu = Z80::<My>::new();
assert_eq!(cpu.flavour.n, 1000);
''')
bug("c16-any-into-bm1-through-cmos", "C16",
    "Z80Any::into_bm1 directly after an instruction that changed flags, with SCF/CCF next",
    "the conversion goes through CMOS and loses the flavour's memory",
    [(ANY, "Z80Any::BM1(cpu.into_flavour())", "Z80Any::BM1(cpu.into_flavour::<CMOS>().into_flavour())")],
    '''
let mut bus = Bus::new(0, &[0xAF]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
step(&mut cpu, &mut bus, &mut clk).unwrap();
let any = Z80Any::NMOS(cpu.clone()).into_bm1();
assert_eq!(any, Z80Any::BM1(cpu.into_flavour()));
''')
bug("c14-dollars-trimmed", "C14",
    "a document with a malformed hexadecimal register pair like \"$$12\"",
    "all leading dollar signs are dropped instead of one, so the malformed text is accepted",
    [(REG, "        let body = if let Some(rest) = s.strip_prefix('$') {\n            rest\n        }", "        let body = if s.starts_with('$') {\n            s.trim_start_matches('$')\n        }")],
    '''
assert!(serde_json::from_str::<RegisterPair>("\\"$12\\"").is_ok());
assert!(serde_json::from_str::<RegisterPair>("\\"$$12\\"").is_err());
''')
bug("c02-halted-run-next-address", "C02",
    "a halted CPU idled by execute_with_limit on a clock whose contention depends on the address",
    "the idle M1 cycles of a run are issued for the address after the HALT, those of single steps are not",
    [(Z80, "                tsc.add_m1(pc);\n                self.inc_r();\n            }", "                tsc.add_m1(pc.wrapping_add(1));\n                self.inc_r();\n            }")],
    '''
let mut bus = Bus::new(0, &[0x76]);
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
let _ = step(&mut cpu, &mut bus, &mut clk);
clk.log.clear();
cpu.execute_with_limit(&mut bus, &mut clk, 12).unwrap();
assert_eq!(clk.log, ["m1 0000", "m1 0000"]);
''')
bug("c10-out-break-drops-waits", "C10",
    "OUT (n),A whose host asks for a break and for wait states at once",
    "the wait states are not added when a break is requested",
    [(INT, "        let port = u16::from_le_bytes([n, a]);\n        let (should_break, wait_states) = control.write_io(port, a, tsc.add_io(port));\n        if let Some(ws) = wait_states {", "        let port = u16::from_le_bytes([n, a]);\n        let (should_break, wait_states) = control.write_io(port, a, tsc.add_io(port));\n        if let (None, Some(ws)) = (&should_break, wait_states) {")],
    '''
let mut bus = Bus::new(0, &[0xD3, 0xFE]);
bus.out_break = true;
bus.io_wait = 100;
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
let _ = step(&mut cpu, &mut bus, &mut clk);
assert_eq!(clk.t, 111);
''')
bug("c05-im1-honours-rst-vector", "C05",
    "interrupt mode 1 with F7h on the data bus",
    "an RST 30h supplied by the device is executed although the mode is 1",
    [(INT, "self.execute_instruction::<M,T,F>(control, tsc, debug, opconsts::RST_38H_OPCODE)", "self.execute_instruction::<M,T,F>(control, tsc, debug, if vector & 0xF7 == 0xF7 { vector } else { opconsts::RST_38H_OPCODE })")],
    '''
let mut bus = Bus::new(0, &[0]);
bus.irq = true;
bus.vec = 0xF7;
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_iffs(true, true);
cpu.set_im(InterruptMode::Mode1);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_pc(), 0x38);
''')
bug("c04-im2-vector-ff-unreported", "C04",
    "an interrupt in mode 2 with FFh on the data bus, single stepped with a debugger",
    "the debugger is not told about the jump",
    [(INT, "                self.pc.set16(vaddr);\n                self.execute_instruction::<M,T,F>(control, tsc, debug, opconsts::JP_OPCODE)", "                self.pc.set16(vaddr);\n                self.execute_instruction::<M,T,F>(control, tsc, debug.filter(|_| vector != u8::MAX), opconsts::JP_OPCODE)")],
    '''
let mut bus = Bus::new(0, &[0]);
bus.irq = true;
let mut clk = Clk::default();
let mut cpu = Z80NMOS::new();
cpu.set_iffs(true, true);
cpu.set_im(InterruptMode::Mode2);
let mut n = 0;
cpu.execute_next(&mut bus, &mut clk, Some(|_d: CpuDebug| n += 1)).unwrap();
assert_eq!(n, 1);
''')
bug("c11-once-looks-at-eight-bytes", "C11",
    "disasm_memory_once on eight or more prefix bytes followed by an instruction",
    "only the first eight bytes of the slice are looked at",
    [(DIS, "let _ = disasm_memory::<C,_,_>(pc, memory, |deb| {\n        dbg", "let _ = disasm_memory::<C,_,_>(pc, &memory[..memory.len().min(8)], |deb| {\n        dbg")],
    '''
let mem = [0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xFD, 0x21, 0x34, 0x12];
assert!(disasm::disasm_memory_once::<Z80NMOS>(0, &mem).is_some());
''')
bug("c20-default-opcode-via-read-mem", "C20",
    "a host implementing read_mem (mapped I/O, watch points) and read_debug but relying on the default read_opcode",
    "the default read_opcode goes through read_mem instead of read_debug",
    [(HOST, "    fn read_opcode(&mut self, pc: u16, ir: u16, ts: Self::Timestamp) -> u8 {\n        self.read_debug(pc)", "    fn read_opcode(&mut self, pc: u16, ir: u16, ts: Self::Timestamp) -> u8 {\n        self.read_mem(pc, ts)")],
    '''
struct H;
impl Memory for H {
    type Timestamp = i32;
    fn read_mem(&self, _: u16, _: i32) -> u8 { 1 }
    fn read_debug(&self, _: u16) -> u8 { 2 }
}
assert_eq!(H.read_opcode(0, 0, 0), 2);
''')

# ---------------------------------------------------------------- C26
bug("c26-debug-assert-has-effect", "C26",
    "a build without debug assertions, and an NMI accepted while IFF1 is set",
    "IFF1 is cleared inside of a debug assertion, so that optimised builds keep maskable interrupts enabled in the NMI routine",
    [(INT, "        self.last_ei = false;\n        self.iff1 = false;\n        self.inc_r();\n        let mut pc = self.pc.get16();\n        if self.halt {\n            self.halt = false;\n            pc = pc.wrapping_add(1);\n        }\n        tsc.add_m1(pc); // pc:4",
      "        self.last_ei = false;\n        debug_assert!(core::mem::take(&mut self.iff1) || !self.iff1);\n        self.inc_r();\n        let mut pc = self.pc.get16();\n        if self.halt {\n            self.halt = false;\n            pc = pc.wrapping_add(1);\n        }\n        tsc.add_m1(pc); // pc:4")],
    '''
let mut bus = Bus::new(0, &[0x00]);
let mut clk = Clk::default();
let mut cpu = Z80::<z80emu::z80::NMOS>::new();
cpu.set_iffs(true, true);
cpu.set_sp(0x8000);
assert!(cpu.nmi(&mut bus, &mut clk));
assert_eq!(cpu.get_iffs(), (false, true));
''', run="cargo run --release --offline --quiet")
bug("c26-no-std-wait-states-truncated", "C26",
    "the crate built without the feature std, and a TsCounter delayed by 256 or more wait states at once",
    "only the low byte of the wait states is added in builds without std",
    [(HOST, "#[cfg(feature = \"std\")] use std::error;", "#[cfg(feature = \"std\")] use std::error;\n\n#[cfg(feature = \"std\")]\ntype Waits = u16;\n#[cfg(not(feature = \"std\"))]\ntype Waits = u8;"),
     (HOST, "Wrapping(wait_states.get().into())", "Wrapping((wait_states.get() as Waits as u16).into())")],
    '''
use z80emu::host::TsCounter;
use z80emu::Clock;
let mut c = TsCounter::<u32>::default();
c.add_wait_states(0, core::num::NonZeroU16::new(0x123).unwrap());
assert_eq!(c.as_timestamp(), 0x123);
''', run="sed -i 's|^z80emu = .*|z80emu = { path = \"'\"$repo\"'\", default-features = false }|' Cargo.toml; CARGO_TARGET_DIR=\"$tmp/target\" cargo run --offline --quiet")
bug("c26-pointer-beyond-its-byte", "C26",
    "an instruction writing to the high half of a register pair through a pointer (LD B,n and the like), executed under a checker of pointer provenance",
    "the pointer to the high byte is derived from a shared reference to the low byte only: undefined behaviour",
    [(REG, "unsafe { self.0.as_mut_ptr().offset(1) }", "unsafe { (&self.0[0] as *const u8 as *mut u8).offset(1) }")],
    '''
let mut bus = Bus::new(0, &[0x06, 0x12]);
let mut clk = Clk::default();
let mut cpu = Z80::<z80emu::z80::NMOS>::new();
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_reg(z80emu::Reg8::B, None), 0x12);
''', run="cargo +nightly miri run --offline --quiet")
bug("c26-memptr-addition-checked", "C26",
    "LD A,(nn) and similar with nn = FFFFh in a build with overflow checks",
    "MEMPTR = nn + 1 is computed with an addition that overflows: a debug build panics, an optimised one does not",
    [(INT, "self.memptr.set16(rp16.wrapping_add(1));", "self.memptr.set16(rp16 + 1);")],
    '''
let mut bus = Bus::new(0, &[0x0A]);
let mut clk = Clk::default();
let mut cpu = Z80::<z80emu::z80::NMOS>::new();
cpu.set_reg16(z80emu::StkReg16::BC, 0xFFFF);
step(&mut cpu, &mut bus, &mut clk).unwrap();
assert_eq!(cpu.get_memptr(), 0);
''')
