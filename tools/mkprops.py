"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))
S = "src/sentinel/"
ARCH = [("pc", "address of the current instruction", S + "datapath.py ProgramCounter"),
        ("register file RAM", "x0-x31 in words 0-31, block-RAM CSRs in words 32-63", S + "datapath.py RegFile"),
        ("mstatus/mie", "MIE, MPIE, MEIE flip-flops", S + "datapath.py CSRFile")]
OBS = ["register file contents, pc and CSRs when the next instruction fetch is acknowledged", "Wishbone bus"]

p("C01", "Integer ALU, LUI and AUIPC instructions compute the RV32I result",
  "For ADDI/SLTI/SLTIU/XORI/ORI/ANDI, ADD/SUB/SLT/SLTU/XOR/OR/AND, LUI and AUIPC with any operands, immediates, "
  "register numbers and PC, when no interrupt is taken the destination register receives exactly the RV32I result "
  "and execution continues at PC+4. This holds for every previous instruction, every bus wait-state pattern, and "
  "every aliasing of rs1, rs2, rd and the register just written by the previous instruction.",
  ["inputs", "histories", "schedules"],
  "all 2^32 values of every operand, immediates, register aliasing, preceding instruction state, wait states",
  "tests/sim and the upstream binaries run a few hundred fixed operand values with a zero/fixed wait-state memory; "
  "they cannot reach all operand pairs, aliasings and hand-over states between consecutive instructions.",
  [S + "alu.py", S + "decode.py", S + "microcode.asm", S + "control.py", S + "datapath.py", S + "top.py"],
  [("ALU operation and input/output modifiers", S + "alu.py ALU.elaborate"),
   ("operand latches", S + "alu.py ASrcMux/BSrcMux"),
   ("immediate generation", S + "decode.py ImmediateGenerator"),
   ("opcode to microcode address map", S + "control.py MappingROM"),
   ("microroutines addi..sub, lui, auipc, fast_epilog", S + "microcode.asm")], ARCH, OBS)
p("C02", "Shift instructions compute the RV32I result for every shift amount",
  "SLL, SRL, SRA, SLLI, SRLI and SRAI write to rd the RV32I shift of rs1 by the low five bits of rs2 or of the "
  "immediate, for every amount 0..31, every value and every register aliasing, and continue at PC+4. No other "
  "register holds an intermediate value when the instruction completes.",
  ["inputs", "histories", "schedules"],
  "all operands, all 32 shift amounts, all register aliasings (rd = rs1, rd = rs2, x0), wait states",
  "shifts run as a data-dependent microcode loop; tests sample some amount/value/aliasing triples only.",
  [S + "microcode.asm", S + "alu.py", S + "decode.py"],
  [("sll_loop/srl_loop/sra_loop/shift_zero", S + "microcode.asm"),
   ("single-bit shifters", S + "alu.py ALU"),
   ("latched operand muxes", S + "alu.py ASrcMux/BSrcMux")], ARCH, OBS)
p("C03", "Branches, JAL and JALR choose the right target, link and alignment trap",
  "Each conditional branch is taken exactly when its RV32I comparison holds; taken branches, JAL and JALR continue at "
  "the RV32I target (JALR with bit 0 cleared) and untaken branches at PC+4; JAL/JALR write PC+4 to rd, and branches "
  "write no register. If the target of a taken transfer is not 4-byte aligned, the instruction instead raises "
  "instruction-address-misaligned (cause 0) with mepc equal to its own PC, and rd is not written.",
  ["inputs", "histories", "schedules"],
  "all operands, offsets, PCs (including wrap-around), register aliasing (JALR with rd = rs1), wait states",
  "tests use fixed code at small addresses with few offsets; no test covers all comparisons, wrap-around or misaligned targets.",
  [S + "microcode.asm", S + "alu.py", S + "decode.py", S + "exception.py", S + "datapath.py"],
  [("branch_epilog/taken/not_taken, jal, jalr", S + "microcode.asm"),
   ("LATCH_JAL target alignment check", S + "exception.py ExceptionRouter"),
   ("PC update", S + "datapath.py ProgramCounter"),
   ("B/J/I immediates", S + "decode.py ImmediateGenerator")], ARCH, OBS)
p("C04", "Loads read the addressed bytes and extend them correctly",
  "An aligned LB/LBU/LH/LHU/LW performs exactly one read transaction, at the word containing rs1+imm with the byte "
  "lanes of the addressed bytes selected, writes those bytes (sign- or zero-extended) to rd and continues at PC+4. A "
  "misaligned LH/LHU/LW performs no data transaction, leaves rd unchanged and raises load-address-misaligned "
  "(cause 4) with mepc equal to its own PC.",
  ["inputs", "histories", "schedules"],
  "all addresses, offsets, read data, register aliasing and wait-state patterns",
  "tests load from a handful of addresses with fixed data and latency.",
  [S + "align.py", S + "alu.py", S + "microcode.asm", S + "exception.py", S + "top.py"],
  [("read data alignment and extension", S + "align.py ReadDataAlign"),
   ("address and byte select", S + "align.py AddressAlign"),
   ("lb..lhu routines", S + "microcode.asm"),
   ("LATCH_LOAD_ADR", S + "exception.py ExceptionRouter")], ARCH, OBS)
p("C05", "Stores write exactly the addressed bytes, once",
  "An aligned SB/SH/SW performs exactly one write transaction, at the word containing rs1+imm, whose selected byte "
  "lanes are exactly the addressed bytes and carry the low bytes of rs2; it writes no register and continues at PC+4. "
  "A misaligned SH/SW performs no data transaction and raises store-address-misaligned (cause 6) with mepc equal to "
  "its own PC.",
  ["inputs", "histories", "schedules"],
  "all addresses, offsets, store data, register aliasing and wait-state patterns",
  "tests store a handful of values to fixed addresses with fixed latency.",
  [S + "align.py", S + "microcode.asm", S + "exception.py", S + "top.py"],
  [("write data alignment", S + "align.py WriteDataAlign"),
   ("address and byte select", S + "align.py AddressAlign"),
   ("sb/sh/sw routines", S + "microcode.asm"),
   ("LATCH_STORE_ADR", S + "exception.py ExceptionRouter")], ARCH, OBS)
p("C06", "x0 stays zero and no instruction disturbs state it does not own",
  "After any instruction word, legal or not, with or without a trap or interrupt, x0 reads as zero, every "
  "general-purpose register other than the instruction's rd is unchanged, and rd is unchanged if the instruction traps. "
  "Instructions other than CSR instructions, MRET and traps change no CSR, and a CSR instruction changes no CSR but the one it addresses.",
  ["inputs", "programs", "histories", "schedules"],
  "all 2^32 instruction words, all register contents, a symbolic register index, all interrupt and wait-state timings",
  "x0 is an ordinary RAM word and CSRs share the RAM with x1-x31; tests only compare a few registers after a few programs.",
  [S + "datapath.py", S + "top.py", S + "microcode.asm", S + "control.py"],
  [("x0 write suppression and allow_zero_wr", S + "datapath.py RegFile"),
   ("register address routing", S + "top.py Top.elaborate"),
   ("WRITE_RD / csr_op in every routine", S + "microcode.asm")], ARCH, OBS)
p("C07", "CSR instructions read, set, clear and write CSRs with WARL masking",
  "CSRRW/CSRRS/CSRRC and their immediate forms on mstatus, mie, mtvec, mscratch, mepc, mcause and mip return the old "
  "architectural value in rd and leave the CSR with the old value written, set or cleared by the operand, restricted to "
  "its implemented bits (mstatus MIE/MPIE with MPP reading 3, mie MEIE, mtvec and mepc with low two bits zero, mip "
  "ignoring writes and reading the interrupt line in bit 11). CSRRS/CSRRC with rs1=x0 or a zero immediate do not write, "
  "read-only-zero CSRs read zero, and execution continues at PC+4.",
  ["inputs", "histories", "schedules"],
  "all CSR values, operand values, register aliasing (rd = rs1, rd = x0), all six operations, interrupt line activity",
  "csr tests write a few constants; mstatus, mie and mip are split between flip-flops and RAM shadows, which only "
  "some value/sequence combinations reveal.",
  [S + "datapath.py", S + "csr.py", S + "microcode.asm", S + "control.py", S + "decode.py"],
  [("CSR flip-flops, read buffer and RAM preemption", S + "datapath.py CSRFile"),
   ("csr* routines", S + "microcode.asm"),
   ("second decode step choosing the CSR routine", S + "control.py MappingROM"),
   ("CSR address squashing", S + "control.py MappingROM.csr_encoding")], ARCH, OBS)
p("C08", "Exactly the documented CSR addresses and accesses are legal",
  "For every 12-bit CSR address and every CSR operation, the instruction raises illegal-instruction exactly when the "
  "address is not an implemented or read-only-zero machine CSR, or when it would write a CSR in the read-only address "
  "space; writes to read-only-zero CSRs outside that space are ignored without a trap. A trapping CSR access changes "
  "neither rd nor any addressed CSR.",
  ["inputs", "histories"],
  "all 4096 CSR addresses x 6 operations x rs1/uimm zero or not",
  "the address table is 1024 entries with two address bits stripped; tests touch about a dozen addresses.",
  [S + "decode.py", S + "csr.py", S + "control.py", S + "microcode.asm"],
  [("CSR attribute table", S + "decode.py CSRAttributes"),
   ("second-cycle CSR legality check", S + "decode.py ExceptionControl"),
   ("csr_trampoline", S + "microcode.asm")], ARCH, OBS)
p("C09", "Every 32-bit word decodes to its RV32I_Zicsr meaning or traps as illegal",
  "Every 32-bit word that is not a defined RV32I, Zicsr, MRET or WFI encoding raises illegal-instruction (cause 2), and "
  "every defined encoding does not. ECALL raises cause 11 and EBREAK cause 3, each only for its exact encoding, and "
  "FENCE and WFI complete as no-ops at PC+4.",
  ["inputs"],
  "all 2^32 instruction words, for every preceding decoder state",
  "the illegal-instruction test runs a handful of words out of 2^32.",
  [S + "decode.py", S + "insn.py", S + "exception.py", S + "control.py"],
  [("decode legality checks", S + "decode.py ExceptionControl"),
   ("instruction field and special encodings", S + "insn.py Insn"),
   ("dispatch", S + "control.py MappingROM")], ARCH, OBS)
p("C10", "Trap entry saves the precise state and enters the handler",
  "Whenever an instruction raises a synchronous exception, mepc holds that instruction's PC, mcause holds exactly the "
  "exception code with the interrupt bit clear, MPIE takes the old MIE and MIE becomes 0, and the next fetch is at mtvec. "
  "All other registers and CSRs are unchanged and the instruction starts no data transaction, whatever traps or "
  "interrupts were taken before.",
  ["inputs", "histories", "schedules"],
  "all trapping instructions, all CSR values, all earlier trap/interrupt histories, wait states",
  "tests take one or two traps from reset; stale state left by earlier traps or interrupts is not explored.",
  [S + "exception.py", S + "microcode.asm", S + "datapath.py", S + "decode.py"],
  [("exception detection and cause latch", S + "exception.py ExceptionRouter"),
   ("save_pc handler", S + "microcode.asm"),
   ("ENTER_INT mstatus stacking", S + "datapath.py CSRFile")], ARCH, OBS)
p("C11", "External interrupts are taken exactly when enabled and pending, precisely",
  "If MIE and MEIE are set and the interrupt line is high from the cycle in which an instruction is dispatched (the one after its fetch is acknowledged) until it completes, that instruction has no effect "
  "and the CPU enters the handler at mtvec with mepc equal to its PC, mcause 0x8000000B, MPIE set and MIE clear. If "
  "either enable is clear or the line stays low, no interrupt is taken, and a line that changes mid-instruction never "
  "yields a partially executed instruction.",
  ["schedules", "inputs", "histories"],
  "all interrupt line waveforms, all instruction words, all enables, wait states",
  "tests raise the line at a few fixed cycles of one program.",
  [S + "exception.py", S + "datapath.py", S + "microcode.asm", S + "top.py"],
  [("interrupt qualification", S + "exception.py ExceptionRouter"),
   ("pending bit sampling", S + "datapath.py CSRFile"),
   ("check_int and csr_trampoline", S + "microcode.asm")], ARCH, OBS)
p("C12", "MRET returns to mepc and unstacks the interrupt enable",
  "MRET continues at mepc, sets MIE to the old MPIE and MPIE to 1, and changes nothing else. An "
  "interrupt that is enabled only by the restored MIE is taken no earlier than at the returned-to instruction.",
  ["inputs", "histories", "schedules"],
  "all mepc/mstatus values, interrupt line waveforms, wait states",
  "tests return from one handler with one mstatus value.",
  [S + "microcode.asm", S + "datapath.py", S + "control.py"],
  [("mret routine", S + "microcode.asm"), ("LEAVE_INT", S + "datapath.py CSRFile")], ARCH, OBS)
p("C13", "The bus master obeys Wishbone Classic single-transfer rules",
  "Once CYC and STB rise they stay high with address, select, write-enable and (for writes) data stable until ACK, for any number "
  "of wait states, and both are low in the cycle after ACK. STB is never high without CYC, instruction fetches are full-word "
  "reads at the program counter, and every write transaction belongs to an executing store.",
  ["schedules", "inputs", "programs"],
  "all instruction words and sequences, all wait-state patterns of at least one cycle, all data",
  "simulation memories answer after one fixed cycle, so stability over wait states is never exercised.",
  [S + "top.py", S + "align.py", S + "microcode.asm"],
  [("bus drive", S + "top.py Top.elaborate"),
   ("address/select muxing", S + "align.py AddressAlign"),
   ("*_wait loops, fetch, fast_epilog", S + "microcode.asm")], (), ["Wishbone bus"])
p("C14", "Reset from any state yields the documented initial state",
  "After reset is asserted for at least one cycle in any state whatsoever and released, no bus request appears "
  "before an instruction fetch at address 0, and no write is ever issued before it. When the first instruction "
  "executes, x0 is 0, the PC is 0, MIE, MEIE and mcause are 0, and the control state is the same as after "
  "power-on. MPIE is left unspecified, as the privileged architecture allows.",
  ["crash_points", "histories"],
  "reset asserted at every point of every instruction: arbitrary flip-flop, RAM and read-latch contents, any bus activity, reset lengths up to the bound",
  "the reset test asserts reset in a few cycles of one program; the ROM read latch is not reset, so the state at reset matters.",
  [S + "top.py", S + "control.py", S + "microcode.asm", S + "datapath.py"],
  [("mem_reset_guard", S + "top.py"), ("ice40_rst_guard and next_adr reset", S + "control.py Sequencer"),
   ("reset routine", S + "microcode.asm")], ARCH, OBS)
p("C15", "Every instruction completes: no reachable microcode state hangs",
  "From every state between instructions, for every fetched word, if the bus acknowledges each request then the CPU "
  "issues the next instruction fetch after a bounded number of clock cycles. The microprogram never reaches the halt or panic "
  "addresses, an unused microcode address or a loop without a bus request.",
  ["programs", "inputs", "schedules", "histories"],
  "all 2^32 words, all operands (including shift loops), all interrupt timings",
  "absence of hangs over all words and states cannot be sampled.",
  [S + "microcode.asm", S + "control.py"],
  [("microprogram control flow", S + "microcode.asm"), ("next address selection", S + "control.py Sequencer"),
   ("entry address map", S + "control.py MappingROM")], (), ["Wishbone bus", "microcode address"])
p("C16", "Instructions take exactly the documented number of clock cycles",
  "With the fastest permitted bus (acknowledge in the second cycle of each request) every instruction's time from fetch acknowledge to the next fetch "
  "acknowledge equals the documented count for its class and, for shifts, its amount. Apart from the shift amount and branch "
  "direction, the count does not depend on operand values, and each wait state adds exactly one cycle.",
  ["inputs", "histories"],
  "all operands and preceding instructions, all instruction classes in the documented table",
  "the documentation itself has a todo asking for such a test.",
  [S + "microcode.asm", "doc/development/internals.md"],
  [("routine lengths", S + "microcode.asm"), ("documented counts", "doc/development/internals.md Instruction Cycle Counts")],
  (), ["Wishbone bus"])
p("C17", "The RVFI wrapper does not change CPU behaviour",
  "For every input sequence, the bus outputs and the architectural state of the CPU inside the RVFI wrapper equal those of "
  "the plain CPU given the same inputs, cycle by cycle. Verification results obtained through the wrapper therefore apply to the shipped core.",
  ["inputs", "histories", "schedules"],
  "arbitrary common state and inputs; one inductive step",
  "no test compares the two configurations.",
  [S + "formal.py", S + "top.py", S + "decode.py", S + "datapath.py"],
  [("FormalTop wiring and extra read ports", S + "formal.py FormalTop.elaborate"),
   ("formal flag plumbing", S + "top.py")], (), ["bus", "register file", "pc"])
p("C18", "The RVFI port reports each retired instruction faithfully",
  "For every instruction, exactly one RVFI retirement is reported, in order, with its actual instruction word, PC, next PC, "
  "source register numbers and values, destination number and value (both zero for x0, for non-writing instructions and for instructions that trap), memory access, and trap flag. "
  "The reported values equal the architectural effects the core really had. An interrupt that is taken is reported as one trapping "
  "retirement with no register or memory effect, and the next retirement (the handler's first instruction) is marked as interrupt entry.",
  ["inputs", "histories", "schedules"],
  "all instruction words, operands, wait states, interrupt enables and IRQ levels",
  "riscv-formal (not runnable here) checks the port against the ISA; the repository's tests do not check the port at all.",
  [S + "formal.py", S + "decode.py", S + "top.py"],
  [("commit detection and latching", S + "formal.py FormalTop.elaborate"),
   ("decoder taps", S + "decode.py Decode.rvfi")], (), ["rvfi port"])
p("C19", "The microcode layout generator places every field where the assembler put it",
  "For every list of microcode field definitions (any count, widths, origins, gaps and enumerations within the bounds), the generated "
  "layout gives each field exactly the bit offset and width it was defined with and a total size equal to the end of the last field, "
  "and a mismatch with the declared fields is reported as the documented error, never as a silently wrong layout.",
  ["inputs", "configurations"],
  "all field lists of up to the stated number of fields, with symbolic origins and widths",
  "the unit test fixes three or four example layouts.",
  [S + "ucoderom.py", S + "ucodefields.py"],
  [("field layout construction", S + "ucoderom.py UCodeROM._create_field_layout"),
   ("enum validation", S + "ucoderom.py UCodeROM"),
   ("ROM word to signal mapping", S + "ucoderom.py UCodeROM.elaborate")], (), ["UCodeROM.fields"])
p("C20", "Alternative operand routing component matches the CPU's built-in routing",
  "For every microcode routing selection and every decoded operand field, the stand-alone register/CSR address "
  "multiplexer drives the same register read address, register write address, x0-write permission and CSR address as the "
  "routing built into the CPU top level. Either can therefore replace the other.",
  ["inputs"],
  "all selector values and all operand fields",
  "the stand-alone component is not instantiated by any test.",
  [S + "datapath.py", S + "top.py"],
  [("DataPathSrcMux", S + "datapath.py DataPathSrcMux"), ("inline routing", S + "top.py Top.elaborate")], (), ["datapath addresses"])
p("C21", "The RVFI CSR ports report the CSR values before and after each instruction",
  "When an instruction retires on the RVFI port, the read data of the mscratch, mcause, mtvec, mepc, mie and mstatus ports is the value "
  "that CSR held when the instruction started, and whenever the instruction (or the trap or MRET it performs) writes that CSR, the write data "
  "equals the CSR's new value in its implemented bits, for interrupts as well. Ports of read-only-zero CSRs always read zero, and for an "
  "instruction that writes one of them their write data under the write mask is the value it tried to write; mip reads zero outside MEIP.",
  ["inputs", "histories", "schedules"],
  "all instruction words, operands, wait states, interrupt enables and IRQ levels",
  "the repository's tests do not observe the CSR ports; riscv-formal only looks at CSR instructions with a matching address.",
  [S + "formal.py", S + "datapath.py"],
  [("read-data hold and write-data capture", S + "formal.py FormalTop.elaborate")], (), ["rvfi.csr ports"])
X = "examples/"
p("C22", "Example SoC memory and GPIO: every transfer acts once, on the addressed bytes",
  "In the example SoC (examples/attosoc.py) a Wishbone peripheral acknowledges every requested transfer exactly once, in the cycle after it "
  "was requested. A memory write changes the selected bytes of the addressed word and nothing else, a read returns the word last written, "
  "and an idle bus changes nothing. The LED, GPIO output and output-enable registers change only when written, over Wishbone and as CSR registers "
  "alike, and a GPIO read returns the pins. A firmware image is placed little-endian, byte for byte, from address 0.",
  ["inputs", "histories"],
  "all addresses, data, byte selects, prior memory contents and register states; firmware bytes arbitrary",
  "the repository's tests never instantiate these peripherals with partial selects or arbitrary histories (amaranth_soc is needed).",
  [X + "attosoc.py"],
  [("write enables and acknowledge", X + "attosoc.py WBMemory.elaborate"), ("register decode", X + "attosoc.py WBLeds/CSRLeds.elaborate"),
   ("image packing", X + "attosoc.py AttoSoC.rom")], [("memory", "words of the RAM", X + "attosoc.py WBMemory.mem")],
  ["Wishbone bus of the peripheral", "leds and gpio pins"])
p("C23", "Example SoC: no timer tick, received byte or serial event is ever lost",
  "The example SoC's timer raises its interrupt every 16384 cycles whatever the bus does, and a raised interrupt is only withdrawn by a read that "
  "returned it or by the counter wrapping. A serial event (byte received, transmitter idle) that occurs at any time, even during a read, stays "
  "pending until a read of the interrupt register has returned it, and is returned once. A received byte stays unchanged until a read has returned it; "
  "a written byte is handed to the transmitter exactly once. After reset the Wishbone serial port has an interrupt pending and the CSR one has not.",
  ["inputs", "schedules", "histories"],
  "every alignment of bus reads and writes with ticks and serial events, every register state, both bus variants",
  "the races are one cycle wide in thousands; no repository test drives these peripherals at all.",
  [X + "attosoc.py"],
  [("read-to-clear", X + "attosoc.py WBTimer/CSRTimer.elaborate"), ("event flags", X + "attosoc.py WBSerial/CSRSerial.elaborate")],
  [("prescaler", "15-bit counter, bit 14 is the interrupt", X + "attosoc.py WBTimer"), ("rx_rdy_irq/tx_ack_irq", "pending events", X + "attosoc.py WBSerial")],
  ["irq lines", "values returned by bus reads"])
p("C24", "Example UART sends and receives 8N1 frames intact for every byte",
  "The example UART transmits a start bit, eight data bits least significant first and a stop bit, each for exactly the divisor's number of cycles, and "
  "keeps the line high otherwise, whatever is offered while it is busy. It receives every byte from a sender whose bit time is within about 4 percent, also back to "
  "back, reports a missing stop bit as an error, and on overrun keeps the unread byte and raises the overrun flag. A byte written to the serial "
  "peripheral with its line looped back is read back unchanged, with both interrupts.",
  ["inputs", "schedules"],
  "all bytes (pairs of bytes), several divisors from the minimum to the board's, gaps between frames, noise in the outer quarters of data bits",
  "no repository test instantiates the UART.",
  [X + "attosoc.py"],
  [("shift registers and phase counters", X + "attosoc.py UART.elaborate")], [("tx_shreg/rx_shreg", "frame being sent or received", X + "attosoc.py UART")],
  ["serial lines", "UART data and status outputs"])
p("C25", "Bus outputs depend on state alone: no input changes them within a clock cycle",
  "In every cycle and every state of the CPU, the values it drives on CYC, STB, WE, SEL, ADR and DAT_W are fixed by what it has stored at the start of "
  "that cycle. No level of ACK, DAT_R, IRQ or reset in the same cycle changes any of them, so a slave, decoder or interrupt controller may answer "
  "combinationally without forming a loop.",
  ["inputs", "histories"],
  "all states and all pairs of input levels within one cycle",
  "a simulation drives each input once per cycle and never sees what another level would have done in that same cycle.",
  [S + "top.py", S + "align.py", S + "control.py"],
  [("bus connections", S + "top.py Top.elaborate"), ("address and select", S + "align.py AddressAlign.elaborate"),
   ("request flags from the microcode word", S + "control.py Control.elaborate")],
  [("data_adr/write_data", "registered address and write data", S + "top.py Top.elaborate")], ["Wishbone bus"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
