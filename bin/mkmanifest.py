#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CHECKS = [
 ("C01", T + "seeded interleavings of real library calls in simulated threads, bitwise comparison with isolated runs",
  "real instrumented code, preemption at every memory access, atomic, basic block and libm call; sequentially consistent interleavings, seeded search"),
 ("C02", T + "seeded signal re-entry, abandonment, stalls and forks inside real library calls, bitwise comparison with isolated runs",
  "faults fire at seeded steps (instrumented memory accesses, basic blocks, libm calls); seeded search"),
 ("C03", T + "seeded call histories with randomised ambient state, bitwise comparison with isolated runs",
  "stack, registers, heap, errno, flags, environment, clock and entropy are randomised before calls; seeded search"),
 ("C04", T + "seeded concurrent histories with read-only, shared and guarded argument storage",
  "arguments in read-only pages or between guard bytes; every store of the library is classified in the instrumented flavour"),
 ("C05", T + "seeded floating-point environment and process-state faults before calls, state compared at return and at seeded interruption points",
  "all combinations of rounding, masks, FTZ/DAZ, x87 precision and pending flags are drawn per call; seeded search"),
 ("C06", T + "step-counting simulated clock with seeded rounding, flush-to-zero and libm last-place faults",
  "work is counted in instrumented basic blocks and memory accesses against a fixed bound; seeded, coverage-guided search"),
 ("C07", T + "every allocation and system call fails, stack limited to 32 KiB, in seeded histories",
  "fault injection in malloc family, operator new, mmap and (seccomp) all system calls; stack use measured by painting"),
 ("C08", T + "seeded whole process lives (early constructors, exit handlers, TLS destructors, forks, dlopen/dlclose, link orders)",
  "one process per scenario, bitwise comparison with the result in main(); seeded search"),
 ("C09", T + "seeded environment histories (rounding, flush-to-zero, libm last-place faults) against a binary128 reference model",
  "coverage-guided and boundary-biased arguments; the reference model is an independent implementation in binary128"),
 ("C10", T + "seeded environment histories (rounding, flush-to-zero, libm last-place faults) against a binary128 reference model",
  "coverage-guided and boundary-biased arguments; the reference model is an independent implementation in binary128"),
 ("C11", T + "seeded environment histories (rounding, flush-to-zero, libm last-place faults) against a binary128 reference model",
  "orders -1500..2^63-1; the reference model is an independent implementation in binary128"),
 ("C12", T + "seeded environment histories with special values, decided by the table of defined results",
  "NaN, infinities, zeros, +-1 and extreme orders in every environment and history; seeded search"),
 ("C13", T + "replicas (C, C++, Fortran, general order) run in the same seeded environment history and are compared",
  "coverage-guided and boundary-biased arguments; seeded search"),
 ("C14", T + "seeded histories with unmasked floating-point traps and all rounding directions; traps and flags are the violation",
  "the trap is taken in the simulated process by real hardware exceptions; seeded search"),
 ("C15", T + "reflected pairs of calls run in the same seeded environment history, compared bit for bit",
  "libm personalities used are themselves symmetric; seeded, coverage-guided search"),
 ("C18", T + "complex calls on the real axis run in the same seeded environment history as their real counterparts",
  "libm personalities used are exact on the axes; seeded, coverage-guided search"),
]
NA = [
 ("C16", "a property of the source text and its compilation: no execution, schedule, time, I/O or fault for it to depend on, so simulation cannot decide it"),
 ("C17", "performance of the machine code; simulated time counts logical steps and says nothing about nanoseconds (the part that is behaviour, bounded work per call, is C06)"),
]
m = dict(version=1, setup_cmd="python3 bin/build.py",
         checks=[dict(property=p, quick_cmd="python3 bin/check %s --tier quick" % p, thorough_cmd="python3 bin/check %s --tier thorough" % p,
                      technique=t, level="exploration", level_note=n) for p, t, n in CHECKS],
         not_applicable=[dict(property=p, reason=r) for p, r in NA])
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
