"""Technique, level and note of each check for MANIFEST.json."""
_O = "runtime oracle monitor (independent reference model) on random and coverage-guided executions"
_N = ("Exploration: every monitored call is compared with an independent model; inputs are sampled, not enumerated. "
      "Trusts the model in harness/oracle.cc, the compilers, and that library behaviour does not depend on the build flags.")
TEXT = {p: (_O, "exploration", _N) for p in ["C%02d" % i for i in range(1, 28)]}
TEXT["C01"] = ("AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer monitors on random and coverage-guided executions", "exploration",
               "Exploration: sanitizers judge the executed calls only. Trusts the sanitizers; buffers have exactly the documented size.")
TEXT["C02"] = ("runtime refusal monitor under AddressSanitizer/UBSan on generated malformed and boundary arguments", "exploration", _N)
TEXT["C03"] = ("allocation/file-handle accounting, read-only inputs, and repetition monitors on call histories", "exploration", _N)
TEXT["C04"] = ("ThreadSanitizer plus sequential-equivalence monitor on concurrent executions with injected delays", "exploration",
               "Exploration of schedules that occur under load and injected delays; ThreadSanitizer's happens-before analysis covers races of executed accesses whatever the timing.")
TEXT["C05"] = ("allocation-fault injection monitor under AddressSanitizer: each allocation of the executed calls made to fail", "fault_enumeration",
               "For each sampled call with at most 12 allocations all single failures and all 'from here on' failures are injected; larger ones are sampled.")
TEXT["C22"] = ("differential runtime monitor of the CLI against composed library calls", "exploration", _N)
TEXT["C23"] = ("fault-injection monitor of the CLI (full disk, size limits, failing writes and allocations, unreadable input) with output-file oracle", "exploration", _N)
TEXT["C24"] = ("AddressSanitizer/UBSan, MemorySanitizer and memory-contents monitors of the CLI under hostile files and arguments", "exploration", _N)
TEXT["C25"] = ("differential execution monitor: amalgamation against separate sources", "exploration", _N)
TEXT["C26"] = ("differential execution monitor: Haskell bindings against the C library, with allocation accounting", "exploration", _N)
TEXT["C27"] = ("runtime oracle monitor on sparse images of more than four gigabytes", "exploration", _N)
