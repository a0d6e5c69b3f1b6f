"""C01: evaluation of programs agrees with the language's meaning on every back end and optimisation level."""
import common, progcheck


def run(c):
    llrl0 = common.build_llrl0()
    c.rule = ("random well-typed programs (functions, closures, local recursion, control flow, arithmetic, strings, "
              "references, matches); one evaluation is one printed test line compared with the reference "
              "interpretation; lines are distinct by text, so equal results count once")
    c.assumptions = ["signed overflow, division by zero, oversized shifts and out-of-range float conversions are "
                     "outside the defined domain and never generated"]
    if common.THOROUGH:
        plan = [(2500, ["chibi"]), (500, ["llvm", "llvm-O"]), (200, ["chibi-O", "chibi", "llvm-O"])]
    else:
        plan = [(220, ["chibi"]), (90, ["llvm", "llvm-O"]), (20, ["chibi-O"])]
    progcheck.sweep(c, llrl0, "mixed", plan, ntests=12)
