"""C02: representation of values and first-match pattern matching at run time."""
import common, progcheck


def run(c):
    llrl0 = common.build_llrl0()
    c.rule = ("random data declarations of every shape (enums, structs, sums, boxes, recursive, generic, value data) "
              "with values built, stored, passed, returned, matched and printed; one evaluation is one printed test "
              "line compared with the reference interpretation (first matching clause, exact field values)")
    if common.THOROUGH:
        plan = [(2500, ["chibi"]), (500, ["llvm", "llvm-O"]), (200, ["chibi-O", "chibi", "llvm-O"])]
    else:
        plan = [(220, ["chibi"]), (80, ["llvm", "llvm-O"]), (20, ["chibi-O"])]
    progcheck.sweep(c, llrl0, "data", plan, ntests=10)
