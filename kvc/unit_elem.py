import kvc, sys, json
SPEC = [("ops_binary.c", r".", "fam_elem", "elementwise", ("binary",)), ("ops_bitwise.c", r"bitwise_(and|or|xor)_\w+$|sh[lr]_[ui]\d+$", "fam_elem", "elementwise", ("binary",)),
        ("ops_bitwise.c", r"bitwise_not_\w+$|sh[lr]_scalar_\w+$", "fam_elem", "elementwise", ("unary",)), ("ops_memory.c", r"contiguous_", "fam_elem", "elementwise", ("unary",)),
        ("ops_unary.c", r".", "fam_elem", "elementwise", ("unary",)), ("ops_cast.c", r".", "fam_elem", "elementwise", ("unary",))]
def run(prop, u): return kvc.drive(SPEC, "elem")
if __name__ == "__main__": kvc.report(SPEC, "elem")
