import kvc
SPEC = [("ops_shape_memory.c", r"flip_", "fam_move", "flip", ()), ("ops_concat_split.c", r"_split_", "fam_move", "split", ()), ("ops_concat_split.c", r"_concat_", "fam_move", "concat", ()),
        ("ops_padding.c", r".", "fam_move", "pad", ()), ("ops_memory.c", r"contiguous_", "fam_elem", "elementwise", ("unary",)), ("storage.c", r"const_set_", "fam_move", "const_set", ())]
def run(prop, u): return kvc.drive(SPEC, "move")
if __name__ == "__main__": kvc.report(SPEC, "move")
