import kvc
SPEC = [("ops_reduce.c", r".", "fam_reduce", "reduction", ())]
def run(prop, u): return kvc.drive(SPEC, "reduce")
if __name__ == "__main__": kvc.report(SPEC, "reduce")
