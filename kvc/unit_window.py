import kvc
SPEC = [("ops_windowing.c", r"_reduce_window_", "fam_window", "window", ())]
def run(prop, u): return kvc.drive(SPEC, "window")
if __name__ == "__main__": kvc.report(SPEC, "window")
