import kvc
SPEC = [("ops_conv.c", r"hodu_cpu_conv[123]d_(?!grad)", "fam_conv", "conv", ()), ("ops_conv.c", r"hodu_cpu_conv_transpose[123]d_(?!grad)", "fam_conv", "transpose", ())]
def run(prop, u): return kvc.drive(SPEC, "conv")
if __name__ == "__main__": kvc.report(SPEC, "conv")
