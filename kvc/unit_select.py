import kvc
SPEC = [("ops_indexing.c", r"_nonzero_count_", "fam_select", "nonzero_count", ()), ("ops_indexing.c", r"_nonzero_fill_", "fam_select", "nonzero_fill", ()), ("ops_indexing.c", r"_compress_", "fam_select", "compress", ()),
        ("ops_scan.c", r"_cumsum_", "fam_select", "cumsum", ())]
def run(prop, u): return kvc.drive(SPEC, "select")
if __name__ == "__main__": kvc.report(SPEC, "select")
