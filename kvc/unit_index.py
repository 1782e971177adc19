import kvc
SPEC = [("ops_indexing.c", r"_index_select_", "fam_index", "index_select", ()), ("ops_indexing.c", r"_index_put_", "fam_index", "index_put", ()), ("ops_indexing.c", r"_gather_", "fam_index", "gather", ()),
        ("ops_indexing.c", r"_scatter_", "fam_index", "scatter", ()), ("ops_indexing.c", r"_onehot_", "fam_index", "onehot", ())]
def run(prop, u): return kvc.drive(SPEC, "index")
if __name__ == "__main__": kvc.report(SPEC, "index")
