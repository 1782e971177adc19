import kvc
SPEC = [("ops_matrix.c", r"_dot_", "fam_matrix", "dot", ()), ("ops_matrix.c", r"_matmul_", "fam_matrix", "matmul", ()),
        ("ops_matrix_openblas.c", r"_dot_f", "fam_matrix", "dot_blas", ()), ("ops_matrix_openblas.c", r"_matmul_f", "fam_matrix", "matmul_blas", ())]
def run(prop, u): return kvc.drive(SPEC, "matrix")
if __name__ == "__main__": kvc.report(SPEC, "matrix")
