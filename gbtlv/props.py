"""What each check runs.  oracle: list of (platforms, scalar families, operations, aspects, extra oracle args)"""
MAT = ["mxm", "ewadd", "ewmult", "kron", "apply", "transpose", "extract", "assign", "assignc", "assignrc"]
VEC = ["mxv", "vxm", "ewaddv", "ewmultv", "applyv", "reduce", "extractv", "extractcol", "assignv", "assigncv"]
ALL = MAT + VEC + ["reduces"]
D, X, DX = ["TyD"], ["TyX"], ["TyD", "TyX"]
BOTH = ["seq", "opt"]
VA = "VALUE,CANON"
O = {
 "C01": [(BOTH, D, MAT + ["mhist", "maccess", "mbuild", "mshape"], "CANON", [])],
 "C02": [(BOTH, D, VEC + ["vhist", "vaccess", "vbuild", "vshape"], "CANON", [])],
 "C03": [(BOTH, D, ["maccess", "vaccess"], "VALUE,CANON,THROW", [])],
 "C04": [(BOTH, D, ["mbuild", "vbuild"], "VALUE,CANON,THROW", [])],
 "C05": [(BOTH, D, ["mshape", "vshape"], "VALUE,CANON,THROW", [])],
 "C06": [(BOTH, D, ["apply", "transpose", "ewadd"], VA, [])],
 "C07": [(BOTH, D, ["applyv", "ewaddv", "extractv"], VA, [])],
 "C08": [(["seq"], DX, ["mxm"], VA, [])],
 "C09": [(["opt"], DX, ["mxm"], VA, [])],
 "C10": [(BOTH, DX, ["mxv", "vxm"], VA, [])],
 "C11": [(BOTH, DX, ["ewadd", "ewaddv"], VA, [])],
 "C12": [(BOTH, DX, ["ewmult", "ewmultv"], VA, [])],
 "C13": [(BOTH, DX, ["apply", "applyv"], VA, [])],
 "C14": [(BOTH, DX, ["reduce", "reduces"], VA, [])],
 "C15": [(BOTH, DX, ["transpose"], VA, [])],
 "C16": [(BOTH, DX, ["kron"], VA, [])],
 "C17": [(BOTH, DX, ["extract", "extractv", "extractcol"], VA, [])],
 "C18": [(BOTH, DX, ["assign", "assignv", "assignc", "assigncv", "assignrc"], VA, [])],
 "C19": [(BOTH, D, ALL, "THROW,INPUT", ["--bad"])],
 "C20": [(BOTH, X, ALL, "VALUE,INPUT,CANON", []), (BOTH, D, ALL, "INPUT", [])],
 "C21": [(BOTH, D, ALL + ["mhist", "vhist"], "SAFETY", [])],
 "C23": [(BOTH, D, ["utils"], "VALUE,CANON,THROW,INPUT", [])],
}
FLAGS = {"C21": ["-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR", "-D_GLIBCXX_DEBUG"]}
TAG = {"C21": "-asan"}
TITLE = {}
NA = {}
SECONDS = {"C21": 14}
PROOF = {}
LEVEL = {}
TECH = "contract-based deductive verification (contracts on the instantiated C++ functions, loop invariants, SMT)"
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19"):
    LEVEL[_p] = ("proof", TECH, "Every obligation (contract posts, callee preconditions, invariants, frame, memory safety) of every instantiation is discharged by z3 for all inputs, scalar types and operators; a random bounded oracle on the real code runs beside it to find failing inputs and is not counted as proved.")
NA.update({
 "C22": "interim: not built yet",
 "C24": "the BFS loop's termination and hop-distance argument needs an inductive theory of paths over whole-matrix operations, and the algorithm templates only instantiate with concrete arithmetic types; no contract within reach expresses it",
 "C25": "shortest-path correctness is an inductive argument over paths and min-plus powers on top of whole-matrix operations, outside the row/vector theory the verifier has",
 "C26": "triangle counts are sums over matrix products; the verifier's theory has no counting of triples across rows",
 "C27": "optimality statements (max-flow/min-cut, MST minimality, maximality of independent sets and k-trusses) are graph theorems, not contracts over one call",
 "C28": "floating-point accuracy; the family has no usable theory for accumulated rounding in iterative algorithms",
})
