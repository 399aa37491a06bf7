"""writes MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import re
TABLE = eval(re.search(r"TABLE = (\{.*?\})", open(os.path.join(HERE, "check.py")).read(), re.S).group(1))
TECH = {
    "C01": ("symbolic execution of the LLVM IR; SMT (LRA for the sum, IEEE-754 FP theory for the classification)",
            "All f64 totals bit-precisely; the sum's tree is shown to add each component once. Trusts the executor (validated against the compiled code each run) and z3."),
    "C02": ("symbolic execution of the LLVM IR; SMT (LRA and IEEE-754 FP theory)",
            "All component values; value claims over the FP theory per component. Trusts the executor and z3."),
    "C03": ("symbolic execution of the LLVM IR; SMT over the resulting memory and verdict terms",
            "All component values and all prior model states within the stated history; trusts the executor and z3."),
    "C04": ("symbolic execution of the LLVM IR; linear real arithmetic SMT",
            "All compositions in the bounds, both interfaces; real arithmetic with a relative tolerance of 1e-11."),
    "C05": ("symbolic execution of the LLVM IR; normal form over generalised monomials, linear-arithmetic SMT per equality, against an independent encoding of the equation of state",
            "All T, d, compositions in the bounds for each presence pattern (all pure fluids, all pairs, all 21, all but one, some subsets); real arithmetic."),
    "C06": ("symbolic execution of the LLVM IR; normal form over generalised monomials, linear-arithmetic SMT per equality, against an independent encoding of the equation of state",
            "All T, d, compositions in the bounds for each presence pattern (all pure fluids, all pairs, all 21, all but one, some subsets); real arithmetic."),
    "C07": ("symbolic execution of the LLVM IR; symbolic differentiation of the extracted terms, linear-arithmetic SMT per identity",
            "All T, d, compositions in the bounds for each presence pattern; real arithmetic. d2p_dtd, documented as not calculated, is left out."),
    "C08": ("symbolic execution of the LLVM IR; symbolic differentiation of the extracted terms, linear-arithmetic SMT per identity",
            "All T, d, compositions in the bounds for each presence pattern; real arithmetic."),
    "C09": ("symbolic execution of call histories on the LLVM IR; IEEE-754 FP theory decides every relation between the inputs of successive calls, results compared as terms",
            "All inputs in the bounds, whether equal or differing by one ulp or more; results must be the same term, so equality is bit for bit; extended to any history length by an inductive pass over the remaining state."),
    "C10": ("symbolic execution of call histories on the LLVM IR; IEEE-754 FP theory decides every relation between the inputs of successive calls, results compared as terms",
            "All inputs in the bounds, whether equal or differing by one ulp or more; results must be the same term, so equality is bit for bit; extended to any history length by an inductive pass over the remaining state."),
    "C11": ("symbolic execution of the fully unrolled iteration; nonlinear real arithmetic SMT per exit",
            "All pressures, temperatures, compositions and leftovers; the equation of state values are uninterpreted, so the contract holds for whatever they are."),
    "C12": ("symbolic execution of the fully unrolled iteration; nonlinear real arithmetic SMT per exit",
            "All pressures, temperatures, compositions and leftovers; the equation of state values are uninterpreted, so the contract holds for whatever they are."),
    "C13": ("symbolic execution of the LLVM IR of both interfaces on one symbolic state; SMT equivalence of results and memory",
            "All argument values and model states; for density the iteration is compared term by term."),
    "C14": ("symbolic execution of the LLVM IR without range assumptions; SMT on every panic, bounds and overflow condition",
            "All bit patterns of the numeric inputs; every loop bound and index is decided for every feasible path."),
    "C15": ("symbolic execution of the LLVM IR with allocation, free and null tracking; SMT over memory frames",
            "All argument values and the listed interleavings of calls on two handles."),
    "C16": ("symbolic execution of the LLVM IR; SMT equality of input fields before and after every path",
            "All states and paths of every calculation."),
    "C17": ("symbolic execution of the LLVM IR at d = 0; linear-arithmetic SMT per identity over generalised monomials",
            "All T and compositions in the bounds for each presence pattern; real arithmetic."),
    "C18": ("symbolic execution of the density search from two leftover densities; SMT equality of the outcomes",
            "All pressures, temperatures, compositions and leftovers; arithmetic uninterpreted."),
}
NA = {
    "C19": "Whether Newton's iteration converges for every normal-range state is a global statement about transcendental functions of about 25 real variables iterated up to 50 times; no available solver decides it, and no bounded fragment of it is what users rely on.",
    "C20": "Rounding-error bounds pass through libm exp/log/pow whose accuracy is unspecified and through about 1e4 floating-point operations per result; the FP theory cannot carry that, and interval arguments would be a proof about the library, not solver-based checking of this code.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i in TABLE:
        t, n = TECH[i]
        checks.append(dict(property=i, quick_cmd="python3-vt check.py %s quick" % i, thorough_cmd="python3-vt check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level="other", level_note=n))
    elif i not in NA:
        NA[i] = "check not built yet"
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=checks,
               not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
               notes="No hooks: the checks build /repo/src with rustc (feature extern) and a harness crate in /verif that uses public items only."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
