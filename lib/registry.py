"""property id -> check module"""
MODULES = {}
for _p in ("C02", "C03", "C05", "C08", "C09", "C10", "C11", "C12", "C13", "C25"):
    MODULES[_p] = "nlpchecks"
for _p in ("C15", "C16", "C17", "C18", "C19", "C20", "C21", "C23"):
    MODULES[_p] = "loopchecks"

for _p in ("C04", "C06", "C07", "C14"):
    MODULES[_p] = "compchecks"

for _p in ("C24",):
    MODULES[_p] = "lsqchecks"

for _p in ("C26", "C28"):
    MODULES[_p] = "smoothchecks"

MODULES["C01"] = "rkchecks"
MODULES["C31"] = "dumpchecks"
MODULES["C29"] = "rejectchecks"
MODULES["C22"] = "autochecks"
MODULES["C27"] = "indexchecks"

DEFAULT = "bounded symbolic execution of the real code, decided by z3"
NLP = "symbolic construction of the NLP by the real code, decompiled to exact polynomials, entailment decided by z3 (QF_NRA)"
EXE = "forking symbolic execution of the real Python code with a nondeterministic NLP solver, path assertions decided by z3"
TECHNIQUE = {p: NLP for p, m in MODULES.items() if m in ("nlpchecks", "compchecks")}
TECHNIQUE.update({p: EXE for p, m in MODULES.items() if m == "loopchecks"})
TECHNIQUE["C24"] = TECHNIQUE["C31"] = NLP
TECHNIQUE["C01"] = ("the coefficients returned by the real code as exact rationals, exactness for all polynomials of a degree as linear "
                    "real arithmetic, decided by z3")
TECHNIQUE["C22"] = ("models derived by the real code from symbolic right-hand sides, decompiled; equality in every region decided by z3 "
                    "(QF_UFNRA, smooth functions uninterpreted)")
TECHNIQUE["C26"] = ("smoothed functions and initialization built by the real code, decompiled; the step function replaced by its contract; "
                    "decided by z3")
TECHNIQUE["C27"] = "symbolic execution of the real index code with symbolic bounds, guesses and offsets, decided by z3"
TECHNIQUE["C28"] = "symbolic execution of the real integrators with an uninterpreted or polynomial field, decided by z3 (QF_UFNRA)"
TECHNIQUE["C29"] = "symbolic execution of the real constructors and checks over symbolic dimensions, paths decided by z3"
DEFAULT_NOTE = ("bounded verification: every value of the symbolic quantities within the stated box and every enumerated "
                "configuration is decided by the solver; counterexamples are replayed on the unmodified library")
NOTE = {}
NA = {"C30": "convergence order of IPOPT-computed trajectories: the property is about limits (no bound) and about iterates "
             "computed inside IPOPT, which is foreign code that cannot be encoded"}
