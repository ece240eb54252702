"""prints the 'fixed:' lines of known_findings.txt from the fix commits in /repo"""
import subprocess
MAP = {
 "report switch times as": ("C17", "switch_times held step lengths instead of grid times"),
 "stop_on_failure": ("C18", "stop_on_failure never stopped: status enum compared with a string"),
 "global speed of time variable": ("C25", "SpeedOfTimeVariableMode.GLOBAL crashed when the problem was built"),
 "speed of time guess": ("C20", "default guess 1.0 of the speed-of-time variable outside its bounds"),
 "control stage complementarities": ("C12", "control-stage path complementarities imposed at the wrong element, or not at all, with Nfe_list"),
 "do not share NLP solver": ("C23", "opts_casadi_nlp shared by all NosnocOpts instances (tolerance of one problem leaks into another)"),
 "reject inequality": ("C24", "LEAST_SQUARES accepted constraints with ubg != 0 and penalized them as equalities"),
 "g_path_at_stg": ("C11", "g_path_at_stg skipped the last Radau stage of elements that are not the last of their control stage"),
 "terminal time constraint for": ("C08", "no total time constraint for N_stages == 1 without equidistant grid"),
 "boundary switching equations": ("C03", "Gauss-Legendre: switching equations at the end of the last element used the last stage's multipliers (cuts off solutions)"),
 "cross complementarity with the": ("C05", "COMPLEMENT_ALL mode and complementarity residual omitted the right-boundary multipliers"),
 "nonnegative multipliers in": ("C05", "ELASTIC_TWO_SIDED had no nonnegativity of multipliers"),
 "order of initial multipliers": ("C14", "initial multipliers of several Step subsystems ended in wrong slots"),
 "Step subsystems with different": ("C02", "Step form crashed when the subsystems have different numbers of modes"),
 "setting the full initial guess": ("C20", "set('w') kept the user's array: later setters and solves overwrote it, and integer arrays truncated later values"),
 "set theta with": ("C20", "set('theta') failed with several subsystems"),
 "report the cost with": ("C16", "cost_val was the absolute value of the objective"),
 "quadrature weights": ("C10", "running cost halved for the integral representation with one Radau stage"),
 "results for Stewart": ("C17", "result extraction crashed for Stewart subsystems with different numbers of modes"),
 "reject switched systems": ("C29", "switched systems with F of the wrong number of rows, more regions than fields, unused columns of c in Step mode or f_x of the wrong length were accepted"),
 "reject element counts": ("C29", "Nfe_list with more entries than control stages was accepted"),
 "automatic models keep": ("C22", "parameters of the given ODE were dropped from the derived model (free variables)"),
 "automatic models with several": ("C22", "general inclusions with two or more switching functions could not be preprocessed"),
 "additive automatic models": ("C22", "the additive path failed on min and on states without smooth part, and counted a field twice when two terms share a switching function"),
 "automatic models use": ("C22", "non-additive ODEs were sent to the additive reformulation, which drops products of nonsmooth terms"),
 "automatic reformulation": ("C22", "a second reformulate() changed the lists of the first model and doubled its own"),
 "dump problems with least": ("C31", "dump() of a problem with LEAST_SQUARES constraint handling failed (unpicklable expression)"),
 "RK4 initialization uses the number": ("C26", "RK4_SMOOTHENED guesses computed on a wrong grid when Nfe_list is given"),
 "RK4 initialization with differential": ("C26", "RK4_SMOOTHENED crashed in the differential representation"),
 "RK4 initialization": ("C26", "RK4_SMOOTHENED guesses shifted by one stage in the integral representation"),
 "polishing fixes": ("C21", "polishing pinned the free multipliers mu and negative values, rejected speed-of-time variables, and repeated the same NLP"),
 "report cost and iterate": ("C16", "cost and iterate of the polishing step were not reported"),
}
out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True)
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    k = [k for k in MAP if s[5:].startswith(k)]
    p, t = MAP[k[0]]
    print(f"fixed: property={p} {h} {t}")
