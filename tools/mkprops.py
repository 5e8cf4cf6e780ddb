"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table (run after editing)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/pymars/"
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=(), observe=(), level=None, note="", na=None):
    P.append(dict(
        rec=dict(
            id=id, title=title, statement=statement, quantifier={"over": over, "text": quant},
            why_tests_cant=why,
            anchors={
                "files": [S + f for f in files],
                "state": [{"name": a, "meaning": b, "where": S + c} for a, b, c in state],
                "mechanism": [{"name": a, "where": S + b} for a, b in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        ),
        level=level or "exploration", note=note, na=na,
    ))


prop(
    "C01", "Parallel evaluation gives exactly the serial result, in case order",
    "Evaluating or sampling a model over any list of ignition, PSR and flame conditions with any number of worker "
    "processes returns exactly the metrics, sampled states and saved sample files that a serial evaluation produces, "
    "whatever order the workers run and finish in, however they are started and however many CPUs there are. "
    "Metrics come out in case order (ignition delays, then three values per PSR case, then flame speeds), and each "
    "case's values and sampled rows are those of that case run alone.",
    ["schedules", "inputs", "configurations"],
    "all case mixes, worker counts, worker start methods, CPU counts and worker interleavings",
    "tests run one or two cases, serially or with the pool patched; worker interleavings are never controlled",
    ["sampling.py", "simulation.py"],
    [("one job per case tagged with its index, results merged by index", "sampling.py:_run_workers"),
     ("one intermediate file per case index", "simulation.py:IgnitionSimulation.setup_case")],
    observe=["return values of sample and sample_metrics", "saved *_data.csv / *_output.csv files"],
    note="seeded schedules of real worker processes, exact comparison with a serial process and with single-case "
         "references; sampled, not exhaustive; flame Newton solve is a stub",
)
prop(
    "C02", "A starting model that cannot be evaluated stops the run with an error",
    "If any case of the starting model fails while it is evaluated (solver failure at any step, no ignition or not "
    "reaching steady state, no extinction curve, no flame, failed allocation, a worker process raising or dying), then "
    "sampling and every reduction, with any method and with sensitivity analysis alone, ends with an error within "
    "bounded work. It never hangs, never returns or reports a reduced model, and never leaves saved samples that a later "
    "run would accept in place of a correct evaluation.",
    ["fault_sequences", "schedules", "inputs"],
    "every case kind, failing case, failing step, failure kind, worker count and method",
    "tests patch single methods to raise once, serially; step-accurate failures, worker deaths and the aftermath on disk are never exercised",
    ["sampling.py", "simulation.py", "sensitivity_analysis.py", "drg.py", "drgep.py", "pfa.py"],
    [("run_case raises for the starting model", "simulation.py:run_case"), ("worker results propagate", "sampling.py:_run_workers")],
    observe=["exception type of sample / run_* / main / the command line", "files left behind", "result of a later run"],
    note="fault injected at a chosen solver step, flame iteration, PSR evaluation or worker scheduling point of a real run; then a fault-free rerun on the same disk",
)
prop(
    "C03", "A failed case of a candidate model is a 100% error, and nothing more",
    "When a case of a candidate (skeletal) model cannot be evaluated because the solver fails at any step, the mixture "
    "does not ignite, has no extinction curve or sustains no flame, that case's metrics are reported as zero and every other case's metrics "
    "are what they are without the failure. The candidate's error is then exactly 100 percent, and the evaluation ends "
    "normally within bounded work, however degenerate the candidate (for instance with no reactions left).",
    ["fault_sequences", "inputs", "schedules"],
    "every case kind, failing step and subset of failing cases, every degenerate candidate, any worker count",
    "tests patch the step function to fail immediately for one case and never build degenerate candidates with the real integrator",
    ["simulation.py", "sampling.py", "psr_solver.py"],
    [("calculate() maps failures to zero", "simulation.py:calculate"), ("zero metric means 100 percent", "sampling.py:calculate_error")],
    observe=["return value of sample_metrics and calculate_error", "termination"],
    note="faults at chosen solver steps of chosen cases; independent re-evaluation of all other cases",
)
prop(
    "C04", "An interrupted sampling run never corrupts a later one",
    "If sampling a model is cut short at any point (the process is killed, interrupted, or a disk operation fails or is "
    "only partly done), then simply running it again returns exactly the metrics and sampled states of an undisturbed "
    "run, without needing any cleanup. This holds whether or not usable samples existed before, for any sequence of such "
    "interruptions.",
    ["crash_points", "fault_sequences", "histories"],
    "every disk operation and solver step of a sampling run, every write split, repeated interruptions, with and without earlier samples",
    "no test interrupts a write; the saved-sample files are only ever read back complete",
    ["sampling.py"],
    [("saved samples are reused only if count and shape match", "sampling.py:sample")],
    state=[("saved samples", "*_data.csv and *_output.csv in the working directory", "sampling.py:data_files")],
    observe=["return value of sample after restart", "saved files"],
    level="fault_enumeration",
    note="process-kill crash model: what the kernel was given survives, buffered data is lost; no power loss, no fsync requirement. "
         "Kill, torn write, ENOSPC/EIO or SIGINT at a chosen durable operation of the real run",
)
prop(
    "C05", "Saved samples are reused exactly when they match the request",
    "A sampling call reuses samples saved earlier in the same directory if and only if, for each phenomenon separately, "
    "the saved numbers of metrics and sampled states match the requested cases and the sampled states have the width of the "
    "requested model; then no simulation is run and exactly the saved values are returned. In every other case it simulates "
    "afresh, returns the fresh result and replaces the saved samples, for any history of models, case lists, missing or "
    "damaged files. Reading the saved metrics back gives exactly the last sampled ones.",
    ["histories", "inputs"],
    "every sequence of sampling, metric-only and read-back calls over models and case lists in one directory, including removed, truncated and stale files",
    "tests check a single reuse and a single mismatch each",
    ["sampling.py"],
    [("count and shape checks", "sampling.py:sample"), ("read-back", "sampling.py:read_metrics")],
    state=[("saved samples", "*_data.csv and *_output.csv in the working directory", "sampling.py:data_files")],
    observe=["return values", "saved files", "number of solver steps taken"],
    note="seeded histories against a reference model of the saved-sample store",
)
prop(
    "C06", "The reduced model meets the error limit and its reported error is true",
    "Whenever a reduction succeeds (any graph method, sensitivity analysis, or both), re-evaluating the returned model "
    "over all requested conditions against the original model gives the reported error, and that error does not exceed "
    "the limit. This holds when simulations of candidate models fail for any subset of candidates and cases, and for any "
    "number of worker processes.",
    ["inputs", "fault_sequences", "schedules"],
    "all mechanisms, case mixes, limits, methods, and patterns of candidate failures",
    "tests pin the outcome of a few reductions with mocked or fixed conditions and no failures",
    ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "sampling.py"],
    [("loop stops at the first error above the limit and returns the previous model", "drg.py:run_drg"),
     ("removal rejected above the limit", "sensitivity_analysis.py:run_sa"), ("maximum relative error", "sampling.py:calculate_error")],
    observe=["returned model, reported error, written file"],
    note="independent evaluation of original and reduced model with a separate driver over the real integrator; candidate failures are deterministic per (case, model)",
)
prop(
    "C07", "Targets, retained species and initial mixtures always survive",
    "The final model of every successful reduction still contains every target species and every retained species, and, for runs from an "
    "input file, every fuel, oxidizer and reactant species of the conditions. Otherwise it contains only species and reactions of "
    "the original model. No failure pattern of candidate simulations, no threshold the search reaches and no sensitivity stage changes this.",
    ["inputs", "fault_sequences", "histories"],
    "all mechanisms, target/retained sets, methods, thresholds reached and candidate-failure patterns",
    "tests check retention on single pinned reductions at moderate thresholds",
    ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "pymars.py"],
    [("species_safe filter", "drg.py:reduce_drg"), ("auto-retained mixture species", "pymars.py:parse_inputs")],
    observe=["species of the returned and the written model"],
    note="same runs as C06/C13 plus permissive limits that drive the threshold to exhaustion",
)
prop(
    "C08", "Every run ends",
    "Every sampling, metric evaluation, PSR trace and reduction ends, returning a result or raising an error, within a bounded number of "
    "integrator steps, candidate evaluations and loop iterations that depends only on the requested cases and the "
    "model. This holds for permissive error limits, inert or degenerate models, candidates failing in any pattern, workers dying, failing "
    "solver corrections and failing disks.",
    ["fault_sequences", "inputs", "schedules"],
    "all error limits, mechanisms, failure patterns, worker deaths and disk failures",
    "a test can only observe that one run ended; mocked errors in tests steer around the open-ended loops",
    ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "simulation.py", "psr_solver.py", "sampling.py"],
    [("threshold floor raises SystemExit", "drg.py:run_drg"), ("step limit", "simulation.py:calculate"), ("ds_min and max_steps", "psr_solver.py:trace_extinction_curve")],
    observe=["termination within step, loop and operation budgets"],
    note="bounded liveness: engine-step, loop-iteration and disk-operation budgets derived from the request; exceeding one is the violation",
)
prop(
    "C09", "A reported model file is complete, current and never torn",
    "When a model write or a reduction reports success, the file at the reported name is complete and describes exactly the returned "
    "model, even if disk operations failed meanwhile; if the disk prevents that, an error is raised instead. Writing a model over an earlier "
    "file of the same name leaves, after a failure or a kill at any point, either the complete old or the complete new version, and no "
    "interrupted reduction leaves a torn or incomplete file under a reduced-model name.",
    ["crash_points", "fault_sequences"],
    "every disk operation of a model write and of whole reductions, with every write split, errno and kill point",
    "no test injects a disk failure; files are only compared after clean runs",
    ["soln2yaml.py", "drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py"],
    [("model writer", "soln2yaml.py:write")],
    observe=["file content at and after every fault", "reported file name and model"],
    level="fault_enumeration",
    note="process-kill crash model as in C04; disk-full, I/O error, short and torn writes at chosen operations",
)
prop(
    "C10", "Runs in one process do not influence each other",
    "The result of a reduction, sampling or evaluation does not depend on what the same process ran before: a sequence "
    "of runs in one process, including failed and interrupted ones, gives for each run what a fresh process gives. "
    "The caller's condition, target and retained-species lists and default settings are left unchanged.",
    ["histories", "fault_sequences"],
    "all sequences of up to four runs over methods, models, conditions and failures",
    "tests run in one process but compare only with pinned values, in one order",
    ["reduce_model.py", "drgep.py", "sensitivity_analysis.py", "pymars.py", "sampling.py"],
    [("each run builds its own model objects", "drg.py:run_drg")],
    state=[("default arguments", "list-valued defaults shared by calls", "reduce_model.py:ReducedModel")],
    observe=["results of each run", "arguments after the call"],
    note="each run of a sequence is executed in its own directory, once in a shared and once in a fresh process, and compared exactly",
)
prop(
    "C11", "A run is a function of its inputs",
    "Repeating a reduction or sampling with the same inputs in a fresh process and directory gives the same species, reactions, "
    "error, metrics, written model and saved samples, whatever the hash seed, wall clock, entropy, CPU count, number of worker processes and their schedule.",
    ["configurations", "schedules"],
    "all hash seeds, clocks, entropy streams, CPU counts, thread counts and schedules",
    "tests run under one hash seed and one schedule per session",
    ["drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py", "sampling.py"],
    [("ordering by model species order and case index", "sampling.py:_run_sampling_jobs")],
    observe=["returned model, error, candidate-species list, written files"],
    note="same request executed under different hash seeds (separate interpreters), clocks, entropy and worker schedules, compared exactly",
)
prop(
    "C12", "Sensitivity analysis removes species in the documented order",
    "Sensitivity analysis considers only the given candidate species (or all species that are not targets or retained), repeatedly removes the one whose removal's induced error "
    "is closest to the current error, accepts each removal while the resulting error is within the limit, and stops at the first one that exceeds it or when no "
    "acceptable candidate is left; the greedy variant re-evaluates the induced errors after each removal and the initial variant does not. "
    "It ends with the last accepted model, its error and its file, also when candidate simulations fail in any pattern.",
    ["inputs", "fault_sequences", "histories"],
    "all candidate lists, limits, starting errors, both variants and all failure patterns",
    "tests pin two outcomes with mocked errors; the interplay with failing candidates and exhausted lists is not reached",
    ["sensitivity_analysis.py"],
    [("removal loop", "sensitivity_analysis.py:run_sa"), ("induced errors", "sensitivity_analysis.py:evaluate_species_errors")],
    observe=["returned species, error, file name, written file"],
    note="executable reference model over independently computed errors; runs within tolerance of a tie are counted as undecided",
)
prop(
    "C13", "The graph-based threshold search follows its documented ladder",
    "Each graph-based reduction tries removal thresholds 0.01, 0.02, ... and, whenever even the first one gives an error above the limit, restarts ten times finer, "
    "giving up with an error below the documented floor. It ends with exactly the model of the last threshold before the first one whose error exceeds the limit (or the smallest reachable one), "
    "where each threshold keeps the species reachable from the targets under that method's interaction coefficients. This holds for any pattern of failing candidate simulations.",
    ["inputs", "fault_sequences"],
    "all mechanisms, targets, limits, methods and candidate-failure patterns",
    "tests pin a few reductions; back-off, floor and exhaustion under failures are not reached",
    ["drg.py", "drgep.py", "pfa.py"],
    [("threshold loop", "drg.py:run_drg"), ("threshold loop", "drgep.py:run_drgep"), ("threshold loop", "pfa.py:run_pfa")],
    observe=["returned species and error, SystemExit at the floor"],
    note="executable reference model of the ladder with independently computed coefficients and errors; near-ties undecided",
)
prop(
    "C14", "A successful run leaves only its results behind",
    "After a successful sampling or reduction, the working, output and temporary directories contain, beyond what was there before, only the "
    "saved samples and reduced-model files: no per-case solution files, no temporary directories or files, and no file left open. "
    "Input files that do not carry the name of an output are never modified or removed. This holds for any number of worker processes, any schedule and any candidate failures.",
    ["schedules", "fault_sequences", "configurations"],
    "all case mixes, worker counts, schedules, output directories and candidate failures",
    "tests use temporary directories and do not look at what is left",
    ["simulation.py", "sampling.py", "sensitivity_analysis.py"],
    [("clean()", "simulation.py:BaseSimulation.clean"), ("temporary directory context", "sensitivity_analysis.py:run_sa")],
    observe=["directory contents before and after"],
    note="directory listings and input-file contents compared around simulated runs",
)
prop(
    "C15", "PSR tracing survives failing corrections without wrong answers",
    "When individual solver corrections fail while a stirred-reactor response curve is traced, the trace either raises an error or "
    "returns a curve whose points all solve the steady equations, whose extinction point is its smallest residence time, "
    "and whose reported points lie on the burning branch: the extinction point within the step tolerance of the true fold, the others nearest "
    "to 0.1 s and to the logarithmic middle. With fine steps a trace survives single failing corrections by cutting the step. "
    "It ends within the configured number of steps. (Giving up with an error is allowed otherwise.)",
    ["fault_sequences", "inputs"],
    "every subset and position of failing corrections, inlet states and step settings",
    "tests trace fault-free curves only",
    ["psr_solver.py"],
    [("step halving on failure", "psr_solver.py:trace_extinction_curve"), ("damped Newton fallback", "psr_solver.py:_damped_newton")],
    observe=["returned branch and points, residual of the steady equations"],
    note="transient failures injected at chosen calls of the root finder; residual re-evaluated independently",
)
prop(
    "C16", "A killed reduction can simply be run again",
    "If a whole command-line or programmatic reduction is killed or hit by a disk error at any point and then run again in the "
    "same directory, it produces the same reduced-model file, species and error as an undisturbed run. "
    "This holds for every method, output directory, number of worker processes and number of interruptions.",
    ["crash_points", "fault_sequences", "histories"],
    "every disk operation and solver step of a whole reduction, repeated interruptions",
    "no test interrupts and restarts a reduction",
    ["pymars.py", "sampling.py", "soln2yaml.py", "drg.py", "drgep.py", "pfa.py", "sensitivity_analysis.py"],
    [("saved samples reused on restart", "sampling.py:sample"), ("model files rewritten", "soln2yaml.py:write")],
    observe=["final reduced-model file, result of the rerun"],
    level="fault_enumeration",
    note="process-kill crash model as in C04; kills at chosen durable operations or solver steps of the real reduction, then reruns to completion",
)

# ---- pure functions of their input: listed, not claimed ------------------------------------
prop(
    "C17", "Trimmed models are closed and faithful",
    "Removing species from a model removes exactly the reactions that involve a removed species (as reactant, product or sole third body), "
    "keeps the remaining species and reactions with their data unchanged and in order, and yields a loadable model.",
    ["inputs"], "all models and exclusion lists", "tests check a few reactions of one mechanism",
    ["reduce_model.py"], [("trim", "reduce_model.py:trim")],
    na="pure function of (model, exclusion list): no schedule, clock, fault or I/O interleaving for a simulator to decide "
       "(exercised only as a by-product of C06, C12 and C13)",
)
prop(
    "C18", "Interaction coefficients follow the published definitions",
    "For any model and thermochemical state, the DRG, DRGEP and PFA direct and overall interaction coefficients equal their published definitions, "
    "and graph search keeps exactly the species reachable from the targets.",
    ["inputs"], "all models and states", "tests check hand-made mechanisms",
    ["drg.py", "drgep.py", "pfa.py"], [("matrices and graph search", "drg.py:create_drg_matrix")],
    na="pure function of (model, state): nothing for schedules or faults to vary (the C13 reference model recomputes them as a by-product)",
)
prop(
    "C19", "Model conversion preserves the mechanism",
    "Converting a model between Cantera and Chemkin formats and back preserves species, thermodynamic and transport data, "
    "reactions and rate parameters.",
    ["inputs"], "all models", "tests convert a few mechanisms",
    ["soln2ck.py", "tools.py"], [("writer", "soln2ck.py:write"), ("converter", "tools.py:convert")],
    na="pure function of the input model; the fidelity of the text does not depend on any schedule, clock or fault",
)
prop(
    "C20", "Inputs are validated and mixtures auto-retained",
    "Every invalid input file is rejected with an error naming the problem, and every valid one yields the conditions it states, "
    "with species of the initial mixtures retained automatically.",
    ["inputs"], "all input files", "tests check single invalid fields",
    ["pymars.py", "sampling.py"], [("parse_inputs", "pymars.py:parse_inputs")],
    na="pure function of the input dictionary; no nondeterminism or fault reaches it",
)
prop(
    "C21", "Profiles are sampled at the documented temperature fractions",
    "The sampled states of an ignition or flame profile are the first points at which the temperature reaches each twentieth of the total rise.",
    ["inputs"], "all profiles", "tests check one synthetic profile",
    ["simulation.py"], [("_sample_profile", "simulation.py:BaseSimulation._sample_profile")],
    na="pure function of the profile arrays; nothing for a simulator to schedule or fail",
)

READY = {l.strip() for l in open(os.path.join(V, "tools", "ready.txt")) if l.strip()}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["rec"]) + "\n")
    checks, na = [], []
    for p in P:
        i = p["rec"]["id"]
        if p["na"]:
            na.append({"property": i, "reason": p["na"]})
        elif i in READY:
            checks.append({
                "property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation with fault injection (seeded search)",
                "level": p["level"], "level_note": p["note"],
            })
        else:
            na.append({"property": i, "reason": "check under construction"})
    m = {
        "version": 1,
        "setup_cmd": "bin/setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: every seam is outside it (LD_PRELOAD disk/clock/entropy seam, Cantera and SciPy entry points, process pools).",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
