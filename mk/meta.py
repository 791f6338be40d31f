"""Writes properties.jsonl and MANIFEST.json from one table.  usage: python3 mk/meta.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "bayes_optim/"
MC = "stateless model checking of the real code: exhaustive enumeration of %s within stated bounds, every execution checked against %s"


def P(id, title, statement, over, text, why, files, mech, tech, note, level="model_checking", observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, level=level, observe=observe)


PROPS = [
    P("P01", "Every proposed candidate is an admissible point of the search space",
      "Whenever an optimizer is asked for candidates, in the initial design as well as in the model-based phase, it returns exactly the requested number, and each candidate has one value per variable that the variable admits: numbers inside the closed bounds and rounded to the declared precision, integers on the declared step, members of the declared categories, of the right type and under the right name and position. This holds whatever the random numbers are and wherever the surrogate locates the optimum.",
      ["inputs", "configurations", "histories"], "all search spaces (types, scales, precision, steps, order of variables), optimizer classes, output formats, outcomes of the random draws, surrogate predictions",
      "The tests run a handful of seeds on a handful of spaces; boundary values and rounding at the edge of the box need particular draws and particular surrogate optima.",
      [B + "base.py", B + "bayes_opt.py", B + "extension.py", B + "mobo.py", B + "search_space/variable.py", B + "search_space/samplers.py", B + "acquisition/optim/"],
      [("sampling", B + "search_space/variable.py"), ("acquisition search and post-processing", B + "base.py: ask, arg_max_acquisition, pre_eval_check")],
      MC % ("random-draw outcomes (deviation-bounded) and surrogate optima", "an independent admissibility oracle"),
      "Exhaustive up to the deviation bound on the random draws over the listed spaces and classes; stand-in surrogates."),
    P("P02", "Variables fixed by the caller keep their value in every candidate",
      "When candidates are requested with some variables fixed to given values, every returned candidate carries exactly these values for these variables, zero, False and the empty string included, in both phases of the optimization. The remaining variables stay admissible, the requested number is returned as long as the free variables leave enough points, and a later request without fixed variables is not affected.",
      ["inputs", "configurations"], "every proper subset of variables, values, optimizer classes, output formats, phases",
      "The tests fix one variable to one value; falsy values, multiple variables and the different phases are combinations they do not reach.",
      [B + "base.py", B + "bayes_opt.py", B + "utils/utils.py"], [("partial evaluation of the acquisition function", B + "utils/utils.py: partial_argument"), ("ask(fixed=...)", B + "base.py")],
      MC % ("subsets of fixed variables and values", "the fixed values"), "Exhaustive over subsets of up to 3 of 4 variables with two values each."),
    P("P03", "No point is proposed twice, and a finite space is covered before it ends",
      "Candidates differ from all points evaluated so far and from each other within one batch. On a finite search space the optimizer proposes every point exactly once, keeps returning the points that are left when fewer than requested remain, and only when none is left reports that no candidate can be found.",
      ["histories", "inputs", "configurations"], "every subset of already evaluated points, every preference of the surrogate, batch size and random draws on small finite spaces",
      "Duplicates only arise when the acquisition optimum coincides with an evaluated point, which depends on the history; the tests do not run any space to exhaustion.",
      [B + "base.py", B + "bayes_opt.py", B + "solution.py"], [("duplicate removal and filling up", B + "base.py: pre_eval_check, ask")],
      MC % ("evaluated subsets, surrogate preferences and draws", "set arithmetic on the enumerated space"), "All subsets of spaces with up to 6 points (a quarter of them at 7-8 points in the quick tier); spaces of up to about 1000 points with all but one or two points evaluated."),
    P("P04", "Telling observations records exactly the successful ones, in order",
      "After any sequence of tells, the recorded data are exactly the points with finite objective values, each with its own value, in the order told, for every input format (lists, dictionaries in any key order, solution objects) and number of objectives. Failed evaluations (not-a-number or infinite) are dropped without affecting other points, even if a whole batch fails. The evaluation counter grows by one per told point (and objective), the iteration counter by one per tell.",
      ["histories", "inputs", "fault_sequences"], "all sequences of tells with any mix of finite and failed values",
      "The tests tell finite values in one format.",
      [B + "base.py", B + "mobo.py", B + "solution.py"], [("tell / post_eval_check", B + "base.py"), ("multi-objective tell", B + "mobo.py")],
      MC % ("sequences of tells", "a list model of the history"), "All sequences of three operations (four in the thorough tier) over the stated alphabets."),
    P("P05", "Incumbent, recommendation and stopping follow the whole history",
      "At any time the incumbent and the recommendation are a recorded point whose value is the best recorded one in the direction of optimization (minimum or maximum). The optimizer reports that it should stop if and only if the evaluation budget is used up or the best recorded value passed the target, or it was told to stop.",
      ["histories", "inputs", "configurations"], "all sequences of tells, both directions, targets and budgets",
      "The tests minimize and look at the end of one run.",
      [B + "base.py", B + "_base.py"], [("check_stop, recommend, xopt/fopt", B + "base.py"), ("comparison", B + "utils/utils.py")],
      MC % ("sequences of tells", "a list model of the history"), "All sequences of three batches; exact equality with the target is left open."),
    P("P06", "A run spends its budget, no more than a batch over, and reports what it saw",
      "Running an optimization evaluates the objective until the budget is spent or the target is passed and then stops, exceeding the budget by less than one batch; no evaluation is lost or double-counted and every evaluated point and value appears in the data. The returned optimum is the best value observed and a point where it was observed, including with failed evaluations and when minimizing through the function interface with any form of bounds. An exception of the objective reaches the caller and leaves the data gathered before intact.",
      ["histories", "inputs", "configurations", "fault_sequences"], "all result scripts of bounded length, sizes of initial design and batch, budgets, targets, directions",
      "The tests run fixed objectives to the end and check little about counts or results.",
      [B + "base.py", B + "_base.py", B + "__init__.py"], [("run / step / evaluate", B + "_base.py, base.py"), ("fmin", B + "__init__.py")],
      MC % ("objective result scripts", "a recording objective"), "All scripts of length four over the value alphabet; exceptions at every evaluation."),
    P("P07", "Saving and loading is invisible to the optimization",
      "An optimizer that is saved and loaded, at any point of its life and in the same or a fresh process, behaves from then on exactly as one that was never saved: same data, counters, incumbent and, for the same random numbers, same candidates. Saving does not change the optimizer being saved, and the loaded one shares nothing with it.",
      ["histories", "configurations"], "all interleavings of asking, telling, saving and loading up to a depth, for every optimizer class",
      "The tests save once at the end of the initial design.",
      [B + "base.py", B + "_base.py"], [("save / load / pickling state", B + "base.py")],
      MC % ("operation sequences with save/load at every position", "the save-free execution of the same sequence"), "All sequences of three operations for each of the configurations."),
    P("P08", "An interrupted or failed save destroys neither checkpoint nor optimizer",
      "If the process dies or an error occurs at any point during a save, the file of the previous save, if any, can still be loaded and is complete, or the new state is. After an error the optimizer itself continues as if no save had been attempted, and the next save succeeds.",
      ["crash_points", "fault_sequences"], "every file-system effect, torn write and serialization step of a save as the point of a crash or error",
      "No test interrupts a save.",
      [B + "base.py"], [("save", B + "base.py: save")],
      "systematic fault injection into the real save: every crash point, torn write and error at every file operation is enumerated and executed, then loaded and continued", "Process deaths and errors; no loss of data that reached the operating system.", level="fault_enumeration"),
    P("P09", "Constraints: sampled and proposed points are feasible",
      "Sampling from a constrained space, the initial design and every later candidate yield points that satisfy the inequality constraints and the equality constraints up to the tolerance, after rounding and with fixed variables in place, or fewer points/an error if none can be found. Constraint functions are only ever called with complete points inside the bounds and levels of the variables, in the format the user declared, and an exception in them reaches the caller.",
      ["inputs", "configurations", "fault_sequences"], "all listed constraint systems and spaces, draws, surrogate preferences, fixed variables",
      "The tests use one constraint on one space with one seed.",
      [B + "search_space/samplers.py", B + "search_space/search_space.py", B + "base.py", B + "acquisition/optim/"], [("SCMC sampler", B + "search_space/samplers.py"), ("constraint handling in ask", B + "base.py")],
      MC % ("random draws (deviation-bounded), surrogate preferences and constraint systems", "direct evaluation of the constraints"), "Sampler chains are shortened for the exploration."),
    P("P10", "The dynamic penalty vanishes exactly on the feasible set",
      "The penalty for constraint violations is zero for feasible points, positive for infeasible ones, has the sign that makes infeasible points worse in the direction of optimization, and grows with time and with the violation. It is computed per point, in order, whatever the number of points and the form of the constraint results.",
      ["inputs", "configurations"], "all constraint values, numbers of points and constraints, times and parameters of the bound",
      "No test calls it with several points or forms.",
      [B + "utils/utils.py"], [("dynamic penalty", B + "utils/utils.py: dynamic_penalty")],
      MC % ("constraint value assignments", "the documented formula"), "All assignments over an eight-value alphabet."),
    P("P18", "Pareto-efficient subsets are exactly the non-dominated points",
      "The efficient set computed from any objective vectors, for any combination of minimized and maximized objectives, is exactly the set of vectors no other vector dominates, duplicates included, at any scale of the values. The incumbent of the multi-objective optimizer is at any time the non-dominated part of the data told so far.",
      ["inputs", "histories"], "all sequences of vectors over small grids, direction vectors, scalings",
      "The tests run one optimization and never compare with the definition.",
      [B + "utils/multi_objective/", B + "mobo.py"], [("is_non_dominated / NonDominatedPartitioning", B + "utils/multi_objective")],
      MC % ("sequences of objective vectors", "the definition of dominance"), "All sequences of four vectors over the grids."),
    P("P19", "Hypervolume and box decompositions match the dominated region",
      "For every set of points and reference point the computed hypervolume is the volume of the region dominated by the points above the reference point, and the boxes of a decomposition are disjoint, cover exactly the non-dominated region, whatever the order, duplicates or dominated points. Adding points in several updates gives the same result as all at once.",
      ["inputs", "histories"], "all point sets of bounded size on grids in 2-4 dimensions, reference points, update splits",
      "No test compares with the definition.",
      [B + "utils/multi_objective/"], [("Hypervolume, box decompositions", B + "utils/multi_objective")],
      MC % ("point sets and update splits", "a cell count"), "All sets of the stated sizes on the grids."),
    P("P20", "The expected hypervolume improvement is the expectation it names",
      "For every approximation of the Pareto front, reference point and independent normal predictions, the expected hypervolume improvement of a point equals the expectation of the gain in hypervolume.",
      ["inputs"], "all fronts on small grids, means and deviations",
      "No test compares the value with an independent computation.",
      [B + "multi_objective/analytic.py", B + "utils/multi_objective/"], [("ExpectedHypervolumeImprovement", B + "multi_objective/analytic.py")],
      MC % ("fronts, reference points and predictions", "exact cell integration"), "Single precision tolerance."),
    P("P21", "Acquisition functions equal their definitions in both directions",
      "Expected improvement, probability of improvement, confidence bound and the moment-generating function of the improvement equal their closed forms for every mean, standard deviation, incumbent and parameter, whether the objective is minimized or maximized, and their gradients are the derivatives of their values. A prediction without uncertainty yields a finite value.",
      ["inputs", "configurations"], "all combinations of means, deviations, incumbents, parameters and directions of the grids",
      "The tests evaluate some functions at one point with one model.",
      [B + "acquisition/acquisition_fun.py"], [("EI, PI, UCB, MGFI", B + "acquisition/acquisition_fun.py")],
      MC % ("predictions, incumbents and parameters on grids", "closed forms and central differences"), "One point at a time."),
    P("P22", "Inner optimizers return the best point they evaluated, inside the box",
      "Every internal optimizer (evolution strategies and restarted gradient ascent) evaluates only admissible points, returns the best one it evaluated with its value in the direction asked for, counts its evaluations, and stops within one generation of its evaluation budget or its target. Under constraints the (1+1) strategies never give up a feasible point for an infeasible one, and the mixed-integer strategy prefers the feasible among equally good points. This holds for all outcomes of the objective, ties included, and all random draws.",
      ["inputs", "histories", "configurations"], "all outcome sequences of bounded length, random draws (deviation-bounded), spaces, directions",
      "The tests run fixed objectives and check convergence only.",
      [B + "acquisition/optim/"], [("OnePlusOne_CMA, MIES, argmax_restart", B + "acquisition/optim")],
      MC % ("outcome sequences and random draws", "a recording objective"), "Unconstrained problems."),
    P("P23", "Reflection at the box boundary keeps points in the box and inner points fixed",
      "Any vector is mapped into the box, vectors inside are returned unchanged, coordinates are treated independently (unbounded sides included), repeated reflection changes nothing, and the caller's array is not modified.",
      ["inputs"], "all vectors over the listed relative positions and boxes",
      "No test covers it.",
      [B + "utils/utils.py"], [("handle_box_constraint", B + "utils/utils.py")],
      MC % ("coordinates and boxes", "the reflection formula"), "All vectors of up to two coordinates (three in the thorough tier), half-open and unbounded sides included."),
    P("P11", "The random seed determines the run, and optimizers do not influence each other",
      "Two optimizers made with the same arguments and the same random seed, zero included, propose the same candidates for the same observations. The seed takes effect when the optimizer is made and is not applied again later, and an optimizer without a seed never resets the random generator. Optimizers used side by side, even when they share the search-space object or dictionaries of options, keep separate data, counters and results, and the caller's dictionaries and data are left as they were.",
      ["configurations", "histories", "schedules"], "all seeds of the list, optimizer classes and all interleavings of the operations of two optimizers up to a depth",
      "Tests use one seed and one optimizer at a time; shared mutable state only shows in particular interleavings.",
      [B + "_base.py", B + "base.py", B + "bayes_opt.py", B + "search_space/search_space.py", B + "__init__.py"], [("random_seed", B + "_base.py"), ("search space seeds", B + "search_space/search_space.py")],
      MC % ("interleavings of two optimizers and seeds", "the separate executions"), "All interleavings of three operations per optimizer; one process (n_job=1)."),
    P("P12", "Search-space algebra acts like an ordered list of uniquely named variables",
      "Summing, subtracting, replicating, slicing, removing, filtering, updating, renaming and assigning on search spaces gives exactly the variables, in the order and with the attributes that the same operation gives on an ordered list of named variables: names stay unique, nothing is lost, duplicated or swapped, the derived indices, bounds and levels agree with the variables, and the operands are left unchanged, also by later operations on the result. A space obtained by any such sequence behaves like one made directly from the resulting variables.",
      ["inputs", "histories"], "all sequences of operations up to a depth over a catalogue of spaces",
      "Tests apply single operations to single spaces; stale derived data only shows after sequences.",
      [B + "search_space/search_space.py"], [("SearchSpace operators", B + "search_space/search_space.py")],
      MC % ("operation sequences", "an ordered-list model of named variables"), "All sequences of up to two operations (three in the thorough tier)."),
    P("P13", "Sampling covers the declared space, stratified as the method promises",
      "For every outcome of the random numbers, each sampled value of a variable is the quantile of its declared distribution: uniform on the declared scale for real variables, equally likely steps and categories otherwise, both ends reachable. Latin hypercube designs put exactly one point into each stratum of every real variable and Sobol designs are balanced; the requested number of points is returned, each is a member of the space, and the membership test accepts exactly the admissible values.",
      ["inputs", "configurations"], "all outcomes of the random draws on a lattice, scales, precisions, steps and sampling methods",
      "Tests draw a few samples and check shapes; off-by-one steps and unreachable ends need particular draws.",
      [B + "search_space/variable.py", B + "search_space/samplers.py", B + "search_space/search_space.py"], [("sampling per variable", B + "search_space/variable.py"), ("designs", B + "search_space/search_space.py")],
      MC % ("random-number outcomes on a lattice", "quantile functions of the declared distributions"), "Lattice of outcomes including the ends."),
    P("P14", "Search spaces survive the round trip through dictionaries and files",
      "Writing a search space as a dictionary or JSON file and reading it back gives a space with the same variables, order, types, bounds, scales, precision, steps, categories, default values and conditions. Declarations as dictionaries, abbreviated types and repeated variables included, give the declared variables, and declarations that make no sense (reversed, missing or superfluous bounds, no levels, no positive step, unknown types, default values outside the range) are rejected.",
      ["inputs"], "all combinations of variables of the catalogue, orders, conditions and declaration forms",
      "Tests read one file.",
      [B + "search_space/search_space.py", B + "search_space/variable.py"], [("from_dict / to_dict / from_json / to_json", B + "search_space/search_space.py")],
      MC % ("declarations", "the declared attributes"), "All pairs and triples of the catalogue."),
    P("P15", "Conditional subspaces are exactly the sets of variables active together",
      "For every conditional search space, the unconditional subspaces are exactly the combinations of variables that are active for some choice of the conditioning values: each combination once, with the conditioning values fixed, whatever the order in which the variables are declared and after any round trip, slicing, removal or sum.",
      ["inputs"], "all conditional structures up to a size, orders of declaration",
      "Tests use two fixed spaces.",
      [B + "search_space/node.py", B + "search_space/search_space.py"], [("get_unconditional_subspace", B + "search_space/search_space.py")],
      MC % ("conditional structures", "brute-force enumeration of assignments"), "Forests of up to four variables (five in the thorough tier)."),
    P("P16", "Conditional optimization proposes complete, consistent configurations",
      "Every candidate of the optimizer for conditional spaces names all variables, the active ones carry admissible values, the inactive ones None, and the conditions that make variables active hold. Initially every subspace is proposed once before any is repeated. Observations, failed ones included, are recorded, counted and attributed to the right subspace, whose surrogate learns all of them, and the recommendation is the best recorded configuration.",
      ["histories", "inputs", "fault_sequences"], "all small conditional structures, subspace selections and result scripts up to a depth",
      "Tests run one space with one seed.",
      [B + "extension.py", B + "search_space/node.py"], [("ConditionalBO", B + "extension.py")],
      MC % ("subspace selections and result scripts", "the subspace model of the structure"), "Tells follow the order of the asked candidates."),
    P("P17", "The solution container behaves like a table of records",
      "Solutions with their index, fitness and evaluation counts behave like a table: slicing, indexing (negative and numpy integers included), concatenation, replication, copying, conversion to and from dictionaries and CSV output keep each record together and in order, values keep their types, assignments through a slice change exactly the selected records, and the source of a copy stays unchanged.",
      ["inputs", "histories"], "all operation sequences up to a depth on tables of up to four records with one or two objectives",
      "Tests check some shapes; attributes getting out of step with rows shows in particular sequences only.",
      [B + "solution.py"], [("Solution", B + "solution.py")],
      MC % ("operation sequences", "a list-of-records model"), "All sequences of up to two operations (three in the thorough tier)."),
    P("P24", "The random forest predicts each point by itself and tells categories apart",
      "A prediction of the random-forest surrogate depends on the point alone: not on the other points predicted with it, their order, the container they come in or the number of threads. Values of categorical variables of any type are told apart, whatever the position of the variable, prediction and uncertainty are mean and variance of the trees, refitting replaces the data, and aggregated models combine means and variances with the given weights.",
      ["inputs", "configurations"], "all value assignments and training subsets on small mixed spaces",
      "Tests print predictions of one data set.",
      [B + "surrogate/random_forest.py"], [("RandomForest, SurrogateAggregation", B + "surrogate/random_forest.py")],
      MC % ("data sets on small spaces", "interpolation, self-consistency and the reference forest"), "Spaces of up to eight points."),
    P("P25", "Parallel evaluation gives every candidate its own value",
      "When candidates are evaluated by several workers, every value reaches the candidate it belongs to, whatever the order in which the workers finish, every candidate is evaluated exactly once, failed values concern only their own candidate, and an exception of one evaluation reaches the caller. The same holds for objectives that evaluate a whole batch, whatever container they return.",
      ["schedules", "fault_sequences"], "all completion orders of the running evaluations, positions of failures, batch sizes and numbers of workers",
      "Tests run one schedule, the one the machine happens to produce.",
      [B + "_base.py", B + "base.py", B + "bayes_opt.py"], [("evaluate", B + "_base.py")],
      "stateless model checking of the real code under a controlled scheduler: every completion order of the workers is enumerated", "Batches of two and three (four in the thorough tier)."),
    P("P26", "Warm-start data count as knowledge, not as evaluations",
      "Data given to an optimizer before its first iteration, as lists, dictionaries or solution objects and with failed values among them, are recorded like observations and set the incumbent, but count neither as evaluations nor as iterations. The initial design is skipped if any of them succeeded, the next candidates are those proposed after telling the same data, no given point is proposed again, and the budget is spent on new evaluations only.",
      ["inputs", "configurations", "histories"], "all value sequences up to a length, formats, optimizer classes, budgets",
      "The tests warm-start with one format and string categories.",
      [B + "base.py"], [("warm_data", B + "base.py")],
      MC % ("warm-start data", "a list model and an optimizer told the same data"), "Up to three points (four in the thorough tier); single objective."),
    P("P27", "Proposals come from a surrogate of all data and maximize the acquisition",
      "After every tell the surrogate is trained on exactly the recorded points with values that are an increasing affine image of the recorded ones. In the model-based phase the acquisition functions use this surrogate, the optimizer's direction and the best value on the surrogate's scale, are evaluated with the fixed variables in place, and the candidate is the point where the acquisition was largest among all points evaluated in the search, unless it is a duplicate.",
      ["histories", "inputs", "configurations"], "all sequences of batches up to a depth, optimizer classes, directions, fixed variables",
      "Tests look at final results, which hardly change when stale data or the wrong incumbent is used.",
      [B + "base.py", B + "bayes_opt.py", B + "extension.py", B + "acquisition/"], [("update_model, arg_max_acquisition", B + "base.py"), ("plugin", B + "bayes_opt.py")],
      MC % ("sequences of batches", "recorded training data and acquisition evaluations"), "Batches of up to two values; stand-in surrogate."),
    P("P28", "Acquisition parameters are the caller's, varied per candidate and schedule",
      "A single candidate is sought with exactly the parameters given by the caller, or the documented defaults. In a batch each candidate uses its own parameter drawn around the given one (positive, or within the unit interval) and the base value does not drift. Annealing starts at the initial value, follows the exponential or linear schedule with every iteration and ends at the final value when the budget is spent; self-adaptation moves to the mean of the better half; alternating acquisition functions are used equally.",
      ["configurations", "histories", "inputs"], "all parameter values of the grids, draws, request patterns, schedules and budgets",
      "No test looks at the parameters used.",
      [B + "bayes_opt.py", B + "extension.py", B + "base.py"], [("parameter samplers, schedules", B + "bayes_opt.py"), ("MultiAcquisitionBO", B + "extension.py")],
      MC % ("parameters, draws and request patterns", "recorded acquisition evaluations"), "The logarithmic schedule is not covered."),
    P("P29", "The Gaussian process is the kriging predictor and its gradient the derivative",
      "For noise-free data the predictions of the Gaussian-process surrogate are those of kriging with the chosen trend and correlation function, the uncertainty is proportional to the kriging variance, never negative, and vanishes at the data. Predictions do not depend on which other points are predicted, in which order, container or batch size, or on earlier fits, several targets are each predicted like one alone, the given data are not changed, estimated correlation parameters stay within their bounds, gradients are the derivatives of mean and variance, also at the data, and the Hessian (squared-exponential correlation) is the second derivative of the mean.",
      ["inputs", "configurations"], "all data sets on small grids, trends, correlation functions, nuggets",
      "The tests fit one data set and only check that nothing raises.",
      [B + "surrogate/gaussian_process/"], [("predict, gradient", B + "surrogate/gaussian_process/gpr.py"), ("sklearn wrapper", B + "surrogate/gaussian_process/__init__.py")],
      MC % ("data sets on grids", "the closed-form predictor and central differences"), "Three to four points (five in the thorough tier)."),
    P("P30", "Dimensionality reduction keeps data and search in the original space",
      "The optimizer with linear dimensionality reduction records observations in the original space, exactly as told, with counters and incumbent as for any other optimizer. The reduced space contains the image of the whole box, mapping a reduced point to the original space and back does not move it, with all components nothing is lost, the surrogate is trained on the images of all recorded data, and candidates have the original dimension.",
      ["histories", "inputs", "configurations"], "all sequences of batches up to a depth with failed values, numbers of components, boxes, directions",
      "The test runs one optimization.",
      [B + "extension.py"], [("PCABO, LinearTransform", B + "extension.py")],
      MC % ("sequences of batches", "a list model and the geometry of the transformation"), "Dimensions two to four."),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            f.write(json.dumps(d) + "\n")
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
                    "technique": p["tech"], "level": p["level"], "level_note": p["note"]} for p in sorted(PROPS, key=lambda p: p["id"])],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks in /repo: the checks drive the public Python API and interpose on the random generator, the file system and the surrogate from outside.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
