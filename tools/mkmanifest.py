"""writes MANIFEST.json from the lists below"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "C01": "abstract interpretation (value numbering with solved loop recurrences): coverage functional over the solver calls of every batched entry point, async readers composed through their queues",
    "C02": "abstract interpretation: symbolic value of the stored result compared with the hidden layer of the selected rows; async writer composed with reader",
    "C03": "abstract interpretation: symbolic accumulated matrices of every solver, model and HH/HT file compared with norm*I + sum(H'H), sum(H'T)",
    "C04": "abstract interpretation of every solver implementation and of its LAPACK/cuBLAS calls: symbolic B compared with the solution of the accumulated system, deficient case included",
    "C05": "abstract interpretation: symbolic per-sample weights of every solver call compared with the class weight of the row; symbolic automatic weights compared with N/n_class",
    "C06": "abstract interpretation of sequences of model operations: symbolic solver state after every change of neurons; presence of stale solutions and refusal of prediction decided on the abstract heap",
    "C07": "alias and effect analysis by abstract interpretation: every in-place store on a caller's array, and every reference to one reachable from the model after each operation",
    "C08": "abstract interpretation of save composed with load (file and bytes): every field of the abstract target model compared with the saved one",
    "C09": "abstract interpretation with lock sets and critical sections: every access of an HH/HT file and every close/release on every path of the operations that use them",
    "C10": "communication-skeleton (Kahn network) analysis over the queue, process and store events of the abstract interpretation of caller and helper processes",
    "C11": "typestate of file handles by abstract interpretation: state of every handle at the return of every operation and helper process, and at every use",
    "C12": "abstract interpretation of every operation with ill-shaped and non-numeric symbolic data: no path may complete or pass the data to a computation (guard dominance)",
    "C13": "abstract interpretation: symbolic value of error()/validation_corr compared with the documented metric",
    "C14": "abstract interpretation: symbolic value of the confusion matrices compared with their definition",
    "C15": "abstract interpretation of the three searches (while loops as least-fixpoint trip counts): scored output of every candidate compared with the sub-model of one ranking prefix; kept neurons compared with the scores under random interpretations of the terms; result compared with plain training of the pruned model",
    "C16": "abstract interpretation: symbolic index sets of training, validation and test parts, judged for disjointness and coverage under random interpretations",
    "C17": "abstract interpretation: recurrence of the ranking state; every step of the recurrence compared with the lists of ranked and unranked neurons under random interpretations; symbolic use of the ranking by the searches",
    "C18": "abstract interpretation: symbolic hidden layer of every solver and neuron type compared with its definition (GPU kernels read from their CUDA source)",
    "C19": "abstract interpretation: symbolic neuron lists after every sequence of add_neurons, pruning and solver synchronisation compared with the requested groups",
    "C21": "abstract interpretation: every option spelling and combination of every train entry point is run symbolically, its observed effects (batch, range, structure, class mode, weights, discarded data) compared with the requested ones, and compared again with those of a second call after an arbitrary first call",
    "C23": "name-resolution and definite-assignment dataflow, attribute tables of the installed libraries, call-binding and format checks over all functions, plus definedness events of the abstract interpretation of every operation",
    "C24": "abstract interpretation: symbolic content, type and attributes of the created file compared with the rows and columns of the source, text files as symbolic line sequences",
    "C26": "abstract interpretation: row counts of every read of a data file and every block given to the solver compared with the batch size, growth of lists, queues and arrays",
    "C25": "abstract interpretation: symbolic content and attributes of the normalised file (tile recurrences) compared with (x-mean)/std of the whole data",
    "C20": "dtype inference (a set-valued abstract domain with NumPy promotion rules) over the value terms of the abstract interpretation",
    "C22": "taint analysis (noninterference by dependency) over value terms and control of the abstract interpretation; sources: random numbers, clock, environment, reporting interval, set order",
    "C27": "method-set and parameter compatibility of all solver classes, call-site binding, and abstract interpretation of every solver operation in every state (kind and device placement of results, solver class chosen)",
}
NOTE = ("Static: the current source is interpreted over symbolic data, shapes, batch sizes and ranges, loops are summarised by solving their "
        "recurrences; the package is never executed. Equalities are decided by normal forms, else by random interpretation of the two terms "
        "(a difference is exact evidence, agreement is probabilistic). Trusts the library semantics in sa/lib.py and the Python semantics in sa/interp.py; "
        "exact arithmetic (no rounding).")
NOTES = {}
NA = {
    "N01": "predictive accuracy and rounding error are runtime quantities of data and floating point; no static argument over the source bounds them",
    "N02": "the two files are updated one after the other without a journal, so the property does not hold by design; a static rule would only restate that",
    "N03": "whether the interval search meets the global optimum depends on the runtime error curve; C15 decides that every score belongs to the sub-model it selects",
    "N04": "throughput and overlap depend on hardware and schedule; nothing in the source bounds them",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in TECH:
            checks.append({"property": i, "quick_cmd": "python3 sa/check.py %s quick" % i, "thorough_cmd": "python3 sa/check.py %s thorough" % i,
                           "technique": TECH[i], "level": "other", "level_note": NOTES.get(i, NOTE)})
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
