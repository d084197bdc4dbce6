#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so that they can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

E, H = "hpelm/elm.py", "hpelm/hp_elm.py"
T = "hpelm/modules/hdf5_tools.py"
S, SP, SG = "hpelm/nnets/slfn.py", "hpelm/nnets/slfn_python.py", "hpelm/nnets/slfn_skcuda.py"
V, CV, LOO = "hpelm/mss_v.py", "hpelm/mss_cv.py", "hpelm/mss_loo.py"
M1, M2 = "hpelm/modules/mrsr.py", "hpelm/modules/mrsr2.py"

p("C01", "Batched processing covers every selected sample exactly once",
  "For any number of samples N, any batch size and any istart/icount, each batched operation (training, prediction, projection, error, confusion matrix, validation; synchronous and asynchronous) processes exactly the rows istart .. min(istart+icount, N)-1, each of them exactly once, including the last incomplete batch. Every input row is processed together with the target (or prediction) row of the same index.",
  ["inputs", "configurations"], "all N, batch, istart, icount; ELM and HPELM; sync and async entry points",
  "The tests use a handful of tiny datasets that fit in a single batch with one or two istart/icount values; an off-by-one in the last batch, a lost offset or a skipped batch needs specific N/batch/istart combinations (the changelog lists two such historic bugs).",
  [E, H], [("batch loops: start/stop arithmetic, number of batches", "HPELM.add_data, add_data_async, predict, predict_async, project, _error, validation_corr; ELM.confusion"), ("np.array_split", "ELM.add_data"), ("istart/icount forwarding", "HPELM.train, train_async, error")],
  observe=["rows handed to the solver, rows read from the datasets"])
p("C02", "Predictions and projections land on the row of their input",
  "For any batch size, istart and icount, predict, project and predict_async store the result for input row istart+j in row j of an output with exactly as many rows as were selected. This holds whether the output is a new array, a supplied array or an HDF5 file, and all variants store the same values in the model's precision.",
  ["inputs", "configurations"], "all N, batch, istart, icount, output kinds",
  "Tests call predict/project once with the default range and a single batch, so a wrong output offset is invisible.",
  [H], [("output slice = input slice - istart", "HPELM.predict, project, predict_async"), ("output allocation", "make_hdf5((icount, ...)), np.zeros((icount, ...))"), ("writer process stores blocks at the requested rows", T + " _iwriter")],
  observe=["returned array / HDF5 file contents"])
p("C03", "Training data accumulates additively; regularisation counts once",
  "However the training data is divided over batches, calls or shared HH/HT files, the accumulated matrices are HH = norm*I + sum(H'H) and HT = sum(H'T) over all data fed since the last reset, with the norm term included exactly once. Merging a part into files adds that part to what the files already hold, and does not alter the model's own in-memory matrices or its norm.",
  ["inputs", "histories"], "all divisions of the data, all sequences of add_data calls with and without files",
  "Tests check only that add_data with files runs; a doubled or missing norm term, an overwrite instead of an addition, or an aliased in-memory matrix changes results slightly and only over multi-call histories.",
  [S, SP, SG, H, T], [("HH/HT initialised once with norm on the diagonal, then +=", "SLFN*.add_batch"), ("fresh files start as norm*I and zeros", "_prepare_fHH"), ("norm removed from the part before it is merged, node += part", "HPELM.add_data / add_data_async, _write_fHH")],
  [("HH, HT", "accumulated correlation matrices", "SLFN instances and fHH/fHT files")])
p("C04", "All solvers compute the same regularised least-squares solution",
  "Every solver solves HH*B = HT for the accumulated matrices and returns it from solve/solve_corr, whether the given HH is a full symmetric matrix or the solver's own triangular storage, and also when the primary method fails and the fallback for rank-deficient matrices is used. get_corr always returns the full symmetric HH and the matching HT (or nothing before any data), also after set_corr, so matrices can be moved between solvers and files.",
  ["inputs", "configurations", "histories"], "all data incl. rank-deficient, all solvers (basic, Python, GPU), matrices from memory or files",
  "The fallback is only reached with rank-deficient data, triangular/full confusion only after particular call sequences, and the GPU solver cannot run in the test environment at all.",
  [S, SP, SG], [("posv on the upper triangle, lstsq fallback on the symmetrised matrix", "SLFNPython.solve_corr, SLFNSkCUDA.solve_corr"), ("pseudo-inverse", "SLFN.solve_corr"), ("symmetrisation", "get_corr"), ("rank-k update of the upper triangle", "SLFNPython.add_batch")],
  [("HH", "upper triangle valid after rank-k updates, full after set_corr", "SLFNPython.HH")])
p("C05", "Class weights reach every weighted-classification training",
  "In weighted classification ('wc') every sample that contributes to the final model, for plain, HDF5, asynchronous and model-structure-selection training alike, is weighted by its class weight, applied as its square root to both the hidden-layer rows and the targets of that same sample. Weights given by the user are used as given; otherwise they are computed once from the class counts of all selected training rows, not from a single batch.",
  ["inputs", "configurations"], "all datasets, weights, batch sizes, training entry points",
  "Tests only check that 'wc' training runs, and compare one tiny case; losing the weights in one training path or computing them per batch still trains a plausible model.",
  [E, H, V, CV, LOO, S, SP, SG], [("wc vector from the batch's targets", "ELM.add_data, HPELM.add_data, add_data_async"), ("sqrt weighting of H and T", "add_batch"), ("automatic weights", "ns.sum()/ns over all rows"), ("final retraining", "train_v / train_cv / train_loo")])
p("C06", "Changing the neurons invalidates the old solution",
  "Whenever the set of neurons changes (adding, pruning, loading), output weights and accumulated matrices of the previous network are discarded and the neuron count equals the number of stored neurons; resetting the training data keeps the solved output weights and discards only the accumulated matrices. A model without output weights for its current neurons refuses to predict instead of using stale ones.",
  ["histories"], "all sequences of add_neurons / train / prune / reset / load / predict",
  "Tests use straight-line histories (add, train, predict); stale state needs sequences such as train, add neurons, predict.",
  [S, SP, SG, E, H], [("reset() and B=None after every change of neurons", "add_neurons, _prune"), ("B is not None assertion", "_predict, HPELM.predict, predict_async")],
  [("neurons, L, B, HH, HT", "network structure and solution", "SLFN instances")])
p("C07", "Caller's data is never modified or captured",
  "No operation modifies the arrays a caller passes in (inputs, targets, weights, biases, class weights, statistics, matrices), except output arrays explicitly passed to receive results. The model keeps no reference to caller arrays, so changing them after the call does not change the model.",
  ["inputs", "configurations"], "all public operations, all argument dtypes/layouts (incl. those for which numpy conversions return the same array)",
  "In-place damage depends on dtype/layout (e.g. when a cast is a no-op), and tests never compare inputs before and after a call.",
  [E, H, S, SP, SG, T, M1, M2, V, CV, LOO], [("copying casts before in-place arithmetic", "add_batch: T.astype / np.array(T)"), ("copies", "mrsr: X.copy, mrsr2: np.array, add_neurons: astype, set_B, set_corr, w = np.array(w)")])
p("C08", "A saved model loads back complete, replacing the target model",
  "Saving to a file or bytes stores every part of the model that predictions and errors depend on (inputs, outputs, neurons with weights and biases, norm, output weights, classification mode, class weights), and loading puts each of them back where it was saved from, through either route. Loading replaces whatever the target model contained, builds the kind of solver the target model was configured with, in the target model's precision, and leaves the saved output weights in effect.",
  ["histories", "configurations"], "all models (trained or not, any neuron types), all target models (empty or not, any accelerator/precision)",
  "Tests round-trip one trained model into an empty default model; a swapped key, a merge into a non-empty model or a lost field needs other combinations.",
  [E], [("saved dictionary", "ELM._get_output_format"), ("restoration", "ELM._update_from_output"), ("pickle file / bytes", "save, load, dumps, loads")])
p("C09", "Shared HH/HT files are only touched under their lock",
  "Parallel processes may add their parts to the same HH/HT files: every existence check, creation and read-modify-write made by a merging operation (add_data with fHH/fHT) happens while holding the inter-process lock that belongs to that file, the file is closed before the lock is released, and the lock is always released. Hence no process ever overwrites or loses a part written by another, also when the files do not exist yet. (solve_corr and validation_corr, which only read finished files, need no lock.)",
  ["schedules"], "all interleavings of any number of processes, files present or absent at start",
  "Tests run a single process; a lost update needs two processes interleaving inside a window of milliseconds.",
  [T, H], [("fasteners.InterProcessLock(<file>.lock)", "_write_fHH, _prepare_fHH")],
  [("fHH, fHT files", "shared accumulators on disk", "caller-supplied paths")])
p("C10", "Asynchronous training and prediction complete and match requests",
  "Asynchronous operations request every data block exactly once, consume the answers in the order of the requests, and hand each block to the computation or writer together with the rows it belongs to. On normal completion every helper process has been told to stop and has been waited for, after all of its results were consumed and never while it may still be blocked, so the call neither deadlocks nor returns before the data is stored.",
  ["schedules", "inputs"], "all interleavings of the reader/writer processes and all numbers of batches",
  "Tests run the async calls on 3-6 rows, i.e. with one batch; ordering and shutdown errors need several batches or a particular scheduling.",
  [H, T], [("request/response queues with a terminating request", "HPELM.add_data_async, predict_async"), ("reader/writer loops", "_ireader, _iwriter"), ("sentinel then join", "end of add_data_async / predict_async")])
p("C11", "Files are flushed and closed when an operation completes",
  "When an operation returns, every file it opened for writing has been closed (so its contents are complete on disk) and every file it opened for reading has been closed or is registered with the model, which closes its registered files on destruction. No file or array node is used after it was closed.",
  ["inputs", "histories"], "all operations, all argument kinds, all branches",
  "A leaked or prematurely closed handle shows only in branches tests do not take (e.g. data already normalised) or for later operations on the same file.",
  [E, H, T, "hpelm/modules/rbf_param.py"], [("open_file/close pairs", "predict, project, _checkcorr, make_hdf5, normalize_hdf5, _prepare_fHH, _write_fHH, _ireader, _iwriter, rbf_param"), ("opened_hdf5 list", "ELM._checkdata, ELM.__del__")])
p("C12", "Invalid data is rejected before it can affect the model",
  "Inputs, targets and predictions reach the computations only after being checked: numeric type, two dimensions (vectors become one column), the model's number of inputs/outputs, and equal numbers of samples in the inputs and targets of one call. Likewise weights and biases, class weights, output weights and correlation matrices (given directly or in files) are shape-checked before they are stored or merged, and training or predicting without neurons or without a solution is refused.",
  ["inputs"], "all argument shapes/types for all public entry points",
  "Tests check a few rejections of train(); the same check must guard every other entry point and every argument.",
  [E, H, S, SP, SG, T], [("_checkdata, _checkcorr, assertions", "ELM, HPELM"), ("set_B, set_corr assertions", "SLFN*"), ("existing file shape check before merging", "_prepare_fHH")])
p("C13", "Reported errors equal the documented metric, whatever the batching",
  "error() returns the mean squared error for regression, the fraction of wrongly predicted samples for classification, the class-weighted average of per-class misclassification rates (divided by the sum of the finite weights; a class without samples contributes zero error) for weighted classification, and the fraction of wrong labels at threshold 0.5 for multi-label. The in-memory and the HDF5 model compute the same value for the same data, independently of the batch size.",
  ["inputs", "configurations"], "all predictions/targets, modes, batch sizes, ranges, absent classes",
  "Tests evaluate 3-sample cases in one batch; wrong batch weighting, missing classes and range handling need larger or unusual data.",
  [E, H], [("_error", "ELM._error, HPELM._error")])
p("C14", "Confusion matrix counts true class by row, predicted by column",
  "In (weighted) classification the confusion matrix entry (i,j) is the number of samples whose true class is i and whose predicted class is j; in multi-label mode it is the number of samples with label i set and label j predicted (threshold 0.5). Every sample is counted for all pairs of classes, for any batch size.",
  ["inputs"], "all predictions/targets, numbers of classes and batch sizes",
  "Tests check one asymmetric 4-sample matrix in one batch and otherwise that the sum is positive.",
  [E], [("ELM.confusion", E)])
p("C15", "Model selection scores exactly the sub-model it would keep, then retrains",
  "During model structure selection each candidate of k neurons is the first k neurons of one ranking; its equations use the same neurons for rows and columns of HH and rows of HT, are built from training data only, and its error is measured on the intended validation/left-out data with those same neurons. The candidate kept is the one with the lowest penalised error among those compared, the search never drops the best candidate so far (in cross-validation every fold has its own ranking, and the final network uses that of the last fold), the network is pruned to exactly those neurons and retrained on the complete training data; cross-validation's returned error is that of the selected models on the test parts.",
  ["inputs", "configurations"], "all datasets, rankings, numbers of neurons, V / CV / LOO, with and without OP, and HPELM.validation_corr",
  "Mixing index sets or data sets gives plausible but wrong models; tests only compare average accuracy with loose tolerances.",
  [V, CV, LOO, H], [("candidate evaluation and interval search", "train_v, train_cv, train_loo"), ("leading sub-matrices", "HPELM.validation_corr"), ("final prune/add_data/solve", "train_v, train_cv, train_loo")])
p("C16", "Cross-validation folds are disjoint and cover all samples",
  "Cross-validation splits the samples into k disjoint parts that together contain every sample; in each of the k rounds one part is used for validation, one different part for testing and the remaining k-2 for training, with inputs and targets indexed identically. Over the k rounds every part serves exactly once as validation and exactly once as test part.",
  ["inputs"], "all N and k >= 3",
  "A leak between training and validation parts improves the reported error and passes every accuracy test.",
  [CV], [("strided index sets, rotated lists of parts", "train_cv")])
p("C17", "Neuron rankings contain no duplicates and respect kmax",
  "Both sparse-regression rankings move one not yet ranked neuron per step to the end of the ranking, so a ranking holds distinct valid neuron indices and at most min(kmax, number of neurons) of them; all auxiliary matrices stay aligned with the lists of ranked/unranked neurons. Without optimal pruning the ranking is a random permutation of all neurons; with it, kmax limits the number of neurons considered.",
  ["inputs"], "all hidden-layer and target matrices, incl. singular ones, all kmax",
  "Duplicates or misaligned columns appear only at particular steps and data; tests only check that training with 'OP' runs.",
  [M1, M2, E], [("i1/i2, rank/nonrank bookkeeping", "mrsr, mrsr2"), ("ELM._ranking", E)])
p("C18", "Every neuron type works and means the same in every solver",
  "Every neuron type a model accepts can be projected by every solver, with the documented transformation: lin XW+B, sigm 1/(1+exp(XW+B)), tanh(XW+B), and exp(-d(X,W')^2/B) with the city-block, Euclidean and Chebyshev distance for rbf_l1, rbf_l2 and rbf_linf; a custom numpy ufunc is applied to XW+B. The hidden layer is the concatenation of all neuron groups in their stored order.",
  ["configurations", "inputs"], "all accepted neuron types, all solvers",
  "The GPU solver is never run and several neuron types are only added, never projected, by the tests.",
  [S, SP, SG, E], [("func table", "SLFN.__init__, SLFNSkCUDA.__init__"), ("_project", "SLFN, SLFNSkCUDA"), ("flist", "ELM.__init__")])
p("C19", "Adding and pruning neurons keeps weights and biases together",
  "Adding neurons of an existing type appends their weights and biases after the existing ones of that type, adding a new type appends a new group, and neither changes existing neurons; numbers, weight columns and bias entries always agree. Pruning keeps exactly the neurons with the given indices, each with its own weight column and bias.",
  ["histories", "inputs"], "all sequences of add_neurons and prune, all index sets, all solvers",
  "Tests add neurons of one type twice and never prune directly; misaligned pruning needs several neuron types.",
  [S, SG, E], [("add_neurons, _prune", "SLFN, SLFNSkCUDA"), ("default initialisation and truncation of linear neurons", "ELM.add_neurons")])
p("C20", "Model parameters are kept in the configured precision",
  "Whatever the integer or floating-point dtypes of the given data, weights, biases, class weights or loaded parameters, the stored weights, biases, accumulated matrices and output weights of the model have the model's configured precision, and the numerical routines and output files are chosen for that precision.",
  ["inputs", "configurations"], "all input dtypes, both precisions, all solvers",
  "Tests check the precision attribute, not the dtype of stored parameters after training/loading with mixed dtypes.",
  [E, H, S, SP, SG, T], [("astype(self.precision), dtype=self.precision", "add_neurons, add_batch, set_B, set_corr, _update_from_output, predict, project"), ("ssyrk/dsyrk, sposv/dposv", "SLFNPython.__init__, SLFNSkCUDA.__init__")])
p("C21", "Training options are parsed completely and never leak between calls",
  "Each train call (ELM and HPELM, sync and async) honours every given option, independent of its letter case: V/CV/LOO, OP with kmax, C/WC/ML/MC/R, w, batch, istart, icount; mutually exclusive options are refused. Ranking, kmax, classification mode and class weights of an earlier train call never influence a later one, and previously accumulated data is discarded.",
  ["histories", "configurations"], "all combinations of options and sequences of train calls",
  "The option space is combinatorial and leaks need two consecutive train calls with different options.",
  [E, H], [("ELM._train_parse_args", E), ("dispatch in train", "ELM.train, HPELM.train, HPELM.train_async")])
p("C22", "Results depend only on data and parameters",
  "Apart from randomly initialised weights/biases that the caller did not supply and the random ranking used when 'OP' is not requested, no result depends on random numbers, the clock, the progress reporting interval, the environment or the iteration order of unordered collections. With weights and biases supplied, training and prediction are repeatable.",
  ["inputs", "schedules"], "all entry points, all tprint values and timings",
  "Time- or randomness-dependent behaviour may appear only for long runs (progress reports) or ties, which the tests do not have.",
  [E, H, S, SP, SG, M1, M2, V, CV, LOO, T], [("random initialisation only for missing W/B", "ELM.add_neurons"), ("np.random.shuffle", "ELM._ranking"), ("time() used only for progress reports", "HPELM")])
p("C23", "No code path relies on an undefined name or removed library facility",
  "Every function, method, attribute of a library module, keyword and file mode that any path of the package uses exists in the installed interpreter and libraries, every name is defined before use, and every internal call supplies the arguments its callee requires. So no input can drive the package into a NameError/AttributeError/TypeError of that kind, also in error handlers and fallbacks.",
  ["inputs", "configurations"], "all code paths incl. exception handlers and rarely used formats",
  "Python reports such errors only when the line runs; fallbacks, error handlers and rare formats are not run by the tests.",
  [E, H, T, M1, M2, "hpelm/modules/rbf_param.py", S, SP, SG, V, CV, LOO], [("library calls", "whole package")])
p("C24", "make_hdf5 stores every row and column of its source unchanged",
  "make_hdf5 writes all rows (after skiprows, which are skipped once) and all columns of the source array or text/npy file, in order, into one 2-dimensional array of the requested dtype, replacing an existing file; vectors become one column, a shape tuple gives an all-zero array of that shape. The result is marked as not normalised.",
  ["inputs"], "all shapes, sources, delimiters, dtypes, compression levels",
  "Tests only convert small arrays; the text readers are never run.",
  [T], [("make_hdf5", T)])
p("C25", "normalize_hdf5 applies (x-mean)/std exactly once to every row",
  "normalize_hdf5 replaces every element by (x - mean)/std column-wise, over all rows for any batch size, using the given mean and std or otherwise those of the stored data (zero deviations replaced by 1), and returns and records the mean and std it used. Data recorded as normalised is not normalised again unless mean and std are given, and the recorded values are returned instead.",
  ["inputs", "histories"], "all data, batch sizes, sequences of calls",
  "No test calls normalize_hdf5.",
  [T], [("normalize_hdf5", T)], [("attrs.mean / attrs.std", "normalisation record in the file", "HDF5 node attributes")])
p("C26", "HPELM touches the dataset only in blocks of at most batch rows",
  "HPELM training, prediction, projection, error calculation and validation (sync and async) read a dataset only through row slices of at most `batch` rows, and never load it or derive a full-length intermediate from it, so memory use is independent of the number of samples (apart from results requested in memory).",
  ["inputs", "configurations"], "all dataset sizes and batch sizes",
  "Tests use data of a few rows, where loading everything is indistinguishable.",
  [H, T], [("X[start:stop] with stop-start <= batch", "HPELM methods, _ireader")])
p("C27", "Solvers are interchangeable behind one interface",
  "Every solver offers all operations that models, model selection and file tools use, callable with the same arguments as the basic solver, and returning results of the same kind (numpy arrays or None, never device data). The requested accelerator name alone decides which solver is used, at creation and at loading; the solver regularises with the norm the model was given.",
  ["configurations"], "all accelerators, all operations",
  "The GPU solver cannot be imported in the test environment, so nothing checks its conformance.",
  [S, SP, SG, E, H, T], [("method set and signatures", "SLFN, SLFNPython, SLFNSkCUDA"), ("accelerator dispatch", "ELM.__init__, ELM._update_from_output")])

p("N01", "Predictive accuracy and numerical stability",
  "Trained models approximate well-behaved target functions, and the numerical error of the solution stays within a bound related to the conditioning of the hidden-layer matrix.",
  ["inputs"], "all datasets", "Accuracy on a few datasets says nothing about others.",
  [E, S, SP], [("solve", "SLFN*")])
p("N02", "A crash between the HH and HT updates leaves a consistent pair",
  "If a process dies while merging its part, the HH and HT files together represent a set of complete parts, so training can be resumed.",
  ["crash_points"], "all crash points during the merge", "Tests never interrupt the process.",
  [T], [("_write_fHH", T)])
p("N03", "Structure search finds the global optimum",
  "The interval search of model structure selection returns the number of neurons with the lowest penalised error over all candidates.",
  ["inputs"], "all error curves", "The error curve is a runtime quantity.",
  [V, CV, LOO], [("interval halving", "train_v, train_cv, train_loo")])
p("N04", "Throughput scales with cores and asynchronous I/O overlaps computation",
  "Asynchronous variants overlap disk access with computation and the solvers use all cores.",
  ["schedules"], "all hardware", "Timing is not asserted by tests.",
  [H], [("train_async, predict_async", H)])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P))
