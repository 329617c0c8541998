"""Regenerates properties.jsonl and MANIFEST.json from the table below.
Only properties with a check in pv/props are claimed."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PK = "parametricmatrixmodels/"


def P(id, title, statement, over, text, why, files, mech, note):
    return dict(id=id, title=title, statement=statement, over=over.split(),
                text=text, why=why, files=[PK + f for f in files],
                mech=mech, note=note)


T = [
 P("P01", "Affine builders return the affine (Hermitian) combination of the input",
   "For every parameter value and every input sample, the affine matrix and tensor builders return exactly the constant term (when enabled) plus the sum over features of feature times coefficient, plus the documented smoothing term. The Hermitian builders return an exactly Hermitian matrix built from the Hermitian part of each coefficient, and the low-rank builder builds its coefficients from its factors in the documented way. Each sample's result depends on that sample only and PyTree inputs keep their structure.",
   "inputs configurations", "all parameter and input values; bias on/off, flatten on/off, smoothing, real and complex, PyTree or array input",
   "tests check a few random values at default options; the identity must hold for all values and options",
   ["modules/affinehermitianmatrix.py", "modules/affinetensor.py", "modules/lowrankaffinehermitianmatrix.py", "modules/_smoothing.py"],
   ["_get_callable of the builders", "exact_smoothing_matrix"],
   "jaxpr of the module callable encoded over the reals (complex pairs); exact equality proved for all values at the stated sizes"),
 P("P02", "Eigenvalue and eigenvector selection picks exactly what `which` names",
   "For every Hermitian matrix in a batch, eigenvalue, eigenvector and eigensystem modules return exactly the requested number of eigenpairs named by `which` (smallest, largest, exterior or interior, by value or by magnitude), in ascending order of that key, with values and vectors paired. Not giving a count returns all of them.",
   "inputs configurations", "all spectra (any order of magnitudes, signs), all eight `which` codes, all counts up to the size, batched and PyTree input",
   "tests sample a few random spectra; the sign/magnitude orderings a selection rule must handle are combinatorial",
   ["eigen_util.py", "modules/eigenvalues.py", "modules/eigenvectors.py", "modules/eigensystem.py"],
   ["select_eigenpairs_by_eigenvalue and friends"],
   "eigh is an uninterpreted function with its ordering axiom; the selection logic is encoded and compared with a sorting network"),
 P("P03", "Observable sums equal their defining bilinear form",
   "For every set of states and every observable matrix, the transition amplitude sum and the expectation value sum return, per output, the documented sum over observables of squared transition amplitudes (or expectation values) between all given states, minus the documented centring term when centring is on. The observables used are the Hermitian parts of the parameters, and each sample is treated independently.",
   "inputs configurations", "all state vectors and observables; centred or not; complex and real; batch and PyTree forms",
   "tests compare a handful of random values against the same formula",
   ["modules/transitionamplitudesum.py", "modules/expectationvaluesum.py"],
   ["_get_callable"], "jaxpr encoded over the reals; centring norms by uninterpreted singular values"),
 P("P04", "Composite PMMs compute the model their options describe",
   "For every parameter value and input, the affine eigenvalue PMM returns the selected eigenvalues of the affine Hermitian matrix of the input, and the affine observable PMM returns the selected observable sum over the selected eigenvectors of that matrix plus the bias. Every constructor option (matrices given, smoothing, bias terms, which, centring, number of secondaries, expectation or transition form) has its documented effect.",
   "inputs configurations", "all parameter and input values for each option combination in the bounds",
   "tests only build the models and check shapes or one option set",
   ["modules/affineeigenvaluepmm.py", "modules/affineobservablepmm.py", "sequentialmodel.py"],
   ["compile builds the chain of modules", "SequentialModel._get_callable"],
   "the compiled model's callable is encoded with symbolic parameters and inputs"),
 P("P05", "Elementary layers compute their documented function",
   "For every parameter value and input, the bias, matrix-multiplication, linear, constant, PReLU, Einstein-sum, user-function and activation modules return exactly their documented function of the input, with documented options (shape forms, trainability, real or imaginary parts, parameter order, activation arguments) honoured. Samples are independent and PyTree inputs keep their structure.",
   "inputs configurations", "all parameter/input values; every activation class and its arguments; option combinations in the bounds",
   "tests check selected values of some layers",
   ["modules/bias.py", "modules/matmul.py", "modules/linearnn.py", "modules/constant.py", "modules/prelu.py", "modules/einsum.py", "modules/funcbase.py", "modules/activationbase.py", "modules/_autogenerated_activationfuncs.py"],
   ["_get_callable of the modules"], "jaxpr encoded over the reals; transcendental primitives uninterpreted"),
 P("P06", "Structural modules rearrange data without changing or mixing it",
   "Reshape, flatten, tree-flatten, concatenate-leaves and tree-key modules return every input element exactly once at its documented position, never changing a value and never moving data between samples. Leaves that a module is told to leave alone are unchanged.",
   "inputs configurations", "all input values; shapes, axes, paths and tree structures in the bounds",
   "tests check a few shapes; a transposed or mis-ordered rearrangement can agree on them",
   ["modules/reshape.py", "modules/flatten.py", "modules/treeflatten.py", "modules/concatenateleaves.py", "modules/treekey.py", "modules/comment.py"],
   ["_get_callable of the modules"], "jaxpr encoded with one symbolic variable per element"),
 P("P07", "Sequential models compose their modules, routing parameters, state and keys",
   "For every input, a sequential model's output is the composition of its modules in order, each applied with its own parameters, state and random key, and the state it returns holds each module's new state. Reading parameters or state and setting them back changes nothing, and the model callable does not depend on the parameters stored in the model.",
   "inputs configurations histories", "all inputs, parameters, states; module container kinds (list, tuple, dict, nested models)",
   "tests check shapes and one composition",
   ["sequentialmodel.py", "model.py"], ["SequentialModel._get_callable", "get_params/set_params", "get_state/set_state"],
   "jaxpr of the compiled model with stateful/random spy modules"),
 P("P08", "Non-sequential models compute the dataflow their connections describe",
   "For every input and every valid connection graph, each module receives exactly the pieces of the model input and of other modules' outputs that the connections name, in the named structure, and the model output is assembled the same way. Parameters and state are routed to the module they belong to.",
   "inputs configurations", "all input values over a family of graph topologies and connection spellings",
   "tests cover a few graphs",
   ["nonsequentialmodel.py", "graph_util.py", "tree_util.py"], ["NonSequentialModel._get_callable", "place_connections_in_tree"],
   "jaxpr of the compiled model with distinguishable affine modules"),
 P("P09", "Batched evaluation equals evaluating everything at once",
   "For every input and every batch size, evaluating a model or differentiating it in batches returns the same result, in the same order, as doing it in one piece, including when the batch size does not divide the number of samples.",
   "inputs configurations", "all inputs, numbers of samples and batch sizes in the bounds; models with and without state",
   "tests use one or two sizes", ["model.py", "model_util.py"], ["autobatch"],
   "jaxpr of the wrapped callable for each (samples, batch size) in the bounds"),
 P("P10", "Model gradients are the derivatives of the model",
   "For every input and parameter value, the input gradient and the parameter gradient of a model are the exact partial derivatives of its output with respect to that input or parameter, laid out per sample, with the documented option of batched or reverse/forward modes giving the same answer.",
   "inputs configurations", "all inputs and parameters of differentiable models in the bounds",
   "tests check finite differences at single points",
   ["model.py"], ["grad_input", "grad_params"], "jaxpr encoded over the reals and compared with analytic derivatives"),
 P("P11", "Losses equal their definition",
   "For every prediction, target and uncertainty, each built-in loss equals its documented formula (uncertainties weight the residuals, complex residuals count by modulus), over array and PyTree outputs alike, and is zero for a perfect prediction.",
   "inputs configurations", "all predictions, targets and uncertainties; array and PyTree; each named loss",
   "tests only train with a loss and look at the result decreasing",
   ["training.py", "model.py"], ["make_loss_fn"], "jaxpr encoded over the reals"),
 P("P12", "The optimizer step is Adam and changes only trainable parameters",
   "For every gradient history, each optimizer update equals the Adam formulas (with bias correction and with gradient clipping as documented), for real and complex parameters. Parameters of modules that are not trainable, at any nesting depth, keep their value through training, and every trainable parameter is updated.",
   "inputs histories configurations", "all gradients, moments and parameters; trainable/frozen patterns incl. nested models",
   "tests train for some epochs and check the loss or one frozen layer",
   ["training.py", "model.py"], ["adam / complex_adam", "get_trainable_modules"], "jaxpr of the real update and of a training epoch"),
 P("P13", "The training loop stops, validates and returns the best parameters as documented",
   "From every loop state, one epoch updates the epoch counter, the best validation loss, the best parameters and the patience count as documented, and the loop continues exactly while the epoch limit, patience, target loss and cancel conditions allow it. Validation never changes parameters, and training returns the parameters with the best validation loss seen. Every training step gives the modules a random key of its own, the key the callback returns is the one the next epoch uses, and training again does not repeat the keys.",
   "histories inputs configurations", "every history of losses, parameters and keys for the numbers of epochs in the bounds",
   "tests run short trainings; stop conditions need particular loss histories",
   ["training.py"], ["the while loop of train"], "jaxpr of Model.train, loop included, for every loss, parameter and key history up to the stated number of epochs"),
 P("P14", "Shuffling and batching is a partition of the data",
   "For every random key and data set, shuffling applies one permutation consistently to inputs, targets and uncertainties, and cutting into batches yields every sample exactly once with the remainder in its own batch. Splitting and recombining returns the original data.",
   "inputs configurations", "all data values, keys, sample counts and batch sizes in the bounds",
   "tests cover one or two sizes", ["tree_util.py", "training.py"], ["random_permute_leaves", "batch_leaves", "pytree_split"],
   "jaxpr encoded with the permutation symbolic"),
 P("P15", "Scalers and encoders invert exactly and hit their documented target",
   "For every fitted data set, inverse-transforming a transformed value returns the value, and transformed training data has the documented range, mean, standard deviation or median and quantile spread; constant features are shifted but not scaled. A fitted scaler that is saved and loaded (through memory or a file) behaves the same. One-hot encodings mark exactly the category of each sample.",
   "inputs configurations", "all data values, constant features included; array and PyTree; all scaler options",
   "tests use random samples at default options", ["preprocessing/"], ["fit/transform/inverse_transform"],
   "jaxpr of fit+transform+inverse over symbolic data"),
 P("P16", "Saving and loading a module or model changes nothing",
   "For every module and model, serializing it and loading it into a fresh object (through memory or a file) gives an object with the same parameters, state, trainability, hyperparameters and the same output for every input.",
   "inputs configurations histories", "all parameter and input values for every module type and option set in the bounds",
   "tests round-trip a few models", ["modules/basemodule.py", "model.py", "modules/"], ["serialize/deserialize", "save/load"],
   "serialize/deserialize executed under tracing with symbolic parameters; outputs of the loaded object proved equal"),
 P("P17", "Editing a model keeps its module list, readiness and output consistent",
   "After every sequence of append, prepend, insert, remove, replace and combine operations, a model holds exactly the modules a plain list (or dict) would hold, later calls use them and never a stale compiled version, and operands of combining operations are not changed.",
   "histories", "all sequences of edits up to the bounded length",
   "tests exercise single edits", ["model.py", "sequentialmodel.py", "nonsequentialmodel.py"], ["Model edit methods", "reset"],
   "edit histories explored by forking symbolic execution of the real methods"),
 P("P18", "Graph resolution yields a valid execution order or rejects the graph",
   "For every connection graph, resolving from start to end returns an order containing each node that is on some path from start to end exactly once, every node after all nodes it needs. It rejects exactly the graphs that have no such order.",
   "inputs", "all directed graphs up to the bounded number of nodes",
   "tests cover a dozen graphs", ["graph_util.py"], ["resolve_connections"],
   "the real function is executed over symbolic node names by a forking executor with solver-decided equality"),
 P("P19", "Connection specifications expand to exactly the edges they name",
   "For every connection specification (from module outputs or parts of them to one or several modules or parts of their inputs), expansion yields exactly the point-to-point connections it denotes, and placing values along them puts each named value at each named place and nothing else.",
   "inputs configurations", "all key/path strings (as atoms) up to the bounded number and depth",
   "tests cover a few specifications", ["graph_util.py", "tree_util.py"], ["concretize_connections", "place_connections_in_tree"],
   "forking symbolic execution over path atoms"),
 P("P20", "Tree path operations are consistent with each other",
   "For every tree, reading a path, setting a path and extending a structure by paths agree with each other and with the tree's own indexing: a set or filled value is read back at its path, everything else is unchanged, existing values are not overwritten, and paths the tree does not have are reported as errors.",
   "inputs", "all trees and paths up to the bounded depth and width",
   "tests cover a few trees", ["tree_util.py"], ["getitem/setitem by path"],
   "forking symbolic execution over key atoms; leaves symbolic"),
 P("P21", "Conformal intervals use the finite-sample-valid quantile",
   "For every calibration set and miscoverage level, the calibrated score threshold is at least the ceil((n+1)(1-alpha))-th smallest calibration score, and predicted intervals are exactly the values whose score is within that threshold (score: absolute bias-corrected residual over the documented uncertainty heuristic, the same function in calibration and prediction). Recalibrating replaces earlier results, and saving and loading keeps the predictions.",
   "inputs histories configurations", "all scores, levels and counts in the bounds; sequences of calibrate/predict",
   "tests check coverage statistically on one data set", ["conformal/"], ["calibrate", "predict"],
   "jaxpr of the calibrated quantile and interval construction over symbolic scores"),
 P("P22", "Input checks and precision conversions are sound",
   "Malformed data given to a model's call, gradient or training methods (sample counts that differ between leaves, inputs and targets; wrong tree structure or feature dimensions; validation data without its partner) is rejected before any computation, and well-formed data is accepted. Casting data to a dtype or a model to a precision applies to every leaf, changes no value that the precision can represent, keeps complex parameters complex, and never silently discards the imaginary part of data.",
   "inputs configurations", "all sample-count/shape combinations in the bounds; every supported dtype",
   "tests cover one or two mismatches", ["model.py", "model_util.py", "training.py"], ["verify_input", "safecast", "set_precision"],
   "the real entry points run on stand-in arrays with symbolic dimensions (forking execution); casts traced with symbolic values"),
 P("P23", "Declared output shapes equal actual output shapes",
   "For every module and model and every valid input shape, the output shape declared by get_output_shape (before or after compiling, whatever was asked or compiled before) and the shape a model records have exactly the structure and per-sample dimensions of the value actually returned, whose leading axis is the batch.",
   "inputs configurations", "all valid input shapes in the bounds for every module type and option set",
   "tests compare a few shapes", ["modules/", "sequentialmodel.py", "nonsequentialmodel.py"], ["get_output_shape"],
   "the real shape functions run on symbolic integer dimensions (forking execution) and are compared with a trace of the real callable whose batch dimension stays symbolic"),
 P("P24", "Tree arithmetic and comparison helpers act leaf by leaf",
   "For every pair of trees and every value in them, the tree helpers for arithmetic (sum, difference, product, quotient, negation, modulus, squared modulus, roots, powers, scalar operations, concatenation) return a tree of the same structure whose every element is the documented function of the corresponding elements, the tree mean is the mean over all elements of all leaves, and the comparison helpers (equality, closeness, equal or uniform shapes along the given axes, single-leaf tests) answer true exactly when their documented condition holds.",
   "inputs", "all leaf values, real and complex, and all dimensions in the bounds, over the tree shapes listed",
   "tests compare a few example trees", ["tree_util.py"], ["add", "mean", "shapes_equal", "is_single_leaf"],
   "tree shapes as listed; values unbounded reals; dimensions 1..6"),
 P("P25", "Compiling initialises missing parameters and keeps given ones",
   "For every random key, compiling a module or model makes it ready and gives each parameter that was not supplied a random value of the documented shape: real or complex as configured, proportional to the initial magnitude, Hermitian where the module needs Hermitian matrices, reproducible from the key, and with no two free entries (of one parameter, of real and imaginary parts, of different leaves or of different modules) tied to each other. Parameters given to a constructor, and parameters or state already present when compiling again for the same input shape, come out unchanged.",
   "inputs", "all seeds, all draws, all given parameter values, for every parametrised module type and composed models",
   "tests look at one seed and at shapes", ["modules/", "sequentialmodel.py", "nonsequentialmodel.py"], ["compile"],
   "compile() traced with a symbolic seed; normal draws are free reals per key and entry; sizes as listed"),
 P("P26", "Modules and models report how many floats they train",
   "The number of trainable floats that a module reports is the number of real numbers its parameters consist of: one per real entry, two per complex entry, n squared for an n by n complex Hermitian matrix, zero for modules without parameters. A model reports the sum over its modules, and nothing that is not ready reports a number.",
   "configurations", "all feature dimensions, matrix sizes, ranks, numbers of outputs and other size options in the bounds, for every parametrised module type and for composed models",
   "tests look at one size", ["modules/", "model.py"], ["get_num_trainable_floats"],
   "sizes are symbolic integers; the real modules are built and compiled on every path and the reported count compared with the closed form"),
]

NA = []


def main():
    have = [p for p in T if os.path.exists(
        os.path.join(ROOT, "pv", "props", p["id"] + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in have + NA:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[
                    dict(name=m, where=p["files"][0]) for m in p["mech"]]))
            ) + "\n")
    mf = dict(version=1, setup_cmd="true", checks=[dict(
        property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick",
        thorough_cmd=f"bash check.sh {p['id']} thorough",
        technique="solver-based checking: symbolic execution of the real "
        "code (jaxpr or python source), z3 decides the negated property; "
        "counterexamples replayed on the real code",
        level="other",
        level_note="bounded symbolic verification: " + p["note"])
        for p in have], not_applicable=[dict(property=p["id"],
                                            reason=p["reason"]) for p in NA])
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(mf, f, indent=1)
        f.write("\n")


main()
