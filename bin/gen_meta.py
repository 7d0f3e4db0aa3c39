#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, claimed=True, note="", reason=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, claimed=claimed, note=note, reason=reason, observe=observe or []))

I, H, C = "inputs", "histories", "configurations"
prop("C01", "Interval operations agree with the set of numbers an interval denotes",
 "Membership, emptiness, equality, intersection and union of intervals agree with the set of integers or reals the interval denotes, for every combination of open and closed bounds. The intersection contains exactly the common values, the union is the smallest interval containing both operands, and operands of different numeric types or null arguments are refused. A result may be stored over one of the operands.",
 [I], "all pairs of intervals over the full 64-bit integer and IEEE double domains, all bound inclusions, any probe value",
 "The interval test checks a few dozen hand-picked bounds; ties between open and closed bounds, extreme integers and in-place use are not sampled.",
 ["src/interval.c", "src/cconfigspace_internal.h", "include/cconfigspace/interval.h"],
 [("ccs_interval_empty/intersect/union/equal/include", "src/interval.c"), ("_ccs_interval_include", "src/cconfigspace_internal.h")],
 note="Loop-free contracts over the full input domain: complete proof.")
prop("C02", "Value comparison is a consistent total order and equal values hash alike",
 "Comparing two values gives a total order (antisymmetric, transitive) over values of every kind, in which equality means same kind and same content. Two values that compare equal have the same hash, and two bindings, configurations or feature sets compare equal exactly when they share their context and all their values are equal. Neither comparing nor hashing modifies its operands. Not-a-number floats are outside the guarantee.",
 [I], "all pairs and triples of values of every kind (none, integer, float, boolean, string, object, inactive), all bindings up to the stated length",
 "Tests compare a handful of values of the same kind; order laws quantify over pairs and triples of arbitrary values.",
 ["src/datum_hash.h", "src/cconfigspace_internal.h", "src/binding_internal.h", "src/binding.c", "src/configuration.c", "src/features.c"],
 [("_datum_cmp/_datum_hash", "src/datum_hash.h"), ("_ccs_binding_cmp/_ccs_binding_hash", "src/binding_internal.h")],
 note="Scalar comparison proved over the full domain; strings and bindings to a stated length are bounded.")
prop("C03", "Every scalar of the wire format round-trips and occupies its announced size",
 "Writing any scalar (integers of every width, sizes, floats, booleans, strings, values, intervals, enumerations) to a buffer writes exactly the number of bytes the size computation announced, advances the cursor by as much, and reading it back yields the identical scalar and consumes the same bytes. A buffer that is too small is refused with a not-enough-data error without writing or reading outside it.",
 [I], "all values of each scalar type, all buffer sizes",
 "Serialization tests write a few small objects into buffers of exactly the right size; boundary encodings and short buffers are not sampled.",
 ["src/cconfigspace_internal.h"],
 [("_ccs_serialize_bin_*/_ccs_serialize_bin_size_*/_ccs_deserialize_bin_*", "src/cconfigspace_internal.h")],
 note="Fixed width and varint codecs proved over the full domain (loops bounded by operand width, unwinding assertions on); strings bounded by length.")
prop("C04", "Serialized objects announce their exact size and read back equal",
 "For every kind of object, the announced serialized size is exactly the number of bytes serialization writes, a smaller buffer is refused without writing past its end, and deserializing those bytes gives an object of the same kind with the same observable content. Handles recorded during deserialization map every serialized reference to the rebuilt object.",
 [I, C], "all objects of each kind up to the stated sizes, all buffer sizes",
 "Tests serialize one or two instances of each kind with a right-sized buffer; field values and buffer sizes quantify over all instances.",
 ["src/cconfigspace.c", "src/parameter_internal.h", "src/parameter_deserialize.h", "src/distribution_uniform.c", "src/distribution_deserialize.h", "src/expression.c", "src/tree.c", "src/map.c"],
 [("per-object serialize_size/serialize/deserialize", "src/*.c, src/*_deserialize.h"), ("ccs_object_serialize/deserialize", "src/cconfigspace.c")])
prop("C05", "Reading a serialized stream never leaves the buffer it was given",
 "Deserializing any byte sequence of any length, valid, truncated or corrupt, either succeeds or returns an error; it never reads outside the supplied bytes, every decoding step consumes no more than what remains, a refused stream leaves no object or memory behind, and counts found in the stream are never trusted beyond the data that remains. The nesting depth of the stream is outside the guarantee.",
 [I], "all byte sequences and lengths up to the stated bound, for every decoding primitive and object header",
 "Tests only deserialize streams the library itself produced.",
 ["src/cconfigspace_internal.h", "src/parameter_deserialize.h", "src/distribution_deserialize.h", "src/cconfigspace.c"],
 [("_ccs_deserialize_bin_*", "src/cconfigspace_internal.h"), ("_ccs_object_deserialize_user_data", "src/cconfigspace_internal.h")])
prop("C06", "Numerical parameters accept exactly the values inside their range",
 "A numerical parameter can only be created with a non-empty range that contains its default value and a quantization that fits; it then accepts a value if and only if it is a number of its type within the lower-included upper-excluded range. Validation reports acceptance per value in order, returns accepted values unchanged and marks refused ones inactive, and the reported properties are those given at creation.",
 [I], "all bounds, quantizations, defaults and candidate values; arrays up to the stated length",
 "Tests use one or two small ranges; NaN, extreme integers and mixed batches are not sampled.",
 ["src/parameter_numerical.c", "src/parameter.c"],
 [("ccs_create_numerical_parameter", "src/parameter_numerical.c"), ("_ccs_parameter_numerical_check_values", "src/parameter_numerical.c")])
prop("C07", "Listed-value parameters accept exactly the listed values, in order",
 "Categorical, ordinal and discrete parameters accept a value if and only if it equals one of the values they were created with, refuse duplicate values and out-of-range default indexes at creation, and return their values in the given order. Ordinal comparison follows the position of values in the list and refuses unknown values; sampled indexes map to the value at that position.",
 [I], "all value lists up to the stated length and all candidate values",
 "Tests use fixed lists of a few values; membership and order quantify over all lists and candidates.",
 ["src/parameter_categorical.c", "src/parameter_string.c", "src/parameter.c"],
 [("_ccs_parameter_categorical_check_values", "src/parameter_categorical.c"), ("ccs_ordinal_parameter_compare_values", "src/parameter_categorical.c")])
prop("C08", "Sampling a parameter only ever yields values the parameter accepts",
 "Whatever distribution a parameter is sampled with and however many values are requested, each returned value is accepted by the parameter and all requested values are produced, or an error is returned. No more values than requested are written and no memory is leaked, including when sampling gives up.",
 [I, H], "all distribution outputs (any sequence of raw samples), all intervals, sample counts up to the stated bound",
 "Sampling tests draw from one seeded generator; out-of-range draws, retries and giving up depend on arbitrary sample sequences.",
 ["src/parameter_numerical.c", "src/parameter_categorical.c", "src/parameter.c", "src/distribution.c"],
 [("_ccs_parameter_numerical_samples/_ccs_parameter_categorical_samples", "src/parameter_*.c"), ("ccs_distribution_check_oversampling", "src/distribution.c")])
prop("C09", "Elementary distributions sample inside their advertised bounds and layout",
 "Uniform and roulette distributions only produce values inside the bounds they report, for every type, scale and quantization, whatever the random generator returns, and integer normal samples are inside the reported bounds and on the quantization grid; a roulette index is always a valid area. All ways of requesting samples give the same values for the same generator outputs. Single, batched, strided and per-dimension requests write exactly the requested cells and nothing else, and creation refuses invalid bounds, quantizations and area lists.",
 [I], "all generator outputs and distribution parameters, layouts up to the stated counts",
 "Tests draw seeded samples of a few distributions and check means; boundary draws have negligible probability.",
 ["src/distribution_uniform.c", "src/distribution_roulette.c", "src/distribution_normal.c", "src/distribution_internal.h", "src/distribution.c"],
 [("_ccs_distribution_uniform_strided_samples/_soa_samples", "src/distribution_uniform.c"), ("_ccs_dichotomic_search", "src/distribution_internal.h")])
prop("C10", "Composite distributions keep every component on its own dimensions",
 "A multivariate distribution has the sum of its components' dimensions, reports for each dimension the bounds of the owning component and writes each component's samples at that component's position. A mixture only draws from components of non-zero weight (up to the rounding of cumulative weights), reports per dimension the union of its components' bounds, and every sample it returns is one of the chosen component. Creation refuses empty lists, mismatched dimensions or types, and invalid weights.",
 [I], "all component counts and dimensions up to the stated bounds, all sample values",
 "Tests build one or two composites of one-dimensional components.",
 ["src/distribution_multivariate.c", "src/distribution_mixture.c"],
 [("ccs_create_multivariate_distribution", "src/distribution_multivariate.c"), ("ccs_create_mixture_distribution", "src/distribution_mixture.c")])
prop("C11", "Expression evaluation computes the documented meaning of every operator",
 "Evaluating any operator node over any operand values yields the value the operator denotes: integer arithmetic stays integer and mixed arithmetic is floating point, comparisons follow the order of the values (the parameter's order for ordinals), logical operators require booleans, membership searches the list. An inactive operand makes the result inactive (except an or with a true operand, and a list in which another item matches), and division by zero or operands of the wrong kind give an error instead of a value. Integer results that do not fit 64 bits and not-a-number operands of comparisons are outside the guarantee.",
 [I], "all operators and all operand values of every kind",
 "Expression tests evaluate a few dozen constant expressions; the operator tables quantify over all kinds and values.",
 ["src/expression.c"],
 [("_expr_*_eval operators", "src/expression.c"), ("ccs_expression_eval", "src/expression.c")])
prop("C12", "Objects live exactly as long as they are referenced",
 "An object is destroyed exactly when its last reference is released, its destruction callbacks run once each, and a failed creation leaves the references of the objects it was given unchanged. Creating an object that stores another takes one reference to it, and destroying the holder gives it back.",
 [H], "all sequences of retain and release on one object, all creation outcomes including allocation failures",
 "Tests release each object once on the success path; unbalanced counts on failure paths are invisible to them.",
 ["src/cconfigspace.c", "src/cconfigspace_internal.h", "src/configuration.c", "src/features.c", "src/evaluation.c", "src/tuner_random.c", "src/map.c", "src/tree.c"],
 [("ccs_retain_object/ccs_release_object", "src/cconfigspace.c"), ("per-object create/del", "src/*.c")])
prop("C13", "A map behaves as a finite map from values to values",
 "After any sequence of operations a map contains exactly the last value stored under each key not since deleted: lookup, existence, listing of keys, values and pairs, and deletion all agree with that content, equal keys denote one entry, and other entries are never affected by an operation. Entry counts and short output arrays are reported as such.",
 [H], "all sequences of set, delete, clear and queries over arbitrary keys up to the stated length",
 "The map test stores three fixed pairs; agreement quantifies over histories and keys.",
 ["src/map.c", "src/datum_hash.h"],
 [("ccs_map_set/get/del/exist/get_keys/get_values/get_pairs", "src/map.c")])
prop("C14", "Stored values are returned by position and name, and short arrays are refused",
 "Reading values of a configuration, feature set or evaluation by position or by parameter returns exactly what was stored there; positions out of range or foreign parameters are refused. Every list query returns the true element count, refuses an output array that is too small without writing to it, fills a larger one in order and pads the remainder with neutral values.",
 [I], "all positions, all output array sizes, contents up to the stated length",
 "Tests query with exactly sized arrays and valid positions.",
 ["src/binding.c", "src/binding_internal.h", "src/evaluation.c", "src/features_evaluation.c", "src/tree_evaluation.c", "src/parameter_categorical.c", "src/context_internal.h", "src/objective_space.c", "src/expression.c", "src/tree.c", "src/configuration_space.c"],
 [("_ccs_binding_get_value/get_values", "src/binding_internal.h"), ("ccs_*_get_* list queries", "src/*.c")])
prop("C15", "Evaluation comparison is Pareto dominance over the objectives",
 "Comparing two successful evaluations of the same objectives reports better exactly when the first is at least as good on every objective and strictly better on one, worse symmetrically, equivalent when all are equal, and otherwise not comparable, honouring each objective's minimise or maximise direction (not-a-number objectives excepted). Swapping the operands mirrors the answer; failed evaluations or differing objective spaces are refused.",
 [I], "all objective values and directions, objective counts up to the stated bound, the three evaluation families",
 "Tests compare a few fixed pairs with one or two objectives.",
 ["src/evaluation.c", "src/features_evaluation.c", "src/tree_evaluation.c"],
 [("_numeric_compare/_ccs_evaluation_compare", "src/evaluation.c")])
prop("C16", "A random tuner's optima are exactly the non-dominated evaluations told",
 "After any sequence of reported evaluations, the history holds every successful one in order and the optima are exactly the successful evaluations that no other reported evaluation dominates, the first being kept of those with equal objective values. Feature tuners keep this separately per feature set, suggestions come from the optima of the features asked, and an evaluation that cannot be compared with the optima leaves them unchanged.",
 [H], "all sequences of reported evaluations up to the stated length, all objective values, the three tuner families",
 "Tests tell one seeded sequence and compare the optimum of one objective.",
 ["src/tuner_random.c", "src/features_tuner_random.c", "src/tree_tuner_random.c"],
 [("_ccs_tuner_random_tell/_get_optima/_get_history/_suggest", "src/tuner_random.c")])
prop("C17", "A configuration is valid exactly when its activation and constraints say so",
 "A configuration is accepted exactly when each parameter's value is inactive if its condition is not true and is otherwise a value the parameter accepts, and no forbidden clause evaluates to true; default and sampled configurations always satisfy this. Sampling returns only valid configurations or reports failure.",
 [I, C], "all configuration values, conditions and clauses, up to the stated number of parameters",
 "Tests check a few sampled configurations of fixed spaces.",
 ["src/configuration_space.c", "src/configuration.c"],
 [("_check_configuration/_set_actives/_sample", "src/configuration_space.c")])
prop("C18", "Building a space keeps its parameters, conditions and distributions consistent",
 "At every point of building a space, each parameter belongs to exactly one distribution component, conditions only refer to parameters of the space and never form a cycle, and parameters are evaluated after those their conditions depend on. A refused operation leaves the space as it was, and parameter lookups by name, position or identity agree.",
 [H], "all sequences of building operations, up to the stated number of parameters",
 "Tests build a few fixed spaces; consistency quantifies over every sequence, including refused operations.",
 ["src/configuration_space.c", "src/context_internal.h", "src/objective_space.c", "src/features_space.c"],
 [("ccs_configuration_space_set_distribution/set_condition", "src/configuration_space.c"), ("_recompute_graph/_topological_sort", "src/configuration_space.c")])
prop("C19", "Trees keep parent, position, depth and weights consistent",
 "Attaching a child gives it its parent, position and depth and is refused for an occupied or out-of-range slot, an already attached node, or a node that would create a cycle. A node's position leads back to that node, a position is reported valid exactly when each of its indexes is a slot of an existing node, subtree weights are always the sum of the node's own weight and its children's biased subtrees (one for an unset child), and sampling returns a slot of the node or the node itself.",
 [H], "all trees up to the stated arity and depth, all weights and biases",
 "Tests build one fixed tree and sample it.",
 ["src/tree.c", "src/tree_internal.h"],
 [("ccs_tree_set_child/set_weight/set_bias/get_node_at_position/sample_position", "src/tree.c")])
prop("C20", "Tree configurations always denote a position of their tree space",
 "A tree configuration reports the position it was created with, is valid exactly when its tree space accepts that position, and its values and node are those the tree has along it; two tree configurations compare equal exactly when they share their space and position, and equal ones hash alike. Static spaces accept a position exactly when each index is a slot of an existing node, dynamic spaces grow missing nodes once and keep them, and sampled configurations follow the tree from its root.",
 [I, C], "all positions and trees up to the stated depth",
 "Tests sample positions from one fixed tree space.",
 ["src/tree_configuration.c", "src/tree_space.c", "src/tree_space_static.c", "src/tree_space_dynamic.c"],
 [("ccs_create_tree_configuration", "src/tree_configuration.c"), ("ccs_tree_space_check_position/get_node_at_position", "src/tree_space*.c")])
prop("C21", "Language bindings expose the same results as the C library",
 "The Python and Ruby bindings return for every call the value or error the C library returns.",
 [I], "all calls through the bindings", "Binding tests cover one call per feature.",
 ["bindings/python/cconfigspace", "bindings/ruby/lib"], [("ctypes / FFI wrappers", "bindings/")],
 claimed=False, reason="Python and Ruby glue is outside the reach of any installed deductive verifier for this family (CBMC verifies C only; no contract verifier for ctypes/FFI glue is installed).")
prop("C22", "Concurrent use of shared objects never corrupts reference counts",
 "Threads that retain and release a shared object concurrently never lose a count, and the object is destroyed once.",
 ["schedules"], "all interleavings", "Tests are single threaded.",
 ["src/cconfigspace.c"], [("CCS_ATOMIC_*", "src/cconfigspace_internal.h")],
 claimed=False, reason="Schedules are outside contract-based sequential verification: the CBMC contract engine (DFCC) has no thread support; the sequential half is C12.")
prop("C23", "Samples follow the requested probability law",
 "Sample frequencies converge to the distribution's density.",
 [I], "all distributions in the limit", "Tests check means of seeded samples.",
 ["src/distribution_uniform.c", "src/distribution_normal.c", "src/distribution_roulette.c"], [("gsl generators", "GSL")],
 claimed=False, reason="A limit statement about the GSL generator's statistical quality: no pre/postcondition over one call expresses it.")
prop("C24", "Objects travel intact through file descriptors",
 "An object serialized to a file descriptor, in blocking or resumable mode, and read back from it yields an equal object whatever the chunking of reads and writes.",
 ["inputs", "fault_sequences"], "all partial reads, writes and interruptions", "Tests use a pipe that accepts everything at once.",
 ["src/cconfigspace.c"], [("_ccs_object_serialize_file_descriptor", "src/cconfigspace.c")],
 claimed=False, reason="Depends on operating system read/write behaviour across calls (liveness over partial transfers); not expressible as contracts of one call within reach.")

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
              "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
              "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    units = open(os.path.join(V, "bin/check.py")) and __import__("importlib").import_module("check").parse_units()
    have = {x for u in units for x in u.props}
    checks, na = [], []
    for p in P:
        if p["claimed"] and p["id"] in have:
            checks.append({"property": p["id"], "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"],
              "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
              "technique": "CBMC code contracts (goto-instrument --dfcc) on the real C functions, discharged by SAT/SMT; failed obligations replayed natively",
              "level": "proof", "level_note": p["note"] or "Loop-free and width-bounded functions proved over the full input domain; units over arrays, strings or histories are bounded with the bound stated in the evidence (never counted as proved). Callees replaced by contract, stubs and remaining assumptions are listed in the evidence."})
        else:
            na.append({"property": p["id"], "reason": p["reason"] or "no check built yet"})
    hooks = {"guard": "CCS_VERIF", "enable": "no hooks are needed: the contract files #include the sources"}
    m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
import sys
sys.path.insert(0, os.path.join(V, "bin"))
main()
