#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run by hand after editing)."""
import json, os
P = []
CORE = "reductionml-core/src/"
RED = CORE + "reductions/"
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ALLRED = [RED + f for f in ("coin.rs", "binary.rs", "cb_adf.rs", "cb_explore_adf_greedy.rs", "cb_explore_adf_softmax.rs", "cb_explore_adf_squarecb.rs", "debug.rs", "elementwise_interaction.rs")]

p("C01", "Predicting never changes the model",
  "Asking a workspace for predictions, on any examples and any number of times, leaves every later prediction, the effect of every later learning call and the saved model exactly as if those predictions had never been requested. Repeating a prediction with no learning in between returns the identical result.",
  ["histories", "configurations"], "Every history of predict/learn/predict-then-learn/save/load calls over every supported reduction stack.",
  "The tests call predict once or twice on one stack and look at the returned number; none compares a history with the same history minus its predict calls.",
  [CORE + "workspace.rs", CORE + "reduction.rs"] + ALLRED,
  [("predict takes the model by shared reference", CORE + "reduction.rs"), ("per-reduction predict", RED)],
  ["Workspace::predict", "Workspace::serialize_model", "Workspace::serialize_to_json"],
  [("learned state", "weights, normalisers, label range, importance sums and exploration counters", RED)])

p("C02", "Predict-then-learn is predict followed by learn",
  "Predict-then-learn returns exactly what predict would have returned immediately before, and leaves the model exactly as learn on the same example and label would have left it. This holds for every reduction stack, in debug and optimised builds.",
  ["histories", "configurations"], "Every history reaching the call, every stack, both build profiles.",
  "Tests use one or the other entry point; no test compares the two on the same history, and only the debug build is ever run.",
  [CORE + "reduction.rs", CORE + "workspace.rs"] + ALLRED,
  [("default predict_then_learn", CORE + "reduction.rs"), ("overrides in debug, elementwise and exploration reductions", RED)],
  ["Workspace::predict_then_learn", "Workspace::predict", "Workspace::learn", "Workspace::serialize_to_json"])

p("C03", "A model is a function of its configuration and learning history",
  "Two workspaces created from the same configuration and taught the same examples in the same order give identical predictions and identical saved models. Other workspaces, live at the same time and used in any interleaving, and earlier activity in the process have no influence.",
  ["histories", "schedules", "configurations"], "Every interleaving of operations on several workspaces sharing a process and example objects.",
  "Each test drives a single workspace once, in a fresh process state.",
  [CORE + "workspace.rs", CORE + "reduction.rs", CORE + "dense_weights.rs", CORE + "object_pool.rs"] + ALLRED,
  [("all learned state is owned by the workspace", CORE + "workspace.rs")],
  ["Workspace::*", "serialize_model bytes"])

p("C04", "Saving and loading a binary model loses nothing",
  "At any point of any learning history, a workspace restored from the binary model saved at that point is indistinguishable from the original: the same predictions, the same outcome of all further learning, the same saved model. Saving does not disturb the workspace that was saved.",
  ["histories", "crash_points", "configurations"], "Every save point in every history, every stack and global configuration, chains of save/load.",
  "One test saves and reloads one trained stack and compares a single prediction; state used only by later learning (normalisers, counters, label range) is never exercised after a reload.",
  [CORE + "workspace.rs", CORE + "dense_weights.rs"] + ALLRED + ["reductionml-cli/src/train.rs"],
  [("serialize_model/create_from_model", CORE + "workspace.rs"), ("sparse weight vector encoding", CORE + "dense_weights.rs")],
  ["Workspace::serialize_model", "Workspace::create_from_model", "reml train -i / -o"])

p("C05", "Exporting a model to JSON and importing it loses nothing",
  "At any point of any learning history with a finite learned state, a workspace rebuilt from its JSON export is indistinguishable from the original in predictions, in the outcome of all further learning and in its saved form. The command-line export and import commands preserve models in the same way.",
  ["histories", "crash_points", "configurations"], "Every export point in every history, every stack, bit width and weight index; export/import chains mixed with binary saves.",
  "The tests export one small model and compare one prediction; weights at boundary indices, unusual widths and post-import learning are not covered.",
  [CORE + "workspace.rs", CORE + "dense_weights.rs", "reductionml-cli/src/export_model.rs", "reductionml-cli/src/import_model.rs"],
  [("rewriting of sparse weights to a nested per-index map and back", CORE + "workspace.rs"), ("ND-array conversion", CORE + "dense_weights.rs")],
  ["Workspace::serialize_to_json", "Workspace::deserialize_from_json", "reml export-model", "reml import-model"])

p("C06", "Examples are handed back exactly as they were",
  "Predict, learn and predict-then-learn leave the caller's example with exactly the namespaces, feature indices, values and order it had before the call. Using one example object repeatedly, or with several workspaces, therefore gives the same results as using a fresh copy each time, in debug and optimised builds.",
  ["inputs", "histories", "configurations"], "Every example shape (missing or empty shared part, namespaces common to shared and action, namespaces present but empty, repeated features), every stack, repeated use.",
  "A debug-only assertion compares examples during tests on a few well-formed shapes; optimised builds have no check and the tests never reuse an example across stacks.",
  [CORE + "sparse_namespaced_features.rs", RED + "cb_adf.rs", RED + "elementwise_interaction.rs", CORE + "reduction.rs"],
  [("append/remove of shared features", CORE + "sparse_namespaced_features.rs"), ("composite namespace insertion and removal", RED + "elementwise_interaction.rs")],
  ["features before and after each Workspace call"],
  [("namespace contents and activity", "features per namespace; an inactive namespace holds none", CORE + "sparse_namespaced_features.rs")])

p("C07", "A reduction stack is accepted exactly when its parts fit",
  "Creating a workspace succeeds exactly when every reduction in the stack is known and its options are well formed, each reduction's label, feature and prediction types match those of the reduction beneath it, and SquareCB is not placed directly on an IPS contextual-bandit learner. Everything else is refused with an error rather than a crash or a misbehaving workspace. An accepted workspace reports the types implied by its stack and returns predictions of that declared type for examples of its declared input type.",
  ["configurations"], "Every stack over the registered reductions up to a depth bound, with and without explicit options.",
  "Tests construct a handful of valid stacks and one unknown name; ill-typed combinations are not enumerated.",
  [CORE + "reduction.rs", CORE + "reduction_factory.rs", CORE + "workspace.rs", CORE + "reduction_registry.rs"] + ALLRED,
  [("type compatibility check", CORE + "reduction.rs"), ("per-reduction factories", RED)],
  ["Workspace::new", "Workspace::get_entry_reduction().types()", "Workspace::predict"])

p("C08", "A configuration means the same however it is written",
  "JSON and YAML renderings of a configuration, any key order, and leaving an option out versus writing its documented default all produce workspaces that behave identically. Misspelt or unknown options of the configuration, of its global section or of any reduction's options, and values of the wrong type, are rejected. The configuration the command line prints for a reduction that has a default stack is valid, accepted, and behaves like that reduction with default options; checking a configuration file succeeds exactly when a workspace can be created from it.",
  ["configurations", "inputs"], "Every subset of written/omitted options over every reduction, both syntaxes, every generated configuration.",
  "Tests parse a few literal configurations; equivalence of behaviour between spellings is never compared.",
  [CORE + "workspace.rs", CORE + "global_config.rs", CORE + "reduction_factory.rs", "reductionml-cli/src/config.rs"] + ALLRED,
  [("serde defaults", CORE + "global_config.rs"), ("deny unknown fields", CORE + "global_config.rs"), ("config new/check", "reductionml-cli/src/config.rs")],
  ["Configuration::from_json_str", "Configuration::from_yaml_str", "Workspace::new", "reml config new", "reml config check"])

p("C09", "Exploration always yields a valid distribution favouring the best action",
  "For every non-empty set of actions, every finite scores and every valid parameters, an exploring bandit returns exactly one probability for each action, in action order, each between 0 and 1 and summing to 1 up to rounding. No action is less probable than one with a worse (higher) score, so a lowest-score action always has the highest probability, and every action gets at least its configured share of uniform exploration. This remains true after any amount of learning.",
  ["inputs", "histories", "configurations"], "All small score vectors with ties and orderings, all parameter corners, all three exploration strategies and the probability-floor helper.",
  "Tests evaluate one or two score vectors per strategy; ties, single actions, extreme scores and parameter corners are not enumerated.",
  [CORE + "explore.rs", RED + "cb_explore_adf_greedy.rs", RED + "cb_explore_adf_softmax.rs", RED + "cb_explore_adf_squarecb.rs"],
  [("probability floor", CORE + "explore.rs"), ("per-strategy predict", RED)],
  ["Workspace::predict on exploration stacks", "explore::enforce_min_prob"])

p("C10", "Exploration probabilities follow the configured strategy",
  "Epsilon-greedy gives each of n actions epsilon/n and the remaining 1-epsilon to the first lowest-scoring action. Softmax weights each action by exp(-lambda * score), normalised; SquareCB gives every other action 1/(n + gamma*(score - best score)) with gamma = scale * t^exponent after t learning calls and the rest to the best action; both then raise every probability to at least uniformEpsilon/n by uniformly lowering the others.",
  ["inputs", "histories", "configurations"], "All score vectors on a grid, all action counts up to a bound, parameter grids, learning counts.",
  "Tests pin one or two numeric outputs; dependence on every parameter and on the number of learned examples is not covered.",
  [CORE + "explore.rs", RED + "cb_explore_adf_greedy.rs", RED + "cb_explore_adf_softmax.rs", RED + "cb_explore_adf_squarecb.rs"],
  [("per-strategy formula", RED), ("probability floor", CORE + "explore.rs")],
  ["Workspace::predict on exploration stacks", "explore::enforce_min_prob"])

p("C11", "A bandit scores each action from that action and the shared context only",
  "A contextual-bandit prediction lists every action exactly once, in order, and the score of an action is the raw prediction of the underlying regressor for that action's features together with the shared features. It does not depend on the other actions, on the action's position or on how many actions there are.",
  ["inputs", "histories"], "All small multi-action examples, overlapping namespaces, permutations and subsets of the actions, after any learning history.",
  "Tests predict on one multi-action example and check the sign of the change after learning.",
  [RED + "cb_adf.rs", CORE + "sparse_namespaced_features.rs"],
  [("merge of shared features around each action", RED + "cb_adf.rs")],
  ["Workspace::predict on CbAdf stacks versus the bare regressor"])

p("C12", "Bandit learning reduces to the documented regression examples",
  "In MTR mode one bandit example teaches the underlying regressor exactly one example: the chosen action's features together with the shared features, the observed cost, and importance (1/probability) * (examples so far / actions so far), both counts including the current one. In IPS mode it teaches every action in order, with cost/probability for the chosen one and 0 for the others. Epsilon-greedy and softmax learn exactly as the bandit learner beneath them, SquareCB as if every logged probability were 1; a missing shared part counts as empty.",
  ["inputs", "histories", "configurations"], "All histories of small bandit examples with varying action counts, chosen actions, probabilities and costs, under all exploration wrappers.",
  "Tests learn repeatedly from one example with a fixed number of actions; the importance weight's dependence on the history is never checked.",
  [RED + "cb_adf.rs", RED + "cb_explore_adf_greedy.rs", RED + "cb_explore_adf_softmax.rs", RED + "cb_explore_adf_squarecb.rs"],
  [("mtr importance sums", RED + "cb_adf.rs"), ("ips labels", RED + "cb_adf.rs"), ("SquareCB probability override and counter", RED + "cb_explore_adf_squarecb.rs")],
  ["calls received by the regressor beneath a bandit stack", "regressor state versus a bare regressor taught the derived examples"])

p("C13", "Interactions expand every feature combination exactly once",
  "With configured interactions the model behaves as if each example also contained, for every listed pair or triple of namespaces, one product feature per combination of one feature from each (per unordered combination with repetition when a namespace is listed more than once next to itself), with the product of the values, plus one constant feature unless disabled. Namespaces missing from the example contribute nothing, and prediction, learning and the per-weight state all use the same expansion.",
  ["inputs", "configurations"], "All small examples over a few namespaces and all interaction lists of pairs and triples, including repeated namespaces and absent ones.",
  "The tests cover one quadratic and one cubic list on fixed features; repeated namespaces inside triples are not covered.",
  [CORE + "weights.rs", CORE + "interactions.rs", RED + "coin.rs"],
  [("feature expansion loops", CORE + "weights.rs"), ("interaction compilation", CORE + "interactions.rs")],
  ["per-index learned state in the JSON model", "foreach_feature"])

p("C14", "Elementwise interaction multiplies matching features",
  "An elementwise-interaction stack behaves like its regressor given the example with one extra namespace holding, for every position present in both named namespaces, the product of the two values, and with the two originals dropped unless they are to be kept. The caller's example is unaffected, and this holds for all positions, namespace names, hash seeds and bit widths.",
  ["inputs", "configurations"], "All small pairs of positional namespaces with gaps, kept or dropped originals, names whose masked hash wraps around the index space.",
  "Tests use one pair of namespaces with fixed hashes.",
  [RED + "elementwise_interaction.rs"],
  [("merge join on offsets from the namespace hash", RED + "elementwise_interaction.rs")],
  ["Workspace::predict/learn on ElementwiseInteraction versus the bare regressor"])

p("C15", "Binary classification reduces to signed regression",
  "A binary stack teaches its regressor +1 for true and -1 for false with weight 1 on unchanged features, and predicts true exactly when the regressor's prediction for the example is greater than zero. ",
  ["inputs", "histories"], "All regressor outputs around zero and all label histories.",
  "One test trains a separable toy set.",
  [RED + "binary.rs"], [("label conversion and threshold", RED + "binary.rs")],
  ["Workspace::predict/learn on Binary versus the bare regressor"])

p("C16", "The debug reduction is transparent",
  "Inserting the debug reduction anywhere in a stack changes no prediction, no learning outcome and no type: the stack behaves exactly as without it.",
  ["configurations", "histories"], "Every stack with debug inserted at every position, any history.",
  "The debug reduction is only constructed in tests, never compared.",
  [RED + "debug.rs"], [("pass-through", RED + "debug.rs")],
  ["Workspace behaviour with and without the Debug reduction"])

p("C17", "The same example means the same in every input format",
  "An example written as VW text, JSON or decision-service JSON, and in any of the equivalent spellings a format offers, is parsed to the same features (namespace, index, value) and the same label. The result depends only on the example's content, never on key order, spacing, or other examples parsed before.",
  ["inputs"], "All small abstract examples (simple, binary and bandit) rendered in every applicable format and spelling.",
  "Tests parse literal strings of one format at a time; no test relates formats to one another.",
  [CORE + "parsers/json_parser.rs", CORE + "parsers/vw_text_parser.rs", CORE + "parsers/dsjson_parser.rs", CORE + "parsers.rs", CORE + "sparse_namespaced_features.rs"],
  [("per-format parsers", CORE + "parsers/"), ("feature hashing", CORE + "parsers.rs")],
  ["TextModeParser::parse_chunk on each format"])

p("C18", "Feature identity depends only on names, seed and width",
  "A feature's index is determined by its namespace name, its own name or position (and string value), the hash seed and the bit width alone, is always below 2^bits, and narrowing the width only drops high bits. The i-th unnamed feature of a namespace is always i places after the namespace's own index (cyclically), and a different name, string value or (for named namespaces) seed yields an unrelated index.",
  ["inputs", "configurations"], "All names, positions, seeds and widths on a grid including extreme values, in all formats.",
  "Tests compare a few names at one width and seed.",
  [CORE + "hash.rs", CORE + "parsers.rs", CORE + "parsers/", CORE + "sparse_namespaced_features.rs", CORE + "types.rs"],
  [("seed chaining and masking", CORE + "parsers.rs")],
  ["TextModeParser::parse_chunk"])

p("C19", "Recycled feature containers carry nothing over",
  "Parsing an example into containers recycled from any earlier examples gives the same features, labels, predictions and learning as parsing it into fresh ones, whatever the earlier examples contained and however containers are shared.",
  ["histories", "inputs"], "All sequences of small examples parsed, used and recycled through one pool, in all formats.",
  "Each parser test starts from an empty pool.",
  [CORE + "object_pool.rs", CORE + "sparse_namespaced_features.rs", CORE + "types.rs", CORE + "parsers/"],
  [("clear on return to pool", CORE + "sparse_namespaced_features.rs"), ("namespace reactivation", CORE + "sparse_namespaced_features.rs")],
  ["TextModeParser::parse_chunk with a shared pool"],
  [("pooled containers", "cleared namespaces kept with their capacity", CORE + "object_pool.rs")])

p("C20", "A data stream is split into exactly its examples",
  "Reading a data stream yields every example exactly once and in order, with nothing merged, split or lost: one line per example for single-line formats, and for multi-line bandit text one block of lines up to a blank line or the end of the stream. The presence of a final newline or Windows line endings makes no difference to the examples read, nor do surplus blank lines in VW text.",
  ["inputs"], "All short streams over {shared, action, labelled action, blank} lines with every ending, for every format.",
  "Tests feed the chunker one or two well-formed streams.",
  [CORE + "parsers/text_parser.rs", CORE + "parsers/vw_text_parser.rs", CORE + "parsers/json_parser.rs", CORE + "parsers/dsjson_parser.rs"],
  [("get_next_chunk", CORE + "parsers/text_parser.rs")],
  ["TextModeParser::get_next_chunk", "reml train predictions"])

p("C21", "Training does not depend on threads, queue size or reporting",
  "For a given data file and starting model, command-line training produces the same final model and, when asked, the same predictions file whatever the number of parsing threads, the queue size, thread timing, and the progress, quiet, metric and prediction-output options. Each example is learned exactly once, in file order, and line k of the predictions file is the prediction made for example k before learning from it; the result equals feeding the same examples to the library one by one.",
  ["schedules", "inputs", "configurations"], "All interleavings of reader, parsing workers and learner; all thread counts, queue sizes and option combinations on data with very uneven parse costs.",
  "The CLI tests run training on tiny files under whatever schedule happens; nothing compares models across thread counts or timing.",
  ["reductionml-cli/src/train.rs", CORE + "object_pool.rs"],
  [("in-order learn queue of parse results", "reductionml-cli/src/train.rs"), ("ready flag hand-over", "reductionml-cli/src/train.rs")],
  ["reml train -o/-p outputs", "pipeline events"],
  [("learn queue / parse queue", "bounded queues of shared parse results", "reductionml-cli/src/train.rs"), ("ready flag", "0 until the worker published its result", "reductionml-cli/src/train.rs")],
  "cfg(reml_verif): pipeline event log and seeded delays in the train command")

p("C22", "Training always ends, and ends in failure when the data is bad",
  "Command-line training terminates for every input file, thread count and queue size. If some example cannot be parsed or lacks a label the command ends promptly with a failure status and writes no model, wherever in the file the bad line is and however many lines follow it.",
  ["schedules", "fault_sequences", "inputs"], "All interleavings of the pipeline with a fault at any line; all fault kinds, positions, thread counts and queue sizes.",
  "No CLI test trains on a malformed file or an empty one, and none uses several threads with a fault.",
  ["reductionml-cli/src/train.rs", CORE + "parsers/"],
  [("queue shutdown on end of input", "reductionml-cli/src/train.rs"), ("scoped threads", "reductionml-cli/src/train.rs")],
  ["reml train exit status, duration and output files", "pipeline events"],
  None, "cfg(reml_verif): pipeline event log and seeded delays in the train command")

p("C23", "Scalar predictions stay finite and within the labels seen",
  "With squared loss and identity link, the regressor's prediction is always finite and lies between the smallest and largest label it has learned from, with 0 counted as seen; with the logistic link it is always between 0 and 1. This holds whatever the feature values, importance weights, interactions and learning history.",
  ["inputs", "histories"], "All histories of labels, weights and feature magnitudes on a grid including zeros, repeats and large values.",
  "Tests check a few predictions after convergence on benign data.",
  [RED + "coin.rs"], [("clamping to the observed label range", RED + "coin.rs")],
  ["Workspace::predict on regressor stacks"],
  [("label range", "smallest and largest label learned, starting at 0", RED + "coin.rs")])

p("C24", "The regressor follows the coin-betting update",
  "Starting from zero, each learned example (features x, label y, importance w) changes the regressor by the normalised coin-betting rule: clamped prediction p from the current bets, gradient 2(p - y) w x per weight under squared loss, and the documented updates of gradient sum, gradient magnitude, scale, wealth and bet with parameters alpha and beta. Predictions after any history equal those of the rule up to rounding, with alpha 4 and beta 1 by default.",
  ["inputs", "histories", "configurations"], "All short histories on a grid of features, labels and weights, parameter grids, interactions on and off.",
  "Tests check that repeated learning converges on one example.",
  [RED + "coin.rs", CORE + "loss_function/squared_loss.rs"],
  [("coin betting predict/update", RED + "coin.rs")],
  ["Workspace::predict", "per-index learned state in the JSON model"])

p("C25", "Learning touches only the weights of the example's own features",
  "Learning from an example changes stored weights only at the indices of that example's features, of their configured interactions and of the constant feature. Every other weight keeps its exact value through any amount of learning, saving and loading, including those at the lowest and highest indices.",
  ["inputs", "histories", "configurations"], "All small histories over disjoint and overlapping features, boundary indices, every bit width on a grid, all stacks.",
  "No test looks at weights other than through a prediction on the trained example.",
  [CORE + "dense_weights.rs", CORE + "weights.rs", RED + "coin.rs"],
  [("index to storage mapping", CORE + "dense_weights.rs")],
  ["per-index learned state in the JSON model", "DenseWeights"])

p("C26", "Progress reports and metrics account for every example",
  "Numbering examples from 0, the training table reports on examples 0, n, 2n, ... for an additive period n (on every example for 0), and for a multiplicative one on example 0 and then, after a report on example i, on the first later example numbered at least floor(i * multiplier); and once more at the end. Each row's values cover exactly the examples processed up to that row: the number of the latest one, the mean squared error of the predictions made before learning, the IPS estimate (mean of -cost * predicted probability / logged probability of the chosen action), and the total number of parsed features.",
  ["histories", "configurations"], "All example counts up to a bound, all period settings on a grid, every combination of metrics, all thread counts.",
  "No test reads the training table.",
  ["reductionml-cli/src/train.rs", CORE + "metrics/"],
  [("output schedule", "reductionml-cli/src/train.rs"), ("metric accumulation", CORE + "metrics/")],
  ["reml train standard output"])

p("C27", "The Python package behaves like the core library",
  "Parsing, predicting, learning, saving and loading through the Python package gives the same features, predictions and models as the same operations on the core library. Configurations and models the core library refuses raise a Python exception, as do examples, labels and calls that do not fit the workspace; the process, the workspace and what it has learned are left intact and usable.",
  ["histories", "inputs", "configurations"], "All histories of the Python workspace API over simple and bandit stacks.",
  "The Python tests check single calls for type and rough value.",
  ["reductionml-python/src/workspace.rs", "reductionml-python/src/features.rs", "reductionml-python/src/labels.rs", "reductionml-python/src/predictions.rs", "reductionml-python/src/parsers.rs"],
  [("wrapping of core objects", "reductionml-python/src/")],
  ["reductionml.Workspace", "reductionml.TextParser and formats"])

p("C28", "The published schema describes the configurations that are accepted",
  "Every configuration accepted conforms to the JSON schema the command line generates and to the published latest one. Configurations with misspelt or unknown options, unknown reductions, or values of the wrong kind do not conform to them. The default the schema documents for an option is the value it has when left out.",
  ["configurations"], "Every option of every reduction, every misspelling and wrong kind of value, every combination of written options.",
  "The only test compiles the schema; it is never compared with the configurations accepted.",
  [CORE + "config_schema.rs", "reductionml-cli/src/gen_schema.rs", CORE + "workspace.rs", CORE + "global_config.rs", CORE + "reduction_factory.rs", "schemas/config/latest/schema.json"] + ALLRED,
  [("schema generation", CORE + "config_schema.rs"), ("option definitions", RED)],
  ["reml gen-schema", "schemas/config/latest/schema.json", "Configuration"])

p("C29", "Damaged or truncated models are refused",
  "A binary model cut short at any byte, bytes or JSON that are no model, and a JSON model that lacks its global configuration, a reduction, a weight table or one of the table's sizes, has one of these of the wrong kind, or whose weights do not fit the declared sizes, is refused by the library, the command line and the Python package: nothing is loaded and no output is written. A complete file always loads exactly the model that was saved.",
  ["crash points", "inputs", "histories"], "Every length a saved model of every kind of stack can be cut to; every part of a JSON model removed, replaced by another kind or made inconsistent.",
  "No test loads anything but a complete model.",
  [CORE + "workspace.rs", CORE + "dense_weights.rs", CORE + "reduction.rs", "reductionml-cli/src/train.rs", "reductionml-cli/src/import_model.rs", "reductionml-cli/src/export_model.rs", "reductionml-python/src/workspace.rs"],
  [("decoding of models", CORE + "workspace.rs"), ("consistency of weight tables", CORE + "dense_weights.rs")],
  ["Workspace::create_from_model", "Workspace::deserialize_from_json", "reml import-model, export-model, train -i", "reductionml.Workspace.create_from_model"])

p("C30", "Success means that every output was completely written",
  "A command exits with success only if everything it was asked to write (model, predictions, training table, exported model, configuration, schema) was completely written, to a new file or over an existing one; where the place it writes to takes less than that, it exits with failure, and what it left of each output is a beginning of it or what was there before. With room enough it succeeds.",
  ["faults", "configurations"], "Every place an output can be cut off at, for every command and combination of outputs.",
  "No test makes a write fail.",
  ["reductionml-cli/src/train.rs", "reductionml-cli/src/import_model.rs", "reductionml-cli/src/export_model.rs", "reductionml-cli/src/main.rs", "reductionml-cli/src/config.rs", "reductionml-cli/src/gen_schema.rs"],
  [("writing of outputs", "reductionml-cli/src/train.rs"), ("exit status", "reductionml-cli/src/main.rs")],
  ["exit status and output files of reml"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        x["statement"] = x["statement"].strip()
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
