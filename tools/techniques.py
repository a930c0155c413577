NA = {}
WS = ("TLA+ specification Workspace.tla (TLC): behaviours generated from it are run on the real library and the recorded results "
      "validated with WorkspaceTrace.tla")
WSN = ("Workspace.tla is checked exhaustively within small bounds; conformance covers every generated behaviour (bit-exact results, "
       "debug and optimised builds) on random stacks and examples. Trusts TLC, the harness and serde_json; nothing is claimed for "
       "configurations and histories not generated.")
PA = "TLA+ specification Parse.tla (TLC): abstract examples with all their renderings; what the real parsers made of them is validated with ParseTrace.tla"
RE = ("TLA+ specification Reduce.tla (TLC): what bandit and binary reductions ask of the regressor beneath; behaviours run on real stacks "
      "over a recording regressor, and over the real one beside a bare twin, validated with ReduceTrace.tla")
REN = ("The module's laws are exhaustive over some hundred small examples; conformance covers random behaviours (thousands per run, histories to 150) in both builds. "
       "Importance weights compared to 1e-5, scores of the recording regressor exactly, twins to 2e-4 where no two features share a weight.")
T = {
 "C01": (WS, WSN), "C02": (WS, WSN), "C03": (WS, WSN), "C04": (WS, WSN), "C05": (WS + "; also through reml export-model/import-model", WSN),
 "C06": (WS, WSN), "C16": (WS + " (debug inserted anywhere is the same abstract configuration)", WSN),
 "C17": (PA, "All abstract examples within small bounds and random larger ones, each in every rendering (8 styles, 3 formats), both builds."),
 "C18": ("TLA+ specification FeatureId.tla (TLC): laws of feature placement over an unknown hash; recorded answers of the real parsers validated with FeatureIdTrace.tla",
         "Exhaustive over the listed names, seeds, widths and formats (sampled at narrow widths); hash quality beyond distinctness is not examined."),
 "C19": (WS + ", examples rendered by Parse.tla; shared-pool runs are twins of fresh-container runs", WSN),
 "C21": ("TLA+ specifications Training.tla and Pipeline.tla (TLC: every interleaving of reader, parsing threads and learner refines in-order learning); logs of real runs validated with TrainingTrace.tla, predictions and models with WorkspaceTrace.tla",
         "The model is exhaustive for small files, queues and thread counts; runs cover 0-8 threads, queues 1-512 with injected delays, not every schedule of the operating system."),
 "C22": ("TLA+ specifications Training.tla and Pipeline.tla with bad lines and unreadable input (TLC: safety and termination under fairness); logs and exits of real runs validated with TrainingTrace.tla",
         "As C21; termination of the code is observed with a time limit."),
 "C26": ("TLA+ specification Progress.tla (TLC): when a row is written and what it accounts for; the tables real training runs print are validated with ProgressTrace.tla",
         "Exhaustive for 12 periods and small files; runs cover 18 period settings, 0-200 examples, every metric combination. Metric values compared to a relative error of 1e-4, computed from the printed predictions file."),
  "C20": ("TLA+ specification Chunker.tla (TLC): framing of a stream of lines into examples; streams generated from it in every line-ending variant are read by the real parsers and the training command, and validated with ChunkerTrace.tla",
         "Exhaustive for streams of up to 6 (8) lines in the model, 4 (5) lines in conformance plus random streams to 40 lines; reader capacities 1-8192. Line contents are samples."),
 "C09": ("TLA+ specification Explore.tla (TLC): strategies, floor and their laws; probabilities real stacks return for arbitrary finite scores validated with ExploreTrace.tla",
         "Laws exhaustive for up to 3 actions and 27 parameter corners; conformance samples thousands of score vectors to 50 actions in both builds, rounding tolerance 1e-6."),
 "C10": ("TLA+ specification Explore.tla (TLC): the probabilities of each strategy in fixed point; real stacks over scripted scores validated with ExploreTrace.tla",
         "Scores on a grid of quarters, parameters the fixed-point model can express, t to 110; tolerance 2e-6 (2e-4 for irrational roots)."),
 "C13": ("TLA+ specification Expand.tla (TLC): the multiset of features an example is expanded to; what the real expansion walks and which weights learning changes validated with ExpandTrace.tla, and whole histories beside a stack given the expanded features",
         "Exhaustive over small examples and all short interaction lists in the model; random examples and lists (thousands) in conformance. Twins to 5e-4, where no two features share a weight."),
 "C14": ("TLA+ specification Elementwise.tla (TLC): what the regressor beneath is given; what a recording regressor beneath real stacks receives validated with ElementwiseTrace.tla, and whole histories beside a regressor given the products",
         "Exhaustive over small examples in the model; thousands of random examples, names, seeds, widths in conformance. Twins to 5e-4."),
 "C23": ("TLA+ specification LabelRange.tla (TLC): predictions under any bets; predictions of real stacks over extreme values validated with LabelRangeTrace.tla; Quint specification coin.qnt (simulator) for the rule itself",
         "LabelRange is exhaustive for 5 labels and any sum of bets; conformance covers thousands of random histories with values to the ends of the 32-bit range, both builds."),
 "C24": ("Quint specification coin.qnt (fixed-point rule, invariants checked by the simulator); its simulated histories (ITF traces) are replayed into the real regressor",
         "Random histories of up to 60 steps on a grid of features, labels, importances, parameters, interactions and units; not exhaustive. Compared to 1e-3 of the magnitudes involved."),
 "C25": ("TLA+ specification Weights.tla (TLC): the store of weights, its array and its saved forms; recorded stores of real learning validated with WeightsTrace.tla",
         "The model is exhaustive for small stores; conformance covers random writes and learning of all stacks at 1 to 12 bits, with values planted at the edges, both builds."),
 "C07": ("TLA+ specification Stack.tla (TLC): acceptance and types of stacks and their laws; every stack it enumerates is created and used for real, validated with StackTrace.tla",
         "Laws exhaustive to depth 5 (6); conformance exhaustive to depth 5 (6) with plain options, depth 3 with every kind of malformed layer or global section, plus random stacks to 12 layers. Concrete malformed values are samples."),
 "C08": ("TLA+ specification Config.tla (TLC): ways to write a configuration and what it means; what real workspaces and the command line make of written ones validated with ConfigTrace.tla",
         "Every subset of written defaults of the global section and one reduction, every option in some 15 misspellings and wrong types, random meanings in several spellings. Behaviour is compared bit for bit on short histories."),
 "C28": ("TLA+ specification Config.tla (TLC): configurations that conform are those that are accepted; verdicts of the generated and published schema on real configurations validated with ConfigTrace.tla",
         "Every option misspelt and of wrong kinds, random written configurations. Conformance is decided by the python jsonschema package. Range limits of integers, array forms and type fit of stacks are outside the statement."),
 "C27": ("TLA+ specification Workspace.tla (TLC) with refused calls; histories generated from it are run on the core library and on the Python package, and all recorded agreements validated with WorkspaceTrace.tla",
         "Random histories of up to 26 (36) calls on two workspaces over simple and bandit stacks, text and dictionary inputs, both model forms exchanged between the two sides. Predictions and models compared bit for bit. An example the parsers refuse by a failed assertion counts as refused."),
 "C29": ("TLA+ specification Files.tla (TLC): commands, outputs cut short, damage and loads; what the library, the commands and Python make of real damaged models validated with FilesTrace.tla",
         "The model is exhaustive for two files; conformance loads every prefix of 40 (300) binary models of up to 900 (4000) bytes (samples of longer ones), and some 100 kinds of damage to each JSON model. Flipped bits inside a binary model, and left-out options or single rows of a JSON model, are outside the statement."),
 "C30": ("TLA+ specification Files.tla (TLC): success exactly when every output is complete; exits and files of real commands under file size limits validated with FilesTrace.tla",
         "Limits at 0, around the size of every output, at buffer boundaries and at random, for train, export-model, import-model, config new, gen-schema and gen-completions; the only fault injected is a file that cannot grow."),
 "C11": (RE, REN), "C12": (RE, REN), "C15": (RE, REN),
}
