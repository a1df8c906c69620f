"""Per-property text of DESIGN.md: (what is generated, what is judged against what, bounds, why it reaches further than tests)."""
D = {
"C01": ("decoding jobs of 1-12 sentences (40 occasionally): four rule storages, tree/forest/string input, binarisation, 0-2 language models (ARPA or binary), both searches, pop and chart limits, n-best/trace/forest files, two target factors, ties; 2-10 threads, 10 schedules each, every fault kind of the scheduler.",
        "the single-threaded run-to-block run of the same job, byte for byte on every output; races, deadlocks, use after free, progress.",
        "a pre-emption between any two memory accesses and a spurious wake-up at any wait are reachable; the tests use one thread."),
"C02": ("the same jobs; every sentence is first decoded alone, then the batch with 1 and with several threads.",
        "the concatenation of the single-sentence outputs (record numbers adjusted).",
        "leaks through caches and the dictionary depend on the history of sentences."),
"C03": ("histories of submit/wait/stop/destroy from several threads on pools of 1-6 workers with bounded and unbounded queues, tasks of random length.",
        "each task's executions are counted in the task; Wait returns only when the count is complete; after Stop nothing starts; liveness as progress within the step limit.",
        "lost wake-ups need one particular interleaving."),
"C04": ("records handed in by several threads in random order, buffered or not, with skipped records and up to 60 waiting records.",
        "the concatenation in record order, and after every hand-in the longest prefix that can be out must be out.",
        "arrival orders with long gaps."),
"C05": ("2-5 threads interning, looking up and reverse-looking-up words on a private table and on the global dictionary.",
        "linearizability against a sequential map (search over the recorded history), density, bijection.",
        "check-then-act windows of a few instructions."),
"C06": ("n-best lists (several files, duplicates) and forests written by the simulated decoder; MERT with all direction types, greedy MERT, L-BFGS expected evaluation, online learners, eleven evaluation measures, restarts, ranges; 1-6 threads, perturbed clock.",
        "the one-thread run of the same job; races, deadlocks, memory errors.",
        "results that depend on the order in which threads finish or on addresses."),
"C07": ("runs of fourteen programs; one read/open/seek/mmap fails, at an operation chosen uniformly or by call site, once or from then on; optionally short reads.",
        "exit status 0 only with exactly the undisturbed outputs; no hang, no memory error, no foreign access.",
        "every operation of every program is a fault point; the tests inject none."),
"C08": ("the same programs; a write, sync, truncate or close fails, or the disk is full after n bytes.",
        "as C07.",
        "as C07; errors that appear only at the final flush or close."),
"C09": ("the same programs under seeded splitting of all transfers, down to one byte, and EINTR.",
        "outputs and exit status of the undisturbed run.",
        "a local file system never splits a transfer under test."),
"C10": ("the same programs; the n-th allocation, mapping or thread creation fails, once or from then on.",
        "as C07; threads must not be unwound while running, no hang.",
        "each of the 10^4-10^5 allocation points of a run is a fault point."),
"C11": ("the same programs twice: perturbed addresses, fresh-memory contents, clock and schedule.",
        "the outputs of the plain run.",
        "pointer order, uninitialised memory and time of day are fixed in one test environment."),
"C12": ("1-4 producers and consumers on queues of 1-6 slots, plain and element types whose copy throws; pools on the queue.",
        "exactly-once, per-producer order, capacity counted by an in-order history, blocked threads must be entitled to block.",
        "semaphore and slot order interleavings."),
"C13": ("chains of 1-5 blocks with 0-4 workers (transform, drop, duplicate), sources and sinks in memory, files, re-read files; several rounds; optional I/O faults.",
        "the transformed sequence; blocks in flight counted; on faults either the whole sequence or an error.",
        "poison blocks, empty blocks and hand-overs between threads."),
"C14": ("record lists of 0-4,000 entries with duplicates; total memory, block size, fan-in so that 0-5 merge passes run; lazy and owned merges; combining or not; temporary files with faults.",
        "sort and combine in memory.",
        "pass and block boundaries arise only for particular sizes."),
"C15": ("texts (repeats, empty lines, single lines, reserved words), order 1-5, pruning thresholds, discount fallback, interpolation of unigrams, vocabulary limits, memory and block settings so small that every chain wraps; schedules and partial transfers.",
        "a reference estimator written from the published definition (adjusted counts, discounts, interpolation, back-off), every n-gram, probability and back-off; sums to one.",
        "each text exercises other equal-prefix, pruning and end-of-block patterns."),
"C16": ("ARPA models (order 2-5, missing suffix n-grams, up to a few hundred n-grams, negative/zero back-offs), every binary type and its parameters, all load methods, query texts with unknown words, with and without sentence boundaries.",
        "a reference back-off model over the ARPA text.",
        "bit widths, bucket boundaries and wrap-around depend on the model."),
"C17": ("builds of every binary type interrupted at a seeded I/O operation or memory access; the surviving image (see durability model) is loaded and queried.",
        "refused, or equal to the complete model on a text; no crash or hang.",
        "needs a power loss between two page writes."),
"C18": ("small decoding jobs as in C01 with exact settings (no pruning) or with limits; inputs are trees, packed forests (the union of up to four analyses of the same words, so that a constituent has several edges with scores of their own) and strings; with -consider_trg the rules get target labels of their own.",
        "a reference decoder that matches rules on the input, enumerates every derivation, scores it with the rule features and a reference language model, and judges best output, n-best order, distinctness, completeness, features and scores.",
        "optimality over all derivations for every grammar."),
"C19": ("models of order 1-4 or raw count files with up to a few hundred n-grams; vocabularies and phrase tables of 1-11 sentences; all modes; 1-4 threads, batches of 1-200 lines, three schedules each.",
        "a reference filter over sets of words or over all ways to cut an n-gram into parts of phrases.",
        "batch boundaries, batches that overtake each other, sentence-boundary marks."),
"C20": ("1-30 references of 0-40 words (one or two factors), 1-4 outputs made from them by edits, moves and copies, files that are too short or too long; 1-4 measures with random options, nested combinations with random formulas; -sent, -bootstrap.",
        "BLEU, NIST, RIBES, WER, 0/1 and both combinations recomputed from the text (harness/sim/evalref.h); bounds for TER; order and dominance for the bootstrap.",
        "corpora and options the tests do not have; partial transfers."),
"C21": ("1-4 sentences with n-best lists of 0-15 entries or forests of up to 250 derivations in one or two files; 1-4 features, coarse values (many ties) or fine ones; all measures; directions, restarts, thresholds, ranges, initial weights, statistics files; 1-5 threads.",
        "every hypothesis scored with evalref.h: reported score, sum of the weights, best run, no worse than the start, no better point on any coordinate line.",
        "ties and rounding at the boundaries of spans; shared nodes; interleavings of restarts."),
"C22": ("1-4 sentences of 1-9 source words with trees or forests (penn, JSON; unary chains, shared nodes, unsorted nodes), random alignments with unaligned words on both sides; every binarizer, attachment mode, composition size, length limit, lexical extension, posteriors, target labels and counts; files of unequal length.",
        "a reference extractor (harness/sim/extract.cc on forest.h): frontier nodes from spans and complements, minimal fragments, all attachments and compositions enumerated, posteriors from an inside-outside pass of its own.",
        "unaligned words at the borders, crossing alignments, and combinations of limits."),
"C23": ("1-5 sentence pairs of 0-10 words with random, dense, sparse or monotone alignments; limits on phrase length and words; files of unequal length and alignments out of range.",
        "a reference extractor (harness/sim/hiero.cc): consistent phrase pairs and all rules with up to two gaps as a multiset, with their shares.",
        "unaligned words at the borders, many-to-many links, gaps that touch, malformed links."),
"C24": ("1-6 trees or forests of up to 7 words in Penn, JSON, Egret, rule or word format, with quotes, brackets, accents, repeated words, unary chains, shared and unsorted nodes, failed parses; splitting, compound splitting with a language model, flattening, five binarizers, three casers, six output formats; truncated and unbalanced files.",
        "harness/sim/tree.cc: conversions and transformations recomputed on forest.h; the outputs parsed by readers of its own and compared as derivations.",
        "shared nodes, scores through transformations, repeated words, and files that end early."),
"C25": ("1-6 n-best lists of 1-40 hypotheses (ties, duplicates, gaps in numbering) with weights, measures, scales and trimming; 0-6 references of 0-15 words with a system output made from them by edits, six length limits, all measures; corpora for casing with quotes and accents; text made of fragments with known tokens, and noise.",
        "harness/sim/tools.cc: scores and expectations from evalref.h; the best division by a dynamic programme from the definition; counts; known tokens and conservation of characters.",
        "ties at the cut, duplicates, tight limits, and tokens beside each other."),
"C26": ("1-8 n-best lists of 1-6 hypotheses with 1-5 features, BLEU and its variants, RIBES, TER, 0/1; initial weights, restarts, L2, entropy; online learners with rate, margin scale and seeds, features with few binary digits in half the runs so that ties are exact.",
        "harness/sim/learn.cc: the objective from its definition; finite differences and plain ascent from the result; perceptron, averaged perceptron, AdaGrad and PRO learners step by step, with the same generators.",
        "gradients that are wrong only away from the tested point, state kept between evaluations, and learners that start or end with other weights."),
"C27": ("1-6 sentences (trees, forests, strings) with grammars and 0-2 language models in every storage and search, n-best lists of 1-25, seven families of measures, 1-3 references, ranges, L1, both updates; short reference files and several threads must be refused.",
        "harness/sim/online.cc: a perceptron over the printed n-best lists predicts every later score and the weight file, with the rounding of the printed features carried along.",
        "weights that some part of the decoder read before they changed, wrong oracles, and clamping or shrinking at the wrong time."),
"C28": ("the decoder's workloads (trees, forests, strings, every storage and search, 0-2 language models, two factors), n-best lists of 1-80, unique or not, trimming to 1-60, traces, source trees, source words that mean something to a formatter; 1-5 threads.",
        "harness/sim/explain.cc: the forest is unfolded into every derivation, traces are re-applied rule by rule, and both are compared with the printed list and the input.",
        "options that have no effect, derivations lost or made up between search and output, and sentences or rules exchanged between tasks."),
}
NMUT = 290
LIMITS = """* The search is random: it shows that no violation was found in the runs counted in the evidence, not that none exists.
* Memory-order effects weaker than sequential consistency are not simulated; the race detector reports the data races that would expose them.
* Accesses inside uninstrumented libraries (libstdc++'s compiled part, boost::iostreams, zlib) are seen only through interposed calls such as memcpy and the file calls.
* A finding that does not repeat when its seed is run again is not reported (up to two per worker; listed in the evidence as `unrepeated_findings`); more than that is an error.
* Mutants that nothing catches, with the reason: tie-breaking between equally scored hypotheses by another deterministic rule (the result stays one of the best);
  removing a lock that protects nothing shared with another thread in any reachable configuration; backing-off flags in language models whose n-grams lack prefixes (KenLM refuses nearly all of them);
  stopping the line search of MERT early (results stay equal for all thread counts)."""
