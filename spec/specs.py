"""The properties.  gen.py writes properties.jsonl and MANIFEST.json from here."""
TRUST = " Trusts the simulator (dsim/), the compiler's instrumentation and the workload generator; a clean search is evidence, not proof."
def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note="", na=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": None},
         "technique": technique, "level_note": note + TRUST}
    if na: d["na"] = na
    PROPS.append(d)
PROPS = []

P("C01", "Decoding output does not depend on the number of threads or their timing",
  "For a given configuration, models and input, the decoder's translations, n-best lists, traces, forests and statistics are the same, byte for byte and in input order, for every number of worker threads and every interleaving of them. No interleaving crashes, deadlocks, loses, duplicates or reorders a sentence, or makes two threads touch the same memory without synchronisation.",
  ["schedules", "configurations", "inputs"], "every thread count, every interleaving (including pre-emption between any two memory accesses, spurious wake-ups, stalled threads), every storage of rules, language model, search algorithm and output option",
  "The tests run the decoder with one thread on a few sentences; an interleaving is never controlled, and a race shows itself only under rare timing.",
  ["src/lib/travatar-runner.cc", "src/lib/thread-pool.cc", "src/lib/output-collector.cc", "src/lib/dict.cc", "src/lib/lookup-table-hash.cc", "src/lib/lm-composer-bu.cc", "src/lib/lm-composer-inc.cc"],
  [("one task per sentence in a worker pool", "src/lib/travatar-runner.cc TravatarRunner::Run"), ("results buffered and written in sentence order", "src/lib/output-collector.cc OutputCollector::Write"), ("global symbol table under a lock", "src/include/travatar/symbol-set.h"), ("symbol cache of the binarizer under a lock", "src/lib/binarizer.cc")],
  observe=["standard output", "n-best, trace and forest files", "exit status"],
  technique="the real decoder under a seeded scheduler, output compared with the one-thread run, happens-before race, deadlock and use-after-free detection",
  note="Seeded search over interleavings (random walk, PCT, starvation, pre-emption at memory accesses) of generated decoding jobs; each is judged against the single-threaded run of the same job.")
P("C02", "Each sentence is decoded independently of the others",
  "The output for a sentence in a batch is the same as when that sentence is decoded alone, whatever sentences precede it, follow it or are decoded at the same time. A sentence that cannot be parsed by the grammar affects no other sentence.",
  ["histories", "schedules", "inputs"], "every sequence of input sentences, every thread count and interleaving",
  "The tests decode fixed inputs in one order; leakage through caches, per-thread state or the global dictionary shows only for particular histories.",
  ["src/lib/travatar-runner.cc", "src/lib/lm-composer-bu.cc", "src/lib/lm-composer-inc.cc", "src/lib/dict.cc"],
  [("per-sentence graph and rule lookup", "src/lib/travatar-runner.cc TravatarRunnerTask::Run"), ("unknown-word rules built per sentence", "src/lib/lookup-table.cc")],
  observe=["standard output", "n-best, trace and forest files"],
  technique="batches decoded under simulated schedules, each sentence compared with its own single-sentence run",
  note="Histories and schedules are sampled; the oracle is the decoder itself on a single sentence.")
P("C03", "Every task given to the worker pool runs exactly once",
  "Every task submitted before the pool is told to drain runs exactly once, and waiting for the pool returns only after all of them have finished. Submitting to a full pool blocks rather than dropping a task, stopping the pool always terminates, and no task runs after the pool has been stopped.",
  ["schedules", "histories"], "every interleaving of submitters and workers, every pool and queue size, spurious wake-ups and stalled threads",
  "The pool has no test of its own, and lost wake-ups, double execution and shut-down races depend on interleavings no test controls.",
  ["src/lib/thread-pool.cc", "src/include/travatar/thread-pool.h"],
  [("task queue under one mutex with two condition variables", "src/lib/thread-pool.cc"), ("count of running tasks", "src/lib/thread-pool.cc ThreadPool::Wait")],
  observe=["the order and number of task executions"],
  technique="the real pool under a seeded scheduler with spurious wake-ups and stalls, history checked for exactly-once, liveness as bounded progress",
  note="Exploration of interleavings of generated submit/wait/stop histories.")
P("C04", "Concurrent results come out complete and in order",
  "The ordered writer emits every record exactly once, in the order of the record numbers, no matter in which order and from which threads the records are handed in. A record whose predecessors have all been handed in is not held back, and the streams of one writer stay in step.",
  ["schedules", "histories"], "every arrival order of records, every interleaving of the threads that hand them in, buffered or not, with and without skipped records",
  "The only test hands in records from one thread in fixed orders.",
  ["src/lib/output-collector.cc", "src/include/travatar/output-collector.h"],
  [("buffer of out-of-order records under a mutex", "src/lib/output-collector.cc OutputCollector::Write")],
  observe=["the output streams"],
  technique="the real writer called from simulated threads, emitted stream compared with the reference order, duplicate and lost records counted",
  note="Exploration of arrival orders and interleavings.")
P("C05", "The symbol table behaves like an atomic map under concurrent use",
  "Concurrent lookups and insertions of symbols behave as if each took effect at one instant: equal strings always get the same number, different strings different numbers, numbers are dense, and a number maps back to its string from the moment any thread has seen it.",
  ["schedules", "histories"], "every interleaving of any mix of insertions, lookups and reverse lookups from any number of threads",
  "The tests use the table from one thread; linearizability is a statement about all concurrent histories.",
  ["src/include/travatar/symbol-set.h", "src/lib/dict.cc", "src/include/travatar/dict.h"],
  [("shared/upgrade lock around the table", "src/include/travatar/symbol-set.h"), ("double-checked insertion", "src/include/travatar/symbol-set.h SymbolSet::GetId")],
  observe=["returned numbers and strings"],
  technique="concurrent histories on the real table checked for linearizability against a sequential map, plus race detection",
  note="Short histories, every returned value checked against a sequential map.")

P("C06", "Tuned weights depend only on data, options and the random seed",
  "For given references, n-best lists or forests, options and random seed, batch tuning learns exactly the same weights with any number of threads, any interleaving of them, any memory layout and at any time of day. No interleaving crashes, deadlocks or makes two threads touch the same memory without synchronisation.",
  ["schedules", "configurations", "inputs"], "every thread count and interleaving, every tuning algorithm, evaluation measure, restart count and seed, every memory layout and clock",
  "The tests run single optimisation steps in one thread; dependence on timing, addresses or the clock is invisible in one execution.",
  ["src/bin/batch-tune.cc", "src/lib/batch-tune-runner.cc", "src/lib/tune-mert.cc", "src/lib/tune-greedy-mert.cc", "src/lib/tune-lbfgs.cc", "src/lib/tuning-example-nbest.cc", "src/lib/tuning-example-forest.cc", "src/lib/eval-measure-bleu.cc"],
  [("one task per restart in a worker pool", "src/lib/batch-tune-runner.cc"), ("one task per feature of greedy MERT, gathered under a mutex", "src/lib/tune-greedy-mert.cc"), ("cache of sentence statistics under a mutex", "src/lib/eval-measure-bleu.cc"), ("gradient summed by several threads", "src/lib/tune-lbfgs.cc")],
  observe=["standard output (the weights)", "statistics file", "exit status"],
  technique="the real tuner under a seeded scheduler, simulated clock and perturbed heap; weights compared with the one-thread run; race, deadlock and use-after-free detection",
  note="Generated n-best lists and forests (the latter decoded in the simulator); each schedule is judged against the single-threaded run of the same job.")

TOOLS_FILES = ["src/bin/", "src/lib/", "src/kenlm/lm/", "src/kenlm/util/"]
P("C07", "No program mistakes a failed read for the end of its input",
  "When opening, reading, seeking in or mapping any input of any program fails (configuration, rule table, language model, trees, alignments, n-best lists, references, standard input), at the first operation or at any later one, once or for good, the program either ends with a non-zero exit status or still produces exactly the output of an undisturbed run. It never reports success with results computed from a part of its input, never hangs, and touches no freed or foreign memory.",
  ["fault_sequences", "inputs", "configurations"], "every program, every input file and stream, every position of the failing operation, every option set, together with short and interrupted reads",
  "No test makes a read fail; the standard streams turn a failed read into an ordinary end of file, which looks like success unless every reader asks.",
  ["src/lib/io-util.cc", "src/lib/input-file-stream.cc", "src/lib/travatar-runner.cc", "src/lib/tree-converter-runner.cc", "src/lib/batch-tune-runner.cc", "src/kenlm/util/file.cc", "src/kenlm/util/file_piece.cc", "src/kenlm/util/read_compressed.cc"],
  [("streams that throw when reading fails", "src/lib/io-util.cc IoUtil::ThrowOnReadError"), ("checks of standard input", "src/lib/io-util.cc IoUtil::CheckStandardInput"), ("checked system calls", "src/kenlm/util/file.cc")],
  observe=["exit status", "standard output and every output file"],
  technique="every program run in the simulator with a failing open, read, seek or mmap at a seeded position; exit status 0 promises the output of the fault-free run",
  note="All fourteen programs; the oracle is the fault-free run of the same job.")
P("C08", "No program reports success when part of its output was not written",
  "When writing, extending, synchronising or closing any output of any program fails (standard output, n-best, trace, forest and weight files, statistics, ARPA and binary language models, temporary files), because of an error or a full disk, at any point, the program ends with a non-zero exit status unless the output is nevertheless complete and identical to that of an undisturbed run. It does not hang.",
  ["fault_sequences", "inputs", "configurations"], "every program, every output, every position of the failing operation, every amount of free disk space, together with short writes",
  "No test lets a write fail or fills a disk; buffered streams report such failures only when they are asked after the last flush.",
  ["src/lib/io-util.cc", "src/lib/output-collector.cc", "src/lib/travatar-runner.cc", "src/lib/rescorer-runner.cc", "src/lib/batch-tune-runner.cc", "src/kenlm/util/file.cc", "src/kenlm/util/fake_ofstream.hh", "src/kenlm/lm/binary_format.cc", "src/kenlm/lm/filter/arpa_io.cc"],
  [("outputs flushed and checked at the end", "src/lib/io-util.cc IoUtil::FinishOutput"), ("checked writes", "src/kenlm/util/file.cc WriteOrThrow")],
  observe=["exit status", "standard output and every output file"],
  technique="every program run in the simulator with a failing write, sync, truncate or close, or a disk that fills up at a seeded byte; exit status 0 promises the output of the fault-free run",
  note="All fourteen programs; the oracle is the fault-free run of the same job.")
P("C09", "Partial and interrupted transfers change nothing",
  "Reads and writes that transfer fewer bytes than asked for, or are interrupted by a signal and have to be repeated, change neither the output nor the success of any program: no byte is lost, repeated or reordered, wherever the operating system splits the transfers.",
  ["fault_sequences", "inputs", "configurations"], "every way of splitting and interrupting the transfers of every program, down to one byte at a time",
  "On a local file system in a test nearly every transfer is complete, so the code after a partial one is hardly ever executed.",
  ["src/kenlm/util/file.cc", "src/kenlm/util/file_piece.cc", "src/kenlm/util/read_compressed.cc", "src/kenlm/util/stream/io.cc", "src/lib/input-file-stream.cc"],
  [("loops around read and write", "src/kenlm/util/file.cc"), ("buffer refills", "src/kenlm/util/file_piece.cc")],
  observe=["exit status", "standard output and every output file"],
  technique="every program run in the simulator with seeded short and interrupted transfers; output compared with the undisturbed run",
  note="All fourteen programs; the oracle is the undisturbed run of the same job.")
P("C10", "Running out of memory or threads stops a program cleanly",
  "When an allocation, a memory mapping or the creation of a thread fails at any point of any program, the program ends with a non-zero exit status or still produces exactly the output of an undisturbed run. It never hangs waiting for threads, never unwinds under threads that are still running, never uses freed memory and never reports success with a truncated result. (An allocation that fails inside a string stream of the C++ library, which swallows it, is outside this property.)",
  ["fault_sequences", "inputs", "configurations"], "every program, every position of the failing allocation, mapping or thread creation, once or from then on",
  "No test lets an allocation or a thread creation fail, and the paths that unwind a half-started set of threads are never executed otherwise.",
  ["src/lib/thread-pool.cc", "src/kenlm/util/thread_pool.hh", "src/kenlm/util/stream/chain.hh", "src/kenlm/util/stream/chain.cc", "src/kenlm/lm/builder/pipeline.cc", "src/kenlm/lm/filter/thread.hh"],
  [("pools that stop the threads they started", "src/lib/thread-pool.cc, src/kenlm/util/thread_pool.hh"), ("chains that end the program when a worker cannot be started", "src/kenlm/util/stream/chain.cc Thread::UnhandledException")],
  observe=["exit status", "standard output and every output file"],
  technique="every program run in the simulator with a failing allocation, mapping or thread creation at a seeded position; deadlock, race and use-after-free detection; exit status 0 promises the output of the fault-free run",
  note="All fourteen programs. Ending through a null pointer counts as stopping.")
P("C11", "Every program computes a function of its inputs and options",
  "Two runs of any program with the same inputs, options and random seed produce the same outputs, byte for byte, whatever the addresses the memory allocator hands out, the contents of fresh memory, the time of day, and the scheduling of the program's threads.",
  ["schedules", "configurations", "inputs"], "every program and option set, every memory layout and fill pattern, clock and schedule",
  "A test observes one execution; dependence on addresses, uninitialised memory, the clock or timing shows only in comparison with other executions.",
  ["src/lib/", "src/kenlm/lm/filter/thread.hh", "src/kenlm/lm/filter/format.hh", "src/kenlm/lm/builder/pipeline.cc"],
  [("ordered containers and tie-breaking", "src/lib/forest-extractor.cc, src/lib/rule-composer.cc"), ("seeded random numbers", "src/lib/batch-tune-runner.cc"), ("output in sequence order", "src/kenlm/lm/filter/thread.hh OutputWorker")],
  observe=["exit status", "standard output and every output file"],
  technique="every program re-run in the simulator under other schedules, heap layouts, heap contents and clocks; outputs compared",
  note="All fourteen programs; includes race, deadlock and use-after-free detection on each run.")

P("C12", "The bounded queue of the language model tools loses and repeats nothing",
  "Every element put into the producer-consumer queue comes out exactly once, elements of one producer come out in the order in which it put them, and at no time does the queue hold more than its capacity. A full queue blocks producers and an empty one consumers, each is woken when there is room or work, and an element whose copy fails is neither lost to others nor counted. A pool built on the queue handles each request exactly once and stops.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of any number of producers and consumers, every capacity, spurious wake-ups, interrupted semaphore waits, stalled threads and failing element copies",
  "The queue has a single test with one producer and one consumer; lost wake-ups and double delivery need particular interleavings.",
  ["src/kenlm/util/pcqueue.hh", "src/kenlm/util/thread_pool.hh"],
  [("two semaphores and two mutexes around a ring", "src/kenlm/util/pcqueue.hh PCQueue"), ("workers ending on a poison request", "src/kenlm/util/thread_pool.hh Worker")],
  observe=["elements consumed and their order", "number of elements in flight"],
  technique="the real queue and pool under a seeded scheduler with interrupted waits and failing copies; history checked for exactly-once, order and capacity, liveness as bounded progress",
  note="Exploration of interleavings of generated producer/consumer histories.")
P("C13", "A stream pipeline delivers every record once and in order, or stops",
  "Records put into a chain of blocks arrive at its end exactly once, in order and unchanged, however many workers transform them on the way, whatever the block size and count, and whether they come from and go to memory, a file, or a file that is read again. The chain never uses more than its blocks, can be used again once it has finished, and ends when all of its workers have ended. If reading or writing a file below it fails, the program stops with an error instead of delivering a part.",
  ["schedules", "configurations", "fault_sequences"], "every chain shape, block size and count, record size and count including none, every interleaving of the workers, short and interrupted transfers, failing reads and writes",
  "The tests run one chain of a few records; block boundaries, empty blocks and worker interleavings are sampled at one point each.",
  ["src/kenlm/util/stream/chain.hh", "src/kenlm/util/stream/chain.cc", "src/kenlm/util/stream/stream.hh", "src/kenlm/util/stream/io.cc", "src/kenlm/util/stream/multi_stream.hh"],
  [("blocks handed on through queues, poison at the end", "src/kenlm/util/stream/chain.cc Link"), ("files read and written block by block", "src/kenlm/util/stream/io.cc")],
  observe=["records received", "file contents", "exit status"],
  technique="real chains of generated shape under a seeded scheduler with I/O faults; delivered sequence compared with the reference sequence, buffer use checked by the race and use-after-free detectors",
  note="Exploration over shapes, schedules and faults.")
P("C14", "External sorting returns exactly the input, ordered and combined",
  "Sorting a stream with temporary files returns every input record exactly once, in the order of the comparison, with equal records combined exactly as the combiner says and no others, whatever the memory allowance, block size, number of merge passes and fan-in, and whether the result is merged lazily or taken over as a file. If a temporary file cannot be written, extended or read back, the program stops with an error instead of returning a part.",
  ["schedules", "configurations", "fault_sequences"], "every number and content of records, every memory setting and hence pass structure, every interleaving of the workers, short and interrupted transfers, failing operations on temporary files",
  "The only test sorts one permutation with one configuration; pass structures, partial last blocks and failing temporary files are not covered.",
  ["src/kenlm/util/stream/sort.hh", "src/kenlm/util/stream/chain.cc", "src/kenlm/util/file.cc"],
  [("runs written and their offsets recorded", "src/kenlm/util/stream/sort.hh Offsets, BlockSorter, WriteAndRecycle"), ("k-way merge with a priority queue", "src/kenlm/util/stream/sort.hh MergingReader"), ("eager and lazy merge passes", "src/kenlm/util/stream/sort.hh Sort::Merge")],
  observe=["records received", "exit status"],
  technique="real sorts of generated data under a seeded scheduler with I/O faults; result compared with an in-memory reference sort",
  note="Exploration over data, memory settings, schedules and faults.")

P("C15", "lmplz estimates exactly the modified Kneser-Ney model of its text",
  "For every text and set of options, lmplz writes a model that holds exactly the n-grams of the text that are not to be pruned, each with the probability and back-off of interpolated modified Kneser-Ney estimation, whatever the memory settings, the number and size of blocks, the number of merge passes and the interleaving of its workers. A text that it cannot estimate a model from (reserved words, no lines, impossible discounts) is refused.",
  ["inputs", "configurations", "schedules"], "every text, order, pruning, vocabulary limit and discount setting, every memory and block setting, every interleaving of the worker threads, short and interrupted transfers",
  "No test runs the estimator as a whole; block boundaries, merge passes and worker timing are never varied, and the numbers are never compared with an independent computation.",
  ["src/kenlm/lm/builder/pipeline.cc", "src/kenlm/lm/builder/corpus_count.cc", "src/kenlm/lm/builder/adjust_counts.cc", "src/kenlm/lm/builder/initial_probabilities.cc", "src/kenlm/lm/builder/interpolate.cc", "src/kenlm/lm/builder/print.cc"],
  [("counting with deduplication in a hash table per block", "src/kenlm/lm/builder/corpus_count.cc Writer"), ("adjusted counts, statistics and pruning", "src/kenlm/lm/builder/adjust_counts.cc"), ("discounting and back-off weights", "src/kenlm/lm/builder/initial_probabilities.cc"), ("interpolation across the orders", "src/kenlm/lm/builder/interpolate.cc")],
  observe=["ARPA file", "exit status"],
  technique="the real lmplz under a seeded scheduler with random buffer settings and split transfers; every n-gram of its output compared with an executable reference estimator",
  note="The reference recomputes counts, discounts, probabilities and back-offs from the text in double precision; differences up to 3e-5 (relative to 1+|x|) are rounding.")
P("C16", "A language model answers the same whatever its file format",
  "Querying a language model gives for every word the probability, match length and unknown-word status that follow from the ARPA file by the back-off rule, whether the ARPA file is read directly or was converted to any binary format (hash table or trie, compressed pointers, quantised), and however the file is loaded. Totals, perplexities and counts of unknown words follow from these. Quantisation changes no probability when there are enough bins.",
  ["inputs", "configurations"], "every ARPA model, including those in which suffixes of longer n-grams are missing; every binary format, its parameters and memory settings; every loading method; every text; short and interrupted transfers",
  "The tests query two fixed models; table and array boundaries, hash collisions with wrap-around, pointer widths and missing n-grams are hit by particular models only.",
  ["src/kenlm/lm/model.cc", "src/kenlm/lm/search_hashed.cc", "src/kenlm/lm/search_trie.cc", "src/kenlm/lm/trie.cc", "src/kenlm/lm/trie_sort.cc", "src/kenlm/lm/bhiksha.cc", "src/kenlm/lm/quantize.cc", "src/kenlm/lm/vocab.cc", "src/kenlm/lm/binary_format.cc", "src/kenlm/util/mmap.cc", "src/kenlm/util/bit_packing.hh"],
  [("hash search with linear probing", "src/kenlm/util/probing_hash_table.hh, src/kenlm/lm/search_hashed.cc"), ("bit-packed trie with interpolation search", "src/kenlm/lm/trie.cc, src/kenlm/util/sorted_uniform.hh"), ("back-off and state", "src/kenlm/lm/model.cc ScoreExceptBackoff, FullScore")],
  observe=["standard output of query", "exit status"],
  technique="the real build_binary and query in the simulator with split and interrupted transfers, temporary files and mappings behind the seam; every answer compared with a reference back-off model",
  note="The trie builder sorts in buffers of a few hundred bytes here (hook), so that it goes through several batches.")
P("C17", "An interrupted build never leaves a model that is taken for complete",
  "If the machine or the program stops at any point while a binary language model is being written, or right after, what is then on disk is either refused when it is loaded, or it is the complete model: the same words, probabilities and match lengths. The program never hangs on it or crashes.",
  ["crash_points", "configurations", "inputs"], "every point of the run (between any two file operations or memory accesses), every subset of the pages or sectors that were not synchronised, kernel write-back at any time, both ways of writing, every format",
  "No test interrupts a build or loses unsynchronised data, and the order of data and header on disk cannot be seen by a test that lets the program finish.",
  ["src/kenlm/lm/binary_format.cc", "src/kenlm/lm/model.cc", "src/kenlm/lm/vocab.cc", "src/kenlm/util/mmap.cc"],
  [("incomplete mark until the data are synchronised", "src/kenlm/lm/binary_format.cc FinishFile"), ("word list checked when loaded", "src/kenlm/lm/vocab.cc ReadWords")],
  observe=["exception or answers when the surviving file is loaded"],
  technique="build_binary in the simulator with power loss at seeded points; the surviving image is loaded by the real code and its answers compared with the complete model's",
  note="Durability model: what msync/fsync covered survives, any other page or sector has its last synchronised or its current content; truncation and creation survive.")
P("C18", "The decoder finds the best translation and lists the best ones",
  "When no pruning limit is in the way, the translation written for a sentence is a highest-scoring one among all derivations that the rules admit for the input tree, forest or sentence; with or without pruning every translation written is the yield of a derivation, its feature values are those of the derivation's rules plus the language models' values of its words, and its score is their product with the weights. With -consider_trg a variable takes the derivations whose target label is the one it asks for, and any other one at the price of the feature unmatch_trg only if there is none. N-best lists are in descending order, contain no derivation twice, are the n best when nothing is pruned, and with -nbest_uniq contain no translation twice.",
  ["inputs", "configurations", "schedules"], "every grammar, language model, weight vector and input; every rule storage (hash, marisa, finite state, CFG), search algorithm, input format and binarisation; any number of threads under any interleaving",
  "The tests decode a handful of sentences with fixed rules; ties, rules applied at several places, reorderings of three or more variables, language model states that collide, and n-best boundaries come up only for particular grammars.",
  ["src/lib/travatar-runner.cc", "src/lib/lookup-table.cc", "src/lib/lookup-table-hash.cc", "src/lib/lookup-table-marisa.cc", "src/lib/lookup-table-fsm.cc", "src/lib/lm-composer-bu.cc", "src/lib/lm-composer-incremental.cc", "src/lib/hyper-graph.cc", "src/kenlm/search"],
  [("rule matching on trees and forests", "src/lib/lookup-table.cc TransformGraph"), ("cube pruning with language model states", "src/lib/lm-composer-bu.cc BuildChart"), ("incremental search", "src/lib/lm-composer-incremental.cc, src/kenlm/search"), ("lazy n-best extraction", "src/lib/hyper-graph.cc GetNbest")],
  observe=["standard output", "n-best file"],
  technique="the real decoder under simulated schedules, every output judged by a reference decoder that enumerates all derivations of small inputs and scores them with a reference language model",
  note="Exhaustive enumeration stops at 1500 derivations per sentence; larger ones are left out of the judgement. For the CFG storage only the membership and the scores are judged (its handling of unary rules is a heuristic).")
P("C19", "The language model filter keeps exactly the n-grams that apply",
  "filter writes every n-gram of the model that the words or phrases of the given vocabulary can produce, and only those: for single, union and multiple vocabularies, word or phrase mode, whole n-grams or their contexts, ARPA or raw count files. The lines kept are unchanged, in the order of the input, each once, with the n-gram counts of the header right; with several sentences each output file holds the n-grams of its sentence. Nothing of this depends on the number of threads, the batch size or the order in which threads finish.",
  ["schedules", "inputs", "configurations"], "every model, vocabulary and mode; every number of threads and batch size; every interleaving of the reading, filtering and writing threads; short and interrupted transfers",
  "The tests do not run the filter at all; partial batches at the end of a section, batches that finish out of order and buffers that are used again come up only for particular sizes and timings.",
  ["src/kenlm/lm/filter/filter_main.cc", "src/kenlm/lm/filter/thread.hh", "src/kenlm/lm/filter/format.hh", "src/kenlm/lm/filter/vocab.hh", "src/kenlm/lm/filter/phrase.cc", "src/kenlm/lm/filter/wrapper.hh", "src/kenlm/lm/filter/arpa_io.hh"],
  [("batches, worker pool and ordered output", "src/kenlm/lm/filter/thread.hh"), ("phrase matching with hashes of substrings", "src/kenlm/lm/filter/phrase.hh, phrase.cc"), ("counts written at the end into reserved space", "src/kenlm/lm/filter/arpa_io.cc")],
  observe=["output files", "exit status"],
  technique="the real filter under a seeded scheduler with split transfers; every output compared with a reference filter written from the description of the modes",
  note="Phrase mode is compared with a search over all ways to cut an n-gram into parts of phrases.")
P("C20", "An evaluation score is the measure of the whole corpus",
  "For every set of references and system outputs, mt-evaluator prints for each file and each measure (BLEU with all of its options, NIST, RIBES, WER, TER, 0/1, and linear or arithmetic combinations of these, over any factor) the value that the measure's definition gives for the whole corpus, and with -sent that of every single sentence. Each sentence counts exactly once and with its own reference; a file with another number of lines than the references is reported and not scored. In the bootstrap comparison the shares of wins, ties and losses sum to one, equal outputs always tie, and an output that is nowhere worse never loses. None of this depends on how the files' contents are delivered.",
  ["inputs", "configurations", "schedules"], "all references, outputs, measures and options, including empty sentences, repeated words, perfect matches and nested combinations; short and interrupted transfers",
  "The tests score a few fixed sentence pairs with five configurations; clipping of repeated words, smoothing, empty sentences, rounding at the upper bound and the combination of options come up only for particular corpora.",
  ["src/lib/mt-evaluator-runner.cc", "src/lib/eval-measure.cc", "src/lib/eval-measure-bleu.cc", "src/lib/eval-measure-nist.cc", "src/lib/eval-measure-ribes.cc", "src/lib/eval-measure-wer.cc", "src/lib/eval-measure-ter.cc", "src/lib/eval-measure-interp.cc", "src/lib/eval-measure-adv-interp.cc", "src/lib/math-query.cc", "src/tercpp"],
  [("statistics that are summed before they are turned into a score", "src/include/travatar/eval-measure.h EvalStats"), ("options in the name of a measure", "src/lib/eval-measure-loader.cc, EvalMeasure::ParseConfig"), ("bootstrap sets", "src/lib/mt-evaluator-runner.cc")],
  observe=["standard output", "exit status"],
  technique="the real mt-evaluator in the simulator with seeded corpora, measures, split and interrupted transfers; every printed number compared with measures written from their definitions",
  note="TER uses a greedy search for block moves, so its number of edits is only bounded: at least the words without a counterpart, at most (up to 20 words, where its beam does not matter) the Levenshtein distance, and a whole number. RIBES looks for contexts of the widths the implementation uses. Values whose definition divides by zero are not judged.")
P("C21", "Tuned weights have the score that batch-tune reports and cannot be bettered",
  "For every set of n-best lists or forests and references, batch-tune with mert or greedy-mert reports for its initial, zero and random restarts, and for the best of them, the score that the translations chosen by these weights really have under the measure. The weights it writes are those of the best run, absolute values summing to one (mert) or within their ranges (greedy-mert), and score no lower than the initial ones. At the end of a run no change of a single feature within its range improves the score by more than the threshold (coordinate directions, or greedy-mert with measures that are averages). Statistics written with -stat_out and read with -stat_in have the same effect as the measure itself. The result depends neither on the number of threads nor on their schedule nor on how file contents are delivered.",
  ["inputs", "configurations", "schedules"], "all n-best lists, forests, references, measures, weights, ranges, directions and restarts, including ties, duplicates, absent features, sentences without hypotheses and failed parses; all schedules of the restarts",
  "The tests run the line search on two or three hand-made lists; ties of slopes and values, boundaries at zero, rounding, shared hypergraph nodes and numbers as words come up only for particular inputs.",
  ["src/lib/tune-mert.cc", "src/lib/tune-greedy-mert.cc", "src/lib/tuning-example-nbest.cc", "src/lib/tuning-example-forest.cc", "src/lib/mert-geometry.cc", "src/lib/batch-tune-runner.cc", "src/lib/tree-io.cc"],
  [("convex hull of every sentence", "TuningExampleNbest::CalculateConvexHull, TuningExampleForest::CalculateMertHull"), ("sum of the hulls and choice of the best span", "src/lib/tune-mert.cc LineSearch"), ("restarts in parallel", "src/lib/batch-tune-runner.cc")],
  observe=["standard output", "standard error (-debug 1)", "exit status"],
  technique="the real batch-tune in the simulator with seeded lists or forests, measures, options and schedules; every reported score, weight and local optimum compared with an evaluation of all hypotheses written from the definitions",
  note="Scores are compared only where rounding of the printed weights cannot decide which hypothesis is chosen. Words of a forest that spell a variable of their edge (-1, -2) are read as variables, and <unk> is replaced by the source word in one of the two ways a hypothesis is read: known findings.")

P("C22", "The rules extracted from aligned trees are those the alignment licenses",
  "forest-extractor writes for every sentence exactly the rules that the tree or forest, the target words and the word alignment admit: minimal rules at the nodes whose target span does not overlap the rest of the sentence, unaligned target words attached as asked (not at all, to the highest node, or wherever possible), rules composed of up to the given number of minimal ones, with the limits on target words and variables, with lexicalised variants, target labels, per-rule word counts of both sides and the alignment inside the rule; each with the share (its probability in the forest, normalised where asked) it is due. Binarisation changes the tree as documented and nothing else. A file whose lines do not match the others is reported. The result does not depend on how the contents of the files are delivered.",
  ["inputs", "configurations"], "every tree, forest, sentence pair and alignment, including unaligned words at every position, unary chains and empty trees; every binarizer, attachment mode and limit; short and interrupted transfers",
  "The tests extract from three hand-made sentences; unaligned words at edges, many-to-many alignments that cross, forests with shared nodes and posteriors, and the combinations of limits come up only for particular inputs.",
  ["src/lib/forest-extractor-runner.cc", "src/lib/rule-extractor.cc", "src/lib/rule-composer.cc", "src/lib/rule-filter.cc", "src/lib/hyper-graph.cc", "src/lib/binarizer-directional.cc", "src/lib/binarizer-cky.cc", "src/lib/alignment.cc", "src/lib/tree-io.cc"],
  [("frontier of the forest", "HyperGraph::CalculateFrontier"), ("minimal rules and unaligned words", "ForestExtractor::ExtractMinimalRules, AttachNullsTop, AttachNullsExhaustive"), ("composition", "RuleComposer::TransformGraph"), ("probabilities", "HyperGraph::InsideOutsideNormalize"), ("output", "RuleExtractor::RuleToString")],
  observe=["standard output", "exit status"],
  technique="the real forest-extractor in the simulator with seeded trees, forests, alignments and options, split and interrupted transfers; the set of rules and their scores compared with a reference extractor written from the definition",
  note="At most 200 derivation steps of composition per node are generated. The CKY binarizer's order of nodes is a known finding.")

P("C23", "Hierarchical rules are those the phrase pairs of the alignment license",
  "hiero-extractor writes, for every sentence pair and word alignment, exactly the hierarchical rules of the phrase pairs that are consistent with the alignment and within the length limits: the phrase pair itself and the pair with one or two smaller, disjoint phrase pairs replaced by variables, within the limit on words, with the alignment of the remaining words, and with scores that share the phrase pair's count of one among its rules. Every phrase pair has at least one alignment link. Sentences, translations and alignments that do not match in number, and alignments that point outside of the sentences, are reported as errors. The result does not depend on how the contents of the files are delivered.",
  ["inputs", "configurations"], "every pair of sentences and alignment, with unaligned words at every position, empty lines and crossing links; every limit; short and interrupted transfers",
  "The tests extract from one hand-made pair; unaligned words at the start of the target, many-to-many links and malformed alignments come up only for particular inputs.",
  ["src/lib/hiero-extractor.cc", "src/lib/hiero-extractor-runner.cc", "src/lib/translation-rule-hiero.cc", "src/lib/alignment.cc"],
  [("phrase pairs", "HieroExtractor::ExtractPhrase"), ("rules", "HieroExtractor::ExtractHieroRule")],
  observe=["standard output", "exit status"],
  technique="the real hiero-extractor in the simulator with seeded sentence pairs, alignments and limits, split and interrupted transfers; its rules and scores compared as a multiset with a reference extractor written from the definition")

P("C24", "Tree conversion keeps the tree and changes only what was asked for",
  "tree-converter reads trees and forests in any of its formats and writes them in any other with the same words, labels, structure, alternatives and scores. Options change what they document and nothing else: splitting words at characters or into the most probable known parts replaces a word's node by a flat one over the parts, flattening removes unary productions between non-terminals and no alternatives, binarisation bounds the number of children and the original tree can be read off the result, casing changes the case of the words asked for. One tree comes out for every tree that goes in, in order, failed parses included. A tree that is cut short or has unbalanced brackets, and a forest for a format that can hold one tree only, are reported as errors. The result does not depend on how the contents of the files are delivered.",
  ["inputs", "configurations"], "every tree and forest of the five input formats, with unary chains, shared nodes, failed parses, quotes, brackets, accents and repeated words; every combination of options; truncated files; short and interrupted transfers",
  "The tests read one small tree per format; repeated words, unary chains in forests, scores under splitting and files that end early come up only for particular inputs.",
  ["src/lib/tree-io.cc", "src/lib/tree-converter-runner.cc", "src/lib/unary-flattener.cc", "src/lib/word-splitter.cc", "src/lib/word-splitter-regex.cc", "src/lib/word-splitter-compound.cc", "src/lib/binarizer-directional.cc", "src/lib/binarizer-cky.cc", "src/lib/caser.cc", "src/lib/hyper-graph.cc", "src/lib/config-base.cc"],
  [("formats", "PennTreeIO, JSONTreeIO, EgretTreeIO, RuleTreeIO, WordTreeIO, MosesXMLTreeIO"), ("order of the transformations", "TreeConverterRunner::Run"), ("splitting", "WordSplitter::TransformGraph"), ("flattening", "UnaryFlattener::TransformGraph"), ("casing", "Caser::TransformGraph")],
  observe=["standard output", "exit status"],
  technique="the real tree-converter in the simulator with seeded trees, forests, options and damaged files, split and interrupted transfers; the output parsed and compared with a reference conversion written from the documentation of the formats",
  note="Trees for which the CKY binarizer moves the root (a known finding of C22), phrases that have words beside other phrases together with splitting, and forests whose nodes Egret's notation cannot tell apart are not generated.")

P("C25", "The text tools compute what they document",
  "rescorer writes every n-best list's hypotheses, with their features and under the sentence's own number, ordered by the score asked for: the given one, the weighted sum of the features, or the expected evaluation measure under the scaled posterior of the (best N) hypotheses; its one-best output is the best of each list. mt-segmenter divides the system's words, all of them and in order, into one segment per reference sentence within the length limit; for measures that add up over sentences no division scores higher; output that cannot be divided is an error. train-caser writes for every word seen inside a sentence one of its most frequent casings. tokenizer keeps the text and splits it by the Penn treebank conventions, whatever stands beside a word. None of it depends on how the contents of the files are delivered.",
  ["inputs", "configurations"], "every n-best list, weight vector, measure, reference, text and option, with gaps in the numbering, duplicates, ties, empty sentences and tight limits; short and interrupted transfers",
  "The tests rescore and segment one small example each; ties, duplicates, gaps in numbering, tight limits and neighbouring tokens come up only for particular inputs.",
  ["src/lib/rescorer-runner.cc", "src/lib/mt-segmenter-runner.cc", "src/lib/train-caser-runner.cc", "src/lib/tokenizer-runner.cc", "src/lib/tokenizer-penn.cc", "src/lib/caser.cc", "src/lib/eval-measure-bleu.cc", "src/lib/eval-measure-interp.cc"],
  [("rescoring and minimum Bayes risk", "RescorerRunner::Rescore"), ("segmentation", "MTSegmenterRunner::GetNextRefSys, SegmentMT"), ("casing", "TrainCaserRunner::Run"), ("tokens", "TokenizerPenn::Tokenize")],
  observe=["standard output", "the n-best output", "exit status"],
  technique="the real programs in the simulator with seeded inputs and options, split and interrupted transfers; their output compared with reference computations written from the definitions (measures from the text, a dynamic programme over all divisions, tokens known by construction)",
  note="Measures without a finite value (0/0) are not generated; for measures that do not add up, the division must be at least as good as that of the same search written independently.")
P("C26", "Batch learners optimise what they document",
  "batch-tune -algorithm lbfgs reports the expected evaluation measure of its lists under the weights it writes (less the L2 penalty, plus the entropy term), never ends below where it started, and ends where plain ascent gains nothing. -algorithm online and onlinepro write exactly the weights that the documented learner (perceptron, averaged perceptron, AdaGrad; rate, margin scale, initial weights, seed) reaches on these lists, and report the measure of those weights. None of it depends on how the contents of the files are delivered.",
  ["inputs", "configurations"], "every n-best list, reference, measure, initial weight vector, learner, rate, margin, regulariser and seed; short and interrupted transfers",
  "The tests compute two gradients and one update; that a search over a wrong objective, or a learner started elsewhere, ends in wrong weights shows only in whole runs.",
  ["src/lib/gradient-xeval.cc", "src/lib/gradient.cc", "src/lib/tune-lbfgs.cc", "src/lib/tune-online.cc", "src/lib/weights-perceptron.cc", "src/lib/weights-average-perceptron.cc", "src/lib/weights-adagrad.cc", "src/lib/weights-online-pro.cc", "src/lib/tuning-example-nbest.cc"],
  [("expected score and its gradient", "GradientXeval::CalcGradient"), ("online learning", "TuneOnline::RunTuning"), ("update rules", "WeightsPerceptron, WeightsAveragePerceptron, WeightsAdagrad ::Update")],
  observe=["the weights written", "the scores reported on standard error", "exit status"],
  technique="the real batch-tune in the simulator with seeded inputs, options and seeds, split and interrupted transfers; the result compared with a reference objective, ascent from the result, and reference learners run step by step on the same lists",
  note="Objectives with a kink (brevity penalty near 1) and updates that hang on ties are counted as not decided. WER and measures without a finite value are left out of the gradient runs.")
P("C27", "Online tuning in the decoder learns from what it decodes",
  "With -tune_update the decoder scores every sentence with the weights learnt so far, language model features included; after each sentence the weights move by the difference between the features of the best translation of its n-best list under -tune_loss (against the best of the references) and of its first one, kept within -tune_weight_ranges and shrunk by -tune_l1_coeff; delayed updates change nothing until the end. -tune_weight_out holds the result of exactly these updates. A sentence without translation teaches nothing; a reference file that is too short, or several threads, are errors.",
  ["inputs", "configurations", "histories"], "every grammar, language model, input, reference, measure, range and regulariser; short and interrupted transfers",
  "No test decodes with online tuning; the weights depend on the whole history of decoded sentences.",
  ["src/lib/travatar-runner.cc", "src/lib/weights-pairwise.cc", "src/lib/weights-perceptron.cc", "src/lib/weights.cc", "src/lib/lm-composer.cc", "src/lib/hyper-graph.cc"],
  [("decode, then adjust", "TravatarRunnerTask::Run"), ("choice of the oracle", "WeightsPairwise::Adjust"), ("update, range, regularisation", "WeightsPerceptron::Update, GetCurrent")],
  observe=["the n-best output", "the weight file", "exit status and message"],
  technique="the real decoder in the simulator with seeded inputs and options, split and interrupted transfers; a reference perceptron is run over the printed n-best lists and predicts the score of every later entry and the weight file",
  note="Printed features have six digits; the error they bring is carried along, and lists in which the oracle is tied within it are not judged further. With L1 regularisation only the weight file is judged: the decoder applies the shrinking lazily.")
P("C28", "The decoder's forest, trace and trees explain its translations",
  "What the decoder writes beside a translation tells one story. The rules of a trace, taken from the root down, build exactly the printed translation, cover the input words once and in order, nest within their spans, and their features are those of the n-best entry. The forest is well formed, every edge's score is its weighted features, no node lies below itself, the best derivation below each node has the score stated there, and its derivations in order are the n-best list (unique or not). -forest_nbest_trim n keeps exactly what the n best derivations use. -nbest_tree prints the input tree, whatever its words are.",
  ["inputs", "configurations", "schedules"], "every grammar, language model, input, list length, trimming, storage, number of threads and schedule",
  "No test reads a trace, a forest or a trimmed forest that the decoder wrote and compares it with the list.",
  ["src/lib/travatar-runner.cc", "src/lib/hyper-graph.cc", "src/lib/trimmer.cc", "src/lib/trimmer-nbest.cc", "src/lib/tree-io.cc", "src/lib/lookup-table.cc", "src/lib/rule-fsm.cc", "src/lib/lm-composer-bu.cc", "src/lib/lm-composer-incremental.cc", "src/lib/dict.cc"],
  [("what is printed per sentence", "TravatarRunnerTask::Run, PrintNbestTrace, PrintForest"), ("lazy n-best", "HyperGraph::NbestGetNthPath"), ("trimming", "Trimmer::TransformGraph"), ("source tree of a path", "HyperPath::GetTreeStr")],
  observe=["standard output, n-best list, trace and forest of one run"],
  technique="the real decoder in the simulator with 1-5 threads under seeded schedules; the printed forest is unfolded into all its derivations and every trace is re-applied",
  note="Forests of more than 1500 derivations at some node are only checked edge by edge. The cfg storage writes no source sides; with -consider_trg the extra unary edges are part of the trees by design.")
