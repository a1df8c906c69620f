"""Per-property settings of the checks."""
SCHED = "POSIX threads, mutexes, condition variables, semaphores, once-guards, clocks, timers, rand(): simulated (one thread runs at a time)"
HEAP = "malloc: simulator's deterministic allocator with quarantine and layout perturbation"
IO = "open/read/write/mmap/fsync/... of files below the scratch directory: real files behind the fault-injecting seam"
TOOLS = ["main and everything below it of travatar, batch-tune, rescorer, mt-evaluator, mt-segmenter, forest-extractor, hiero-extractor, tree-converter, tokenizer, train-caser, lmplz, build_binary, query and filter", "boost::thread, boost::iostreams, libstdc++, zlib (linked libraries)"]
REACH = ["tool_" + t for t in "travatar batch-tune rescorer mt-evaluator mt-segmenter forest-extractor hiero-extractor tree-converter tokenizer train-caser lmplz build_binary query filter".split()]
BASE = {"quick": 40, "thorough": 900, "level": "exploration", "real": [], "stub": [SCHED, HEAP, IO]}
P = {
    "worker-pool-exactly-once": {"id": "C03", "real": ["src/lib/thread-pool.cc", "boost::thread (linked library)"], "must_reach": ["wait", "stop_without_draining", "bounded_queue", "unbounded_queue"]},
    "ordered-writer": {"id": "C04", "real": ["src/lib/output-collector.cc"], "must_reach": ["buffered", "unbuffered", "skipped_records"]},
    "symbol-table-linearizable": {"id": "C05", "real": ["src/include/travatar/symbol-set.h", "src/lib/dict.cc"], "must_reach": ["global_dictionary", "private_table"]},
    "decode-schedule-independent": {"id": "C01", "real": ["src/bin/travatar.cc main and everything below it (decoder, rule tables, language models, searches, output collection, kenlm query code)", "boost::thread, libstdc++, zlib (linked libraries)"], "must_reach": []},
    "decode-sentence-isolated": {"id": "C02", "real": ["src/bin/travatar.cc main and everything below it"], "must_reach": []},
    "tune-schedule-independent": {"id": "C06", "real": ["src/bin/batch-tune.cc main and everything below it (MERT, greedy MERT, L-BFGS x-eval, online learners, evaluation measures)", "src/bin/travatar.cc main (produces the forests)", "boost::thread, libstdc++ (linked libraries)"], "must_reach": ["algorithm_mert", "algorithm_greedy-mert", "algorithm_lbfgs"]},
    "input-fault-failstop": {"id": "C07", "real": TOOLS, "must_reach": REACH + ["stopped"]},
    "output-fault-failstop": {"id": "C08", "real": TOOLS, "must_reach": REACH + ["stopped", "survived"]},
    "io-chunking-transparent": {"id": "C09", "real": TOOLS, "must_reach": REACH},
    "alloc-failure-failstop": {"id": "C10", "real": TOOLS, "must_reach": REACH + ["stopped", "survived"]},
    "tool-deterministic": {"id": "C11", "real": TOOLS, "must_reach": REACH},
    "bounded-queue": {"id": "C12", "real": ["src/kenlm/util/pcqueue.hh", "src/kenlm/util/thread_pool.hh", "boost::thread, libstdc++ (linked libraries)"], "must_reach": ["failing_copies", "plain", "many_producers", "many_consumers", "request_pool"]},
    "stream-pipeline": {"id": "C13", "real": ["src/kenlm/util/stream (Chain, Chains, Link, Stream, Read, PRead, Write, PWrite, FileBuffer)", "src/kenlm/util/file.cc", "boost::thread (linked library)"], "must_reach": ["source_stream", "source_link", "source_read", "source_pread", "sink_stream", "sink_write_recycle", "sink_write", "sink_pwrite", "sink_file_buffer", "sink_worker", "chain_reused", "parallel_chains", "completed", "stopped"]},
    "external-sort": {"id": "C14", "real": ["src/kenlm/util/stream/sort.hh and the chains below it", "src/kenlm/util/file.cc", "boost::thread (linked library)"], "must_reach": ["combining", "plain", "output_default", "output_lazy", "steal_completed", "blocking_sort", "several_passes", "completed", "stopped"]},
    "lmplz-estimates-correctly": {"id": "C15", "real": ["src/kenlm/lm/builder/lmplz_main.cc and everything below it", "src/kenlm/util/stream", "boost::thread, boost::program_options (linked libraries)"], "must_reach": ["to_be_refused", "to_be_estimated", "order_1", "order_2", "order_3", "order_4", "pruned", "limited_vocabulary"]},
    "decoder-search-exact": {"id": "C18", "real": ["src/bin/travatar.cc main and everything below it"], "must_reach": ["sentence_judged_exactly", "packed_forest_enumerated", "target_label_missing", "several_target_labels"]},
    "lm-filter-exact": {"id": "C19", "real": ["src/kenlm/lm/filter/filter_main.cc and everything below it", "boost::thread (linked library)"], "must_reach": ["judged", "copy", "single", "multiple", "multiple_phrase", "union", "union_phrase", "multiple_phrase_raw", "context"]},
    "eval-measure-exact": {"id": "C20", "real": ["src/bin/mt-evaluator.cc main and everything below it", "src/tercpp"], "must_reach": ["judged", "bleu", "nist", "ribes", "wer", "ter", "zeroone", "interp", "ainterp", "bootstrap_ordered", "several_files", "too_long", "too_short"]},
    "tuned-weights-honest": {"id": "C21", "real": ["src/bin/batch-tune.cc main and everything below it (mert and greedy-mert)"], "must_reach": ["scores_compared", "optimality_checked", "coordinates", "random_directions", "greedy", "forests", "nbests", "ranges", "statistics_files"]},
    "extracted-rules-exact": {"id": "C22", "real": ["src/bin/forest-extractor.cc main and everything below it"], "must_reach": ["judged", "penn", "json", "attach_none", "attach_top", "attach_exhaustive", "binarize_none", "binarize_left", "binarize_right", "binarize_leftrp", "binarize_rightrp", "binarize_cky", "posteriors", "composed", "target_labels", "counts", "mismatch_refused", "outside_refused", "many_rules"]},
    "hiero-rules-exact": {"id": "C23", "real": ["src/bin/hiero-extractor.cc main and everything below it"], "must_reach": ["judged", "many_rules", "two_gaps", "mismatch_refused", "outside_refused"]},
    "tree-conversion-exact": {"id": "C24", "real": ["src/bin/tree-converter.cc main and everything below it"], "must_reach": ["judged", "in_penn", "in_json", "in_egret", "in_rule", "in_word", "out_penn", "out_json", "out_egret", "out_rule", "out_word", "out_mosesxml", "binarize_left", "binarize_right", "binarize_leftrp", "binarize_rightrp", "binarize_cky", "split", "compound", "flattened", "cased_low", "cased_title", "cased_true", "forest_refused", "truncated_refused", "stray_refused"]},
    "text-tools-exact": {"id": "C25", "real": ["src/bin/{rescorer,mt-segmenter,train-caser,tokenizer}.cc main and everything below it"], "must_reach": ["judged", "mbr", "mbr_trimmed", "reweighted", "best_segments", "judged_segments", "segmentation_refused", "penn_tokens", "text_kept", "identity", "train-caser"]},
    "learners-follow-their-rule": {"id": "C26", "real": ["src/bin/batch-tune.cc main and everything below it (expected-score gradient, L-BFGS, online learners, evaluation measures)"], "must_reach": ["lbfgs", "online", "onlinepro", "bleu", "ribes", "perceptron", "avgperceptron", "adagrad", "entropy", "l2", "objectives_compared", "stationary", "runs_compared"]},
    "online-tuning-follows-decoder": {"id": "C27", "real": ["src/bin/travatar.cc main and everything below it (decoding, n-best extraction, online weights)"], "must_reach": ["perceptron", "delayed", "updates", "weights_compared", "regularised", "ranges", "clamped", "several_references", "language_model", "refusals"]},
    "decoder-explains-itself": {"id": "C28", "real": ["src/bin/travatar.cc main and everything below it (decoding, n-best extraction, traces, forests, trimming)"], "must_reach": ["storage_hash", "storage_marisa", "storage_fsm", "storage_cfg", "trace_rebuilt", "nbest_tree_compared", "trimming_checked", "list_compared_with_forest", "unique_list_compared", "node_best_score_checked", "two_factors", "odd_source_words"]},
    "lm-query-faithful": {"id": "C16", "real": ["src/kenlm/lm/query_main.cc, build_binary_main.cc and everything below them"], "must_reach": ["arpa", "probing", "trie", "trie_array", "trie_quantised", "trie_quantised_array", "pruned_suffixes"]},
    "lm-binary-crash-safe": {"id": "C17", "real": ["src/kenlm/lm/build_binary_main.cc and everything below it", "src/kenlm/lm (loading and scoring)"], "stub": [SCHED, HEAP, IO, "power loss: per page or sector the last synchronised or the current content of the files; kernel write-back at seeded points"], "must_reach": ["cut_during_the_build", "cut_after_the_build", "refused", "complete", "no_file"]},
}
def name_of(x):
    for n, d in P.items():
        if x in (n, d["id"]): return n
    raise SystemExit("unknown property " + x)
def id_of(x):
    return P[name_of(x)]["id"]
def conf(prop):
    d = dict(BASE)
    d.update(P[prop])
    return d
