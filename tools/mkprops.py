#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- parsing
prop('C01', 'Batch experiment results do not depend on worker count or timing',
 'Parsing a test set in an experiment gives, for any number of worker processes and any order in which they finish, the same per-sentence parse trees, scores, statistics table and evaluation totals as parsing it sequentially. '
 'Every test sentence is accounted for exactly once, and result files list sentences in test-set order.',
 ['schedules', 'configurations'],
 'all worker counts, all assignments of sentences to workers, all completion orders, all small test sets incl. unparsable sentences, clock jumps between readings',
 'The experiment module is not even importable in the baseline test build; the repository only ever runs it by hand with one process, so no completion order other than the sequential one is reached.',
 ['discodop/runexp.py', 'discodop/eval.py', 'discodop/parser.py'],
 [('results keyed by sentence id, pre-filled for the whole test set', 'discodop/runexp.py doparsing'), ('incremental evaluator accumulators', 'discodop/eval.py Evaluator'), ('unordered worker pool', 'discodop/runexp.py doparsing')],
 [('results[n]', 'per-stage result tables keyed by sentence id', 'discodop/runexp.py'), ('Evaluator.acc', 'running evaluation totals', 'discodop/eval.py')],
 ['files written in the result directory', 'return value of the parse loop'])
prop('C02', 'Command-line parsing keeps input order and content for any worker count',
 'The command-line parser writes exactly one result per non-empty input sentence, in input order and under that sentence\'s identifier, and its output is byte-identical for any number of worker processes, any worker timing and any way the input stream is chunked. '
 'This holds in line, paragraph, tagged, identified and k-best modes.',
 ['schedules', 'configurations', 'inputs'],
 'all worker counts and completion orders, all input modes, inputs with blank lines and without final newline, arbitrary short reads of the input stream',
 'No test runs the command-line parser; its module is not importable in the baseline build.',
 ['discodop/parser.py'],
 [('ordered pool map', 'discodop/parser.py doparsing'), ('enumeration of non-empty lines', 'discodop/parser.py doparsing'), ('paragraph input reader', 'discodop/parser.py readinputbitparstyle')],
 observe=['output file'])
prop('C03', 'A parse depends only on its sentence, not on what was parsed before',
 'The result of parsing a sentence with a given model is the same whatever sentences the same parser object handled before, whether other parses on it are in progress and interleaved at stage boundaries, abandoned half-way or ended by an exception.',
 ['histories', 'schedules'],
 'all sequences of parse requests on one parser object (different sentences, tags, constraints, objective functions), all interleavings of partially consumed parses at stage granularity',
 'Tests never reuse a parser across sentences with several stages, let alone interleave or abandon parses.',
 ['discodop/parser.py', 'discodop/containers.pyx', 'discodop/_grammar.pxi', 'discodop/coarsetofine.pyx', 'discodop/pcfg.pyx', 'discodop/plcfrs.pyx'],
 [('weights are switched to the stage\'s model at the start of every stage', 'discodop/parser.py Parser.parse'), ('charts are created per sentence', 'discodop/parser.py')],
 [('Grammar.currentmodel', 'currently selected weights', 'discodop/_grammar.pxi')],
 ['objects yielded by the parser'])
prop('C04', 'A failure in a worker is reported, never turned into a smaller result',
 'When any parallel worker task fails with an error, the operation that started it (experiment parsing, command-line parsing, fragment extraction, treebank search) ends with an error that carries the worker\'s message, and the caller never receives a result that looks complete but lacks that worker\'s part. '
 'After a failed search request the same search object still answers later requests correctly.',
 ['fault_sequences', 'schedules'],
 'a failure of any one or several worker tasks, at any position in any completion order, in each of the parallel operations',
 'Tests inject no failures and never run the parallel code paths.',
 ['discodop/util.py', 'discodop/runexp.py', 'discodop/parser.py', 'discodop/fragments.py', 'discodop/treesearch.py'],
 [('wrapper that re-raises worker errors with traceback', 'discodop/util.py workerfunc'), ('pool/future result retrieval', 'discodop/treesearch.py, discodop/fragments.py')],
 observe=['exception raised to caller', 'returned results', 'files written'])
# ---------------------------------------------------------------- fragments
prop('C05', 'Parallel fragment extraction equals sequential extraction',
 'Extracting recurring fragments gives the same fragments with the same counts or occurrence indices for any number of worker processes and any completion order, for one treebank or two, and the division of work covers every pair of trees exactly once. '
 'This also holds for the grammars (double-DOP) built from the extracted fragments.',
 ['schedules', 'configurations', 'inputs'],
 'all worker counts (also more workers than trees), all completion orders, all small treebanks (continuous and discontinuous), all option combinations supported in parallel mode',
 'Tests call fragment extraction single-process on one toy treebank; the fragment command is not importable in the baseline build.',
 ['discodop/fragments.py', 'discodop/_fragments.pyx', 'discodop/grammar.py'],
 [('work division', 'discodop/fragments.py workload'), ('merging of per-worker fragment sets', 'discodop/fragments.py regular, recurringfragments'), ('exact counting in chunks', 'discodop/fragments.py exactcountworker')],
 [('PARAMS', 'per-process treebanks and options', 'discodop/fragments.py')],
 ['returned fragments and counts'])
prop('C06', 'Fragment extraction requests do not influence one another',
 'Within one process, the result of a fragment extraction request depends only on its own treebanks and options, whatever requests (single treebank, treebank pair, batch against several treebanks, approximate, complete or cover mode) ran before it, including ones that failed. '
 'In batch mode the result for each further treebank is the one obtained when that treebank is processed on its own.',
 ['histories', 'configurations'],
 'all short sequences of requests with differing treebanks and options in one process; failures between them',
 'Tests make one request per process with fixed options; the module keeps options and treebanks in process-wide state.',
 ['discodop/fragments.py', 'discodop/_fragments.pyx'],
 [('per-request update of the global option table', 'discodop/fragments.py main, recurringfragments, allfragments'), ('production vocabulary grows when a further treebank is read', 'discodop/fragments.py read2ndtreebank')],
 [('PARAMS', 'process-wide options and treebanks', 'discodop/fragments.py')],
 ['returned fragments and counts', 'batch output files'])
# ---------------------------------------------------------------- treesearch
prop('C07', 'Search results do not depend on query history, worker count or timing',
 'A request to a treebank searcher (counts, matching trees, matching sentences, index lists, breakdowns) with a given query, file subset, sentence range and result limit returns per file the same matches, in the same order within a file, as on a freshly opened searcher with a single worker, whatever queries were answered before, however many workers there are and in whatever order they finish. '
 'For the plain-text regex engine those matches are the ones found by applying the expression to the sentences directly.',
 ['histories', 'schedules', 'configurations'],
 'all request histories (repeated, overlapping ranges and limits, cache eviction), all worker counts and completion orders, all three search engines',
 'The search module is not importable in the baseline build; no test issues two queries to one searcher or uses more than one worker.',
 ['discodop/treesearch.py', 'discodop/_fragments.pyx', 'discodop/containers.pyx'],
 [('result cache keyed by request', 'discodop/treesearch.py FIFOOrederedDict'), ('futures mapped back to files', 'discodop/treesearch.py')],
 [('cache', 'earlier results', 'discodop/treesearch.py CorpusSearcher')],
 ['values returned by the searcher'])
prop('C08', 'Batch searches keep the order of queries and corpora',
 'A batch of queries over several corpora yields, for every corpus exactly once and in the order the corpora were given, one count per query in the order the queries were given, with zero for queries that do not match; each count equals that of issuing the query on its own. '
 'Batches that return sentences likewise yield each corpus once, in the order given. All this holds for any worker count and completion order.',
 ['schedules', 'configurations'],
 'all completion orders of the per-file or per-chunk jobs, all worker counts, queries without matches, file subsets in any order',
 'No test runs a batch query; with real workers the order in which jobs finish is rarely anything but submission order.',
 ['discodop/treesearch.py'],
 [('documented order guarantee', 'discodop/treesearch.py batchcounts'), ('job-to-file table', 'discodop/treesearch.py')],
 observe=['items yielded by batch requests'])
prop('C09', 'Search indexes are rebuilt whenever files or the file list change',
 'However the corpus files are edited, touched, added, removed or opened in different combinations over time, a newly opened searcher answers from the current contents of exactly the files it was opened with, never from an index made for other files or older contents.',
 ['histories', 'configurations'],
 'all sequences of edits (also ones within one clock tick), openings with different file sets, with and without in-memory corpora, and queries',
 'Needs multi-step histories of edits and openings with controlled modification times; no test opens a searcher.',
 ['discodop/treesearch.py', 'discodop/containers.pyx'],
 [('modification time comparison', 'discodop/treesearch.py FragmentSearcher, RegexSearcher'), ('index files next to the corpora', 'treesearchvocab.idx, treesearchline.idx, *.ct')],
 [('index files', 'persistent caches of corpora', 'corpus directory')],
 ['values returned by the searcher'])
prop('C10', 'A crash or write error while building a search index does no lasting harm',
 'If the process dies at any point, or a write fails, while search indexes are created or refreshed, then a later session on the same files either returns exactly the results of intact indexes or reports an error; it never returns wrong results and never crashes. '
 'A session after the next successful index build is always correct.',
 ['crash_points', 'fault_sequences'],
 'process death before, during or after every file operation of index creation (partial writes included), write errors and full disks at every write',
 'Tests never interrupt index creation.',
 ['discodop/treesearch.py', 'discodop/containers.pyx'],
 [('order in which index files are written and their modification times', 'discodop/treesearch.py'), ('serialization', 'discodop/containers.pyx Ctrees.tofile, Vocabulary.tofile')],
 observe=['behaviour of the next session on the directory'])
prop('C11', 'Concurrent search sessions on one directory do not corrupt each other',
 'Sessions of the plain-text search engine that are opened, queried and closed concurrently on the same corpus directory, each on its own set of unchanged files, all return the results they would return alone, for any interleaving of their file operations.',
 ['schedules'],
 'all interleavings of two or more sessions at file-operation granularity, same or different file sets',
 'No test opens two sessions; the interleavings that matter are windows of microseconds.',
 ['discodop/treesearch.py'],
 [('index file per directory', 'discodop/treesearch.py RegexSearcher')],
 observe=['values returned by each session'])
prop('C12', 'External search and tagging tools that fail never yield partial results',
 'When the external treebank search engine or part-of-speech tagger used by the system exits with an error or dies at any point of its output, or the tagger delivers output for fewer or other sentences or tokens than it was given, the caller gets an error or the complete correct result, never a partial or misaligned one. Any amount of diagnostics from the tool does not block the program, and temporary input files are removed in every case.',
 ['fault_sequences'],
 'child exit codes and signals at every point of the output stream, truncated output, output on standard error of any size',
 'The tools are not installed where tests run, and tests inject no failures.',
 ['discodop/treesearch.py', 'discodop/lexicon.py', 'discodop/util.py'],
 [('exit status and sentence/token count checks', 'discodop/treesearch.py TgrepSearcher, discodop/lexicon.py externaltagging')],
 observe=['exception or returned value', 'files left in the temporary directory'])
# ---------------------------------------------------------------- persistence
prop('C13', 'An interrupted experiment is never mistaken for a finished one',
 'If an experiment or grammar extraction dies at any point, or one of its writes fails, then using the resulting directory (re-running the experiment on its grammar, or parsing with it) either fails with an error or gives exactly the parse trees the completed experiment gives. '
 'Re-running a completed experiment reproduces its parses and scores.',
 ['crash_points', 'fault_sequences', 'configurations'],
 'process death and write errors at every file operation, for the supported grammar types',
 'Tests never interrupt an experiment nor rerun one.',
 ['discodop/runexp.py', 'discodop/parser.py', 'discodop/cli.py', 'discodop/_grammar.pxi'],
 [('grammar files are compressed (checksummed)', 'discodop/runexp.py getgrammars'), ('rule normalisation check on loading', 'discodop/_grammar.pxi testgrammar')],
 [('result directory', 'grammar, lexicon, mapping, probabilities', 'discodop/runexp.py')],
 ['parse trees after restart'])
prop('C14', 'Cached binary grammars and training trees equal what they were made from',
 'Loading a grammar or an indexed training treebank from its binary cache gives the same parses, rule weights and trees as building it from the original files; if the process died or a write failed while the cache was being made, the next load that is not itself disturbed succeeds and is correct (it never crashes or uses damaged data).',
 ['crash_points', 'fault_sequences', 'histories'],
 'death and write errors at every file operation of cache creation; any sequence of cached and uncached loads',
 'No test loads from a binary cache or interrupts its creation.',
 ['discodop/parser.py', 'discodop/_grammar.pxi', 'discodop/containers.pyx'],
 [('existence check before use', 'discodop/parser.py readgrammars, Parser._loadtrees'), ('binary formats', 'discodop/_grammar.pxi tobinfile/frombinfile, discodop/containers.pyx')],
 observe=['parse trees, grammar and treebank contents after loading'])
# ---------------------------------------------------------------- streams
prop('C15', 'Reading a compressed file gives all of it, or an error, and always ends',
 'Reading a plain or compressed (gzip, zstd, lz4) file to its end through the common file-opening function yields exactly the original contents, or raises an error when the data are truncated or damaged, the device fails, or the decompressor fails or dies. '
 'Leaving the file early, and any amount of diagnostics from the decompressor, never blocks the program.',
 ['fault_sequences', 'schedules'],
 'short reads, read errors and truncation at every offset; child death, exit codes and diagnostics output at every point; early close after any amount read; any pipe capacity and scheduling of parent and child',
 'Tests read small plain files only; pipe capacity, child failure and early close are not exercised.',
 ['discodop/util.py'],
 [('decompressor subprocess and exit status check', 'discodop/util.py genericdecompressor'), ('openread/readbytes', 'discodop/util.py')],
 observe=['data returned', 'exception', 'termination'])
prop('C16', 'Writing through a compressor either stores everything or fails loudly',
 'When a block that writes through the compressing writer ends without an error, the output file decompresses to exactly what was written; compressor failure, death or a full disk raises an error, and the program never blocks for ever.',
 ['fault_sequences', 'schedules'],
 'child death and exit codes at every point, disk errors in the child, any pipe capacity and scheduling, any write sizes, exceptions in the writing block',
 'No test uses the compressing writer.',
 ['discodop/util.py'],
 [('compressor subprocess, close and exit status check', 'discodop/util.py genericcompressor')],
 observe=['output file', 'exception', 'termination'])
prop('C17', 'The streaming tree reader is unaffected by interleaving and early end of input',
 'Reading trees incrementally from a stream of lines yields every well-formed tree exactly once, in order, each as soon as its input is complete apart from a bounded look-ahead, independent of other readers being consumed at the same time. '
 'If the stream ends or fails in the middle, the trees already complete in the lines read are the only ones produced: a truncated tree is never returned as a tree.',
 ['schedules', 'fault_sequences', 'inputs'],
 'streams in bracket, discontinuous bracket, export and Alpino XML format cut or failing at every line, any interleaving of several readers, differing line endings',
 'Tests read complete in-memory inputs with one reader at a time.',
 ['discodop/treebank.py'],
 [('line-driven co-routines', 'discodop/treebank.py incrementaltreereader')],
 observe=['yielded trees'])
prop('C18', 'Treebank readers deliver exact contents or an error under I/O faults',
 'A treebank reader yields the same sentences and trees in the same order whatever order the directory lists files in, however reads are split, and however its iterators are interleaved, restarted or abandoned. '
 'When a read fails, a compressed treebank is truncated or a file ends inside a sentence, the reader raises an error after at most the correct preceding sentences; it never skips data silently or returns an altered tree.',
 ['fault_sequences', 'schedules', 'histories'],
 'all directory orders, short reads and errors at any offset, truncation of compressed files at any offset, all orders of calls to the reader\'s methods and partial iterations, for every supported format',
 'Tests read intact files start to end in one way.',
 ['discodop/treebank.py', 'discodop/util.py'],
 [('sorted file list', 'discodop/treebank.py CorpusReader'), ('lazy block iterators and caches', 'discodop/treebank.py')],
 [('_trees_cache/_block_cache', 'lazily filled caches', 'discodop/treebank.py')],
 ['yielded items'])
prop('C19', 'A command that reports success has written its complete output',
 'When a command-line tool (treebank conversion, grammar extraction, grammar merging, fragment extraction, parsing, evaluation, treebank search, tree drawing) ends with exit status zero, its output files and standard output hold exactly the output of a fault-free run; a full disk, write error, read error or truncated compressed input leads to a non-zero exit status.',
 ['fault_sequences'],
 'a failure of any single read, write, flush or close operation, or a disk that fills at any byte, during any of the commands',
 'Tests run no command-line tool under I/O failure.',
 ['discodop/cli.py', 'discodop/fragments.py', 'discodop/grammar.py', 'discodop/parser.py', 'discodop/treebank.py', 'discodop/util.py'],
 [('with-blocks around output files', 'discodop/cli.py'), ('exceptions propagate to the interpreter', 'discodop/cli.py main')],
 observe=['exit status', 'output bytes'])
prop('C20', 'Temporary files do not outlive the operation that made them',
 'Operations that spool standard input, decompressed corpora or tagger input to temporary files remove those files when they end, whether they succeed or fail at any point.',
 ['fault_sequences'],
 'a failure at every I/O operation, worker task or child process of the operation',
 'Tests exercise none of these operations.',
 ['discodop/fragments.py', 'discodop/treesearch.py', 'discodop/lexicon.py'],
 [('unlink after use', 'discodop/fragments.py main; discodop/treesearch.py TgrepSearcher; discodop/lexicon.py externaltagging')],
 observe=['temporary directory after the operation'])
# ---------------------------------------------------------------- reproducibility & evaluation
prop('C21', 'Outputs are reproducible from run to run',
 'Grammar extraction, treebank conversion, fragment extraction, evaluation, search and parsing produce byte-identical output for identical input in every run, independent of hash randomisation, of the order in which directories are listed, of worker timing, process ids, time and memory layout.',
 ['schedules', 'configurations'],
 'all hash seeds, directory orders, worker schedules, clocks and repeated runs',
 'A test process sees one hash seed and compares nothing between runs.',
 ['discodop/grammar.py', 'discodop/treetransforms.py', 'discodop/treebanktransforms.py', 'discodop/fragments.py', 'discodop/lexicon.py', 'discodop/runexp.py', 'discodop/eval.py', 'discodop/treesearch.py'],
 [('ordered collections and sorting before output', 'discodop/grammar.py and others')],
 observe=['output files and standard output'])
prop('C22', 'Evaluation totals do not depend on the order in which sentences arrive',
 'Feeding gold/candidate pairs to the evaluator one at a time gives the same totals, per-category and confusion tables for every arrival order, equal to those of evaluating the two complete files at once; a query for intermediate scores at any moment reports exactly the sentences added so far and does not alter later results.',
 ['schedules', 'histories'],
 'all arrival orders and all interleavings of adding sentences with score queries and reports, with and without length cut-off and label deletion',
 'Tests evaluate nothing; the module is not importable in the baseline build.',
 ['discodop/eval.py'],
 [('running accumulators updated per sentence', 'discodop/eval.py Evaluator, EvalAccumulator')],
 [('acc, acc40', 'running totals', 'discodop/eval.py')],
 ['scores and reports'])
prop('C23', 'Random sentence generation follows the grammar for every random stream',
 'For every sequence of values the random source can deliver, extreme values included, generating a sentence does not fail and yields a sentence that the grammar derives, with the probability of a derivation of it; with an even random source, rules are chosen in proportion to their discounted weights. '
 'Generation leaves its grammar and repetition counters as it found them, equal random sequences give equal sentences, and grammars read from rule and lexicon files in either format are used completely or rejected with an error.',
 ['schedules', 'histories', 'fault_sequences'],
 'all streams of random numbers in [0, 1), adversarial ones included, repeated generation on one grammar with shared counters; read errors and truncation of grammar files',
 'The only test draws from the real generator and prints the result.',
 ['discodop/gen.py'],
 [('weighted choice', 'discodop/gen.py chooserule'), ('repetition discount counters', 'discodop/gen.py gen')],
 observe=['returned sentence and probability', 'printed sentences'])
prop('C24', 'Output does not depend on how input and output are delivered',
 'A command-line tool (treebank conversion, tree drawing, grammar extraction, merging and inspection, fragment extraction, parsing, evaluation) gives the same output whether its input files are plain or compressed with any supported compressor, in the default or another declared encoding, one file or (treebanks) several, or standard input where that is accepted, whether reads return all data or little at a time, and whether output goes to standard output or a file. '
 'Merging files of rules, lexical rules or fragments lists everything in any of the files exactly once with averaged weights, in whatever order the files are given.',
 ['schedules', 'histories'],
 'every way of delivering the same data: compression, encodings, short reads, pipe schedules of decompressors, file or stream, order of merged files',
 'No test runs the command line tools; readers are tested on plain files of fixed contents.',
 ['discodop/cli.py', 'discodop/util.py', 'discodop/treebank.py', 'discodop/grammar.py', 'discodop/fragments.py', 'discodop/_fragments.pyx', 'discodop/parser.py', 'discodop/eval.py'],
 [('openread', 'discodop/util.py openread, genericdecompressor'), ('merging sorted streams', 'discodop/grammar.py merge, sumrules, sumlex, sumfrags; discodop/util.py merge')],
 observe=['output files', 'standard output'])
prop('C25', 'Concurrent requests to the tree drawing server do not affect each other',
 'Each response of the tree drawing web server (web/treedraw.py) depends only on its own request, however many requests are in progress at the same time and however their threads and the LaTeX and image conversion programs interleave: it is the response a server handling that single request would give. '
 'When LaTeX or the converter is missing, fails, is killed or leaves partial output, or the disk is full, the response is an error and never the drawing of another request, a partial drawing or an empty success; a request does not block on the amount of output of these programs; afterwards no temporary files remain and the working directory of the server is unchanged.',
 ['schedules', 'fault_sequences', 'histories'],
 'every interleaving of concurrent requests and child processes, every failure of these and of temporary files',
 'There are no tests of the web interfaces.',
 ['web/treedraw.py', 'discodop/tree.py'],
 [('draw request', 'web/treedraw.py draw, drawtrees'), ('drawing', 'discodop/tree.py DrawTree')],
 observe=['HTTP responses', 'temporary files'])
prop('C26', 'Responses of the parser server do not depend on other requests',
 'Each response of the parser web server (web/parse.py) is, apart from reported times and random identifiers, the one a newly started server would give to that request alone: whatever sentences, languages, objectives, estimators, constraints and output types were requested before or are requested at the same time, however the threads of concurrent requests interleave, whether a result comes from the cache or has expired, and whether other requests were invalid or failed. '
 'The order in which grammar directories are listed does not affect responses, and a server that cannot read a grammar does not start with that grammar partially loaded.',
 ['schedules', 'histories', 'fault_sequences'],
 'every history and interleaving of requests on one server, cache expiration, failing requests, errors while grammars are loaded',
 'There are no tests of the web interfaces.',
 ['web/parse.py', 'discodop/parser.py', 'discodop/_grammar.pxi'],
 [('parse request', 'web/parse.py parse, guesslang'), ('weights of grammar', 'discodop/_grammar.pxi switch'), ('parser', 'discodop/parser.py Parser.parse')],
 observe=['HTTP responses'])
prop('C27', 'Answers of the search server depend only on the request and current corpora',
 'Each answer of the treebank search web server (web/treesearch.py: sentences, brackets, trees, fragments, exports, browsing and drawing, for the tgrep2, fragment and regular expression engines) is the one that a newly started server on a copy of the current corpus files would give to that request alone: whatever was requested before or is requested at the same time, however threads and worker pools interleave, and whatever previous servers left behind, including ones that crashed or could not write their files, before corpora were edited, added or removed or other engines were added. '
 'The sentences listed are exactly the matches in the selected texts, up to the maximum number of results. '
 'When there is a password file, no page with results or corpus contents is served without a valid user name and password, and a server that cannot read the password file does not start unprotected.',
 ['schedules', 'histories', 'crash_points', 'fault_sequences'],
 'every interleaving of requests, every history of servers and corpus edits, every crash or failed write while a server starts; modification times are monotone',
 'There are no tests of the web interfaces.',
 ['web/treesearch.py', 'discodop/treesearch.py', 'discodop/fragments.py'],
 [('requests', 'web/treesearch.py main, export, browsetrees, browsesents, draw, style'), ('corpora', 'web/treesearch.py getcorpus'), ('authentication', 'web/treesearch.py requires_auth')],
 observe=['HTTP responses'])
prop('C28', 'A failed memory allocation is reported and does no damage',
 'Whenever an allocation of memory by the compiled data structures for treebanks, vocabularies and fragments fails, the operation in progress reports it (MemoryError; a command exits with an error status): the process does not crash, no memory is corrupted, and no wrong or incomplete result is given as a success. '
 'Vocabularies, treebanks and searchers that existed before the operation remain intact and usable: what they contain is unchanged (a treebank to which trees were being added has some of these trees, completely), later operations give the same results as if the failure had not happened, and the failed operation succeeds when it is repeated with memory available. '
 'Likewise treebanks and vocabularies that were saved, loaded, pickled and extended in any order contain exactly the trees and productions put in.',
 ['fault_sequences', 'histories'],
 'every allocation of every operation failing, in every history of operations on shared objects',
 'No test makes an allocation fail, or uses objects after a failure.',
 ['discodop/containers.pyx', 'discodop/_fragments.pyx', 'discodop/treesearch.py', 'discodop/fragments.py'],
 [('treebank arrays', 'discodop/containers.pyx Ctrees.alloc, realloc, addnodes, addtrees'), ('vocabulary', 'discodop/containers.pyx Vocabulary, darray_append_uint32, darray_extend'), ('fragments', 'discodop/_fragments.pyx extractfragments, exactcountsslice, completebitsets, getctrees, readtreebank')],
 observe=['return values', 'exceptions', 'exit status', 'later results'])
prop('C29', 'Pages of the corpus browser show exactly the sentences asked for',
 'Each page of the corpus browsing web server (web/browse.py: overviews, trees, sentences with highlighted features) is the one that a newly started server on a copy of the current corpus files would give to that request alone: whatever was requested before or is requested at the same time, however threads interleave, in whatever order the directory lists the files, and however reads are split. '
 'A page shows the sentences of the requested text that belong to the requested range under their own numbers (the first sentence being number 1), completely and in order; when a corpus file cannot be read the request fails, and a page with other or fewer sentences is never shown. '
 'No page with corpus contents is served without a user name and password, which must be valid when there is a password file; a server that cannot read the password file does not start unprotected.',
 ['schedules', 'histories', 'fault_sequences'],
 'every interleaving of requests, every history of requests and corpus edits, every failing read',
 'There are no tests of the web interfaces.',
 ['web/browse.py', 'discodop/treebank.py', 'discodop/tree.py'],
 [('requests', 'web/browse.py browsetrees, browsesents'), ('corpora', 'web/browse.py getcorpus; treebank.CorpusReader.itertrees'), ('authentication', 'web/browse.py requires_auth')],
 observe=['HTTP responses'])
prop('C30', 'Experiments started at the same time do not mix their results',
 'A new experiment (discodop runexp) or grammar extraction (discodop grammar param) never changes an existing result directory, whether that holds a finished or interrupted experiment or other files: it fails and leaves every file as it was. '
 'When several are started at the same time with one new result directory, exactly one proceeds and the others fail, however their file operations interleave; the grammar, results and parses of the one that proceeds equal those it has when it runs alone. '
 'A parser started with the directory meanwhile either fails with an error or gives the parses that the completed experiment gives.',
 ['schedules', 'histories', 'fault_sequences'],
 'every interleaving of the processes, every state of the directory, every failing write',
 'Tests do not run experiments concurrently.',
 ['discodop/runexp.py', 'discodop/cli.py', 'discodop/parser.py'],
 [('new result directory', 'discodop/runexp.py startexp; discodop/cli.py grammar param'), ('parser reading it', 'discodop/parser.py readgrammars, main')],
 observe=['files in the result directory', 'exit status', 'parses'])
# ---------------------------------------------------------------- not applicable
na = [
('C40', 'Parsers return the most probable derivations', 'For every grammar and sentence, the best derivation returned by the chart parsers has maximal probability among all derivations, and a sentence is rejected only if the grammar does not derive it.', ['discodop/pcfg.pyx', 'discodop/plcfrs.pyx'], 'agenda-driven and CKY chart parsing'),
('C41', 'k-best lists are complete and sorted', 'The k best derivations extracted from a chart are distinct, sorted by probability and contain the k most probable derivations of the chart.', ['discodop/kbest.pyx', 'discodop/disambiguation.pyx'], 'lazy k-best extraction'),
('C42', 'Data-oriented parsing models assign the documented probabilities', 'Fragment grammars assign each parse tree the sum (or, for the other objectives, the documented combination) of its derivation probabilities under the chosen estimator.', ['discodop/grammar.py', 'discodop/disambiguation.pyx'], 'DOP reduction, double-DOP, estimators'),
('C43', 'Coarse-to-fine pruning only removes items below its threshold', 'Pruning with a coarser grammar only blocks fine items whose coarse projection is not in the selected part of the coarse chart.', ['discodop/coarsetofine.pyx'], 'posterior/k-best pruning'),
('C44', 'Treebank formats round-trip', 'Writing trees in a treebank format and reading them back gives the same trees, words, functions, morphology and secondary edges that the format can represent.', ['discodop/treebank.py', 'discodop/tree.py'], 'readers and writers'),
('C45', 'Binarization is reversible', 'Undoing binarization restores the original tree for every tree and every Markovization setting.', ['discodop/treetransforms.py'], 'binarize/unbinarize'),
('C46', 'Splitting and merging of discontinuous nodes is reversible', 'Splitting discontinuous constituents yields a continuous tree, and merging the marked nodes restores the original.', ['discodop/treetransforms.py'], 'splitdiscnodes/mergediscnodes'),
('C47', 'Optimal binarization minimises complexity', 'The binarization found for a production has minimal parsing complexity and fan-out.', ['discodop/treetransforms.py'], 'optimalbinarize'),
('C48', 'Treebank transformations preserve the sentence and are reversible where declared', 'Transformations leave tokens and their order unchanged, and reversible presets restore the original tree.', ['discodop/treebanktransforms.py', 'discodop/punctuation.py', 'discodop/heads.py'], 'transformation presets'),
('C49', 'Evaluation metrics equal the standard ones', 'Labelled precision, recall, F-score, exact match, tree-edit-distance and leaf-ancestor scores equal those of the reference definitions.', ['discodop/eval.py', 'discodop/treedist.py'], 'bracketing multisets'),
('C50', 'Extracted grammars are consistent with their treebank', 'Relative frequencies of extracted rules sum to one per left-hand side and every training tree is derivable.', ['discodop/grammar.py'], 'rule extraction'),
('C51', 'Outside estimates are admissible', 'Figures of merit used for A* parsing never overestimate the cost of completing an item.', ['discodop/estimates.pyx'], 'SX and SXlrgaps estimates'),
('C52', 'Agenda and bit-set containers behave as specified', 'Priority queues return items in priority order with decrease-key and deletion, and bit-set operations agree with sets of integers.', ['discodop/util.py', 'discodop/bit.pyx', 'discodop/plcfrs.pyx'], 'heap with lazy deletion; bit operations'),
('C53', 'Tree drawings show every node and edge', 'Text, SVG and LaTeX drawings contain every node and edge of the tree without overlaps.', ['discodop/tree.py'], 'grid layout'),
('C54', 'Unknown-word models smooth the lexicon consistently', 'Every word of a test sentence is mapped to a known word or signature, and smoothed lexical probabilities are proper.', ['discodop/lexicon.py'], 'signatures and smoothing'),
]
for id, t, s, f, m in na:
    prop(id, t, s, ['inputs'], 'all inputs', 'Tests sample a handful of inputs.', f, [(m, f[0])])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as out:
    for p in P:
        out.write(json.dumps(p, ensure_ascii=False) + '\n')
