#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "where": w} for n, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

TT = "nephosem/models/typetoken.py"; HD = "nephosem/core/handler.py"; TM = "nephosem/core/terms.py"
VO = "nephosem/core/vocab.py"; MX = "nephosem/core/matrix.py"; MU = "nephosem/specutils/mxutils.py"
MC = "nephosem/specutils/mxcalc.py"; GR = "nephosem/core/graph.py"; DU = "nephosem/specutils/deputils.py"
DR = "nephosem/models/deprel.py"; CB = "nephosem/models/cbc.py"; CF = "nephosem/conf.py"; UT = "nephosem/utils.py"

p("C01", "Item frequency lists are exact tallies of the selected corpus files",
  "The item frequency list built from a corpus gives every item exactly the number of corpus lines (over all selected files) that the line pattern accepts and that yield that item under the configured type format, and contains no other item. "
  "The result is the same whatever the number of worker processes, the order of the files, and the way files happen to be distributed over workers. "
  "Lines that the line pattern does not accept (markup, separators, blank lines) contribute nothing.",
  ["inputs", "schedules", "configurations"],
  "all corpora (files, lines, separators, junk lines), all type formats, all worker counts, all assignments of files to workers",
  "the one test that builds a frequency list compares two runs of the code with each other and does not pass in the baseline; no test fixes the tally or varies workers",
  [TT, HD, TM],
  [("ItemFreqHandler.update_one_file/_process_results", TT), ("Paralleler.process", HD), ("CorpusFormatter.get_type", TM)],
  [("job/result queues", HD)], ["return value of build_item_freq"])

p("C02", "Co-occurrence counts equal the windowed pairs in the text",
  "The co-occurrence matrix built from a corpus holds, for every target in the row vocabulary and every context item, exactly the number of (target position, context position) pairs of the same segment whose distance is within the configured left or right span; segments are the stretches of a file between separator lines, lines that are neither words nor separators do not count as positions, and windows never cross a separator or a file end. "
  "Every word of a segment is considered as a target, in segments of any length, including ones shorter than the span. "
  "With a context vocabulary only its items are counted and they are exactly the columns; without one every context item that co-occurs is a column.",
  ["inputs", "configurations"],
  "all token sequences, segmentations, span pairs (including 0), row/context vocabularies and type/context formats",
  "the co-occurrence test returns before doing anything; no test fixes a single count",
  [TT, HD, TM],
  [("ColFreqHandler.update_one_match/process_right_window", TT), ("BaseHandler.update_one_file", HD), ("Window.update", TM)],
  [("sliding window", TM)], ["return value of build_col_freq"])

p("C03", "Parallel co-occurrence building is independent of scheduling",
  "For a given corpus, settings and vocabularies, the co-occurrence matrix (labels, label order and values) is the same for every number of workers, every assignment of files to workers, and every order in which workers finish, including workers that received no file or found nothing. "
  "Partial results of different workers are added, never overwritten or counted twice.",
  ["schedules", "configurations", "inputs"],
  "all worker counts, file-to-worker assignments and worker completion orders",
  "no test runs the co-occurrence pipeline; schedules cannot be sampled from a test that lets the OS choose",
  [TT, HD, MU],
  [("ColFreqHandler._worker_loop*/_process_results", TT), ("merge_two_matrices/transform_indices", MU), ("Paralleler.process", HD)],
  [("job/result queues, temporary partial matrices", HD)], ["return value of build_col_freq under controlled schedules"])

p("C04", "Token retrieval is complete, and each token carries its exact context",
  "Retrieving tokens returns every occurrence of every queried type in the selected files exactly once and nothing else, identified by its file (path relative to the corpus directory, without extension) and its 1-based line number. "
  "Each token's left and right contexts are exactly the words of its own segment within the spans, in text order, restricted to the context vocabulary if one is given. "
  "This holds for every number of workers (also more workers than files), every distribution of files, and every segment length and span, including span 0.",
  ["inputs", "schedules", "configurations"],
  "all corpora, query sets, spans, segment lengths, worker counts and file-to-worker assignments",
  "no test retrieves tokens at all",
  [TT, HD, TM],
  [("TokenHandler.update_one_match/process_right_window/_process_results", TT), ("BaseHandler.update_one_file", HD), ("TypeNode.merge", TM)],
  [("sliding window; result queue", HD)], ["retrieved type nodes and their tokens"])

p("C05", "Failures while processing a corpus are reported, never hidden or hung",
  "When a selected corpus file cannot be read or decoded, or a worker process dies while processing it, building frequencies, co-occurrences, tokens or dependencies ends in bounded time with an exception. "
  "It never blocks for ever and never returns a result that silently lacks the contribution of some selected file.",
  ["fault_sequences", "crash_points", "schedules"],
  "all positions of a failing file in the file list, worker counts, numbers of failing files, and kinds of failure (missing file, undecodable file, killed worker)",
  "tests only process well-formed corpora; a missing file makes the existing test hang until the test timeout",
  [HD, TT, DR],
  [("Paralleler.process", HD), ("_worker_loop/_process_results of the handlers", TT), ("DepRelHandler._process_results", DR)],
  [("worker exit status, result queue", HD)], ["exception or return value of the public build/retrieve calls"])

p("C06", "Token-by-context position matrix holds the signed distance of each context",
  "Turning retrieved tokens into a matrix gives one row per token and one column per context item occurring with any token, and each stored value is the position of that context item relative to the token: negative to the left (-1 for the adjacent word), positive to the right (+1 for the adjacent word), zero or absent only when the item is not in the token's context. "
  "When an item occurs several times in one context, the value is the position of one of its occurrences. The same positions are read from the tokens of one type when only contexts within given spans and in a given vocabulary are wanted (read_token_colloc); items left out keep their place.",
  ["inputs", "configurations"],
  "all sets of tokens with all left/right contexts, repeated items, several types and files, and context formats",
  "no test builds a position matrix",
  [MU, TT], [("transform_nodes_to_matrix", MU), ("transform_dict_to_spmatrix", MU)], None, ["returned matrix"])

p("C07", "Vocabulary selections return exactly the items that satisfy the condition",
  "Selecting from a vocabulary by item list, frequency list, frequency comparison, chained conditions, regular expression, word part, or by rank slice returns exactly the items of the vocabulary satisfying the condition, each with its own frequency. "
  "Rank order is frequency-descending with ties broken alphabetically, the sorted item listings follow the requested order and direction, and the totals (size, sum) agree with the contents. "
  "Building a sub-vocabulary from a list gives exactly the listed items, with frequency 0 for items that are unknown.",
  ["inputs", "histories"],
  "all vocabularies (ties, negative/zero/float frequencies) and all selections and chains of selections",
  "tests select from one fixed vocabulary with a few thresholds and never exercise ties or chains",
  [VO, UT], [("Vocab.__getitem__/comparisons/subvocab/match/select_items", VO), ("sort_dict", UT)], [("frequency table", VO)], ["returned vocabularies and lists"])

p("C08", "Vocabulary updates count exactly and never leak between objects",
  "After any sequence of increments, assignments, selections, copies and exports, each vocabulary's frequencies are exactly those obtained by applying its own updates in order. "
  "Updating a vocabulary never changes the data it was built from, its copies, exported dictionaries or vocabularies selected from it, and read-only operations never change it. "
  "Equality of two vocabularies holds exactly when they have the same items with the same frequencies.",
  ["histories"],
  "all interleavings of updates, selections and copies over several vocabulary objects and source dictionaries",
  "tests check single calls on fresh objects; aliasing shows only over histories",
  [VO], [("Vocab construction/copy/increment/get_dict", VO)], [("frequency table", VO)], ["contents of every live vocabulary after each step"])

p("C09", "Vocabulary files round-trip",
  "A vocabulary saved to a file and loaded back with the same format and encoding has exactly the same items and frequencies, in the JSON and in the plain text format, whatever characters the items contain that the format can carry (non-ASCII letters, spaces inside the item, slashes, quotes). "
  "The plain text file lists one item per line, in descending frequency and then alphabetical order. A file of selected types holds each of them with its frequency, 0 for unknown ones.",
  ["inputs", "configurations"],
  "all vocabularies, both file formats, and all supported encodings",
  "tests round-trip one ASCII vocabulary",
  [VO, UT], [("Vocab.save/load", VO), ("save_dict_json/save_dict_plain/load_dict_*", UT)], None, ["loaded vocabulary, file contents"])

p("C10", "Rearranging a matrix keeps every value with its labels",
  "Selecting rows or columns by name, reordering, transposing, sampling, dropping empty or sparse rows/columns, converting to dense, copying, and any chain of these, keep each remaining (row item, column item) pair attached to its original value, list the remaining items in the requested order, and never change the matrix they start from. "
  "Names that do not exist are ignored when selecting; dropping removes exactly the rows or columns without (enough) non-zero values; sums and lookups by name or index agree with the values.",
  ["inputs", "histories"],
  "all matrices (sparse, dense, square distance), item lists and chains of operations",
  "tests use one fixed matrix per operation with few items and do not chain operations",
  [MX], [("TypeTokenMatrix.submatrix/reorder/transpose/sample/drop*/empty_rows/sum/__getitem__", MX)], [("matrix with row/column labels", MX)], ["row items, column items and values of every result"])

p("C11", "Thresholding a matrix keeps exactly the cells that pass",
  "Comparing a matrix with a number (<, <=, >, >=) marks exactly the recorded cells whose value satisfies the comparison (for sparse matrices the cells that are not recorded are never marked when comparing < or <= with a positive number or > or >= with a negative number), and multiplying a matrix with such a mask keeps exactly the marked cells with their original values and labels. "
  "Explicitly recorded zeros survive masking as recorded cells, and the operands are unchanged.",
  ["inputs"],
  "all sparse/dense matrices including negative values and explicit zeros, all thresholds and comparisons, and chains of masks",
  "tests compare one small matrix with a few thresholds; explicit zeros with masks are untested",
  [MX], [("SparseMatrix comparisons/_operator_positive/multiply", MX), ("TypeTokenMatrix.multiply", MX)], None, ["mask and product matrices"])

p("C12", "Merging or concatenating matrices adds cells by name",
  "Merging co-occurrence matrices yields, for every (row item, column item) of the union of their labels, the sum of the values the inputs hold for that pair (absent counts as 0), with labels in sorted order when they had to be unioned, independent of the order of the inputs. "
  "Concatenation keeps all values with their labels, and the inputs are left unchanged.",
  ["inputs", "histories"],
  "all lists of matrices with equal, overlapping or disjoint row and column labels in any order",
  "the merge tests do not pass in the baseline; no test merges matrices with differing columns",
  [MU, MX], [("merge_two_matrices/transform_indices/merge_matrices", MU), ("TypeTokenMatrix.merge/concatenate", MX)], None, ["merged labels and values"])

p("C13", "Matrix files round-trip and leave nothing behind",
  "A matrix saved and loaded again (packed in one file or as separate files) has the same row items, column items, values and kind (sparse or dense). "
  "Saving and loading in packed form leave only the packed file in the directory, do not touch other files next to it, and a file name with or without the extension denotes the same file. "
  "Any sequence of saves and loads returns for each name the matrix saved last under it.",
  ["histories", "inputs"],
  "all matrices, names (with dots, with and without extension) and sequences of save/load operations in one directory",
  "tests save and load once in a fresh directory",
  [MX], [("TypeTokenMatrix.save/load", MX)], [("directory contents", MX)], ["loaded matrix, directory listing"])

p("C14", "Association measures follow the contingency table of the corpus",
  "For every recorded cell of a frequency matrix, each association measure equals its textbook value on the 2x2 contingency table made of the cell count, the row item's and the column item's marginal frequencies looked up by name, and the total N; positive PMI is PMI with negative values replaced by 0, and cells and labels are otherwise kept. "
  "Logarithms are natural; with expected count E = R*C/N the z-score is (O-E)/sqrt(E), the delta P measures are differences of relative frequencies, and the log ratio is the logarithm of their quotient. A value the definition leaves without meaning (the PMI of a count of 0, a division by an empty margin) is not constrained. "
  "The value of a cell depends only on its own count and marginals, so selecting or reordering rows and columns before or after computing gives the same values. "
  "The fast PMI routine and the general one agree; without given marginals the fast one uses the sums of the matrix itself.",
  ["inputs", "configurations"],
  "all count matrices, marginals, totals, measures, and selections of rows/columns",
  "tests compute each measure on one toy table; marginal lookup after selection or reordering is untested",
  [MC], [("compute_association/calc_association/compute_ppmi", MC), ("calc_pmi/lik/chisq/zscore/dice/deltap/logratio", MC)], None, ["values of the measure matrix"])

p("C15", "Token weights and token vectors combine rows matched by name",
  "The weight of a context item for a token is the type-level weight of that context item for the token's own type if the item is in the token's context, and 0 otherwise (0 for tokens whose type has no weights); when positions are kept it is multiplied by the position. The type of a token is the first two parts of its name, or the first one with the lemma token format. "
  "The token-level weighting of the tutorials (build_tc_weight_matrix; the type is all but the last two parts of the token's name) gives the same weights, for context items in any order, under the names of the token-context matrix, and 0 to context items without type-level weights. "
  "A token vector is the weighted sum (or weighted mean, or the product of the nonzero weighted values) of the second-order vectors of its context items, matched by name whatever the order of the rows, normalised as requested. "
  "compute_token_weights and compute_token_vectors reject matrices whose context items do not correspond.",
  ["inputs", "configurations"],
  "all token-context matrices, weight matrices, second-order matrices, label orders, operations and normalisations",
  "tests use one matrix with labels already aligned",
  [MC, TT], [("compute_token_weights/compute_token_vectors", MC), ("build_tc_weight_matrix", TT)], None, ["weight and vector matrices"])

p("C16", "Distance, similarity-rank and nearest-neighbour results agree with the values",
  "Similarity ranks give each row a permutation of 1..n that orders its items by the underlying value (in the requested direction), and distance matrices (cosine, euclidean, city block) and cosine similarity matrices hold the value for the two named items, symmetric with zero (one) on the diagonal, also after selecting items from them. "
  "Asking for the k nearest items of an item returns exactly min(k, n-1) other items, none of which is farther than an item left out, whatever ties the values contain.",
  ["inputs"],
  "all similarity/distance matrices (with ties, duplicate rows), all k, both directions, both axes",
  "tests use matrices without ties and compare with one fixed answer",
  [MC, MX, MU], [("compute_distance/compute_simrank", MC), ("most_similar", MX), ("get_largest_k/get_smallest_k", MU)], None, ["rank matrices, neighbour lists"])

p("C17", "Dependency matching finds every embedding of the pattern exactly once",
  "Matching a tree pattern against a dependency tree reports exactly the assignments of pattern nodes to distinct sentence nodes that preserve parent-child edges and whose node attributes and edge relations satisfy the pattern's constraints, each exactly once. "
  "With a target filter only matches whose target item is in the filter are kept; a sentence that is not a tree yields no match; matching leaves the sentence unchanged and previously found matches in place.",
  ["inputs", "histories"],
  "all dependency trees, tree patterns (linear and branching), constraints, target filters and sequences of matches",
  "tests match no pattern with branching or symmetric siblings and assert no match sets",
  [DU, GR], [("tree_match/match_level/match_successors/add_match", DU), ("PatternGraph.match_node/match_edge", GR)], [("matched nodes/edges", GR)], ["list of matches of the pattern"])

p("C18", "Dependency feature matrices count matches per target and feature",
  "The dependency matrix of a corpus holds, for every (target, feature) pair, the number of matches of the given patterns in the sentences of the selected files; sentences are the stretches between separator lines (also at the end of a file), empty stretches and non-tree sentences contribute nothing. "
  "A feature's text is determined by the matched words and relations with the target replaced by a placeholder, independent of the order of siblings in the sentence. "
  "In token mode every match counts for the single token that fills the target, named with its file and line. "
  "The matrix is the same for every worker count and distribution of files and does not depend on earlier calls; given targets restrict it to those targets.",
  ["inputs", "schedules", "configurations"],
  "all corpora of dependency sentences, pattern lists, target lists, feature forms, worker counts and file assignments",
  "no test builds a dependency matrix",
  [DR, GR, DU], [("DepRelHandler.build_dependency/read_sentence/_process_results", DR), ("MacroGraph.target/feature*", GR)], None, ["return value of build_dependency"])

p("C19", "Committee clean-up keeps a covering family without nested duplicates",
  "Cleaning scored clusters keeps only given clusters, keeps no cluster twice and none that contains another kept one, and for every dropped cluster keeps one contained in it; a singleton is kept exactly when no cluster contains it. "
  "Merging similar committees uses every committee exactly once, merges at most two into one, and merges a committee with the most similar later committee that is still free exactly when their similarity reaches the threshold.",
  ["inputs"],
  "all lists of scored clusters (equal scores, permuted duplicates, nested families) and all similarity matrices and thresholds",
  "tests check duplicates only when they are adjacent in score order and never check merging",
  [CB], [("clean_clusters/remove_duplicate/remove_superset/remove_singleton", CB), ("get_merged_committee", CB)], None, ["cleaned clusters, singletons, merged pairs"])

p("C20", "Clustering by committee accounts for every element in each recursion",
  "Each recursion of the clustering assigns every one of its elements to a committee or to the residues handed to the next recursion, and an element similar enough to some committee is added to its most similar one and is not a residue. "
  "A committee is represented by the positive pointwise mutual information of its mean frequencies against the summed frequencies of all other elements of the recursion. "
  "Residues shrink from one recursion to the next and clustering terminates; an input with no committees leaves all elements as residues.",
  ["inputs", "histories"],
  "all element sets, frequency/measure/distance matrices, thresholds and iteration limits",
  "the tests for the clustering steps are empty or do not pass in the baseline",
  [CB], [("CBC.cluster/major_steps/cbc_step2/cbc_step3", CB)], [("committees and residues per recursion", CB)], ["returned committees and residues"])

p("C21", "Settings layers override each other and never alias",
  "Loading configuration files gives exactly the options they contain (case kept, span values as integers), updating gives the loader's settings overridden by exactly the options present in the newer file, and neither loading, updating nor changing a settings dictionary changes a loader or settings handed out before. "
  "Each handler works on its own copy of the settings, so that changing a settings dictionary afterwards, or using it for several handlers, does not affect any of them. "
  "The configured column list decides which field of a corpus line is word, lemma, part of speech or any other column, and the configured boundary expressions decide which other lines are boundaries.",
  ["configurations", "histories"],
  "all configuration files, sequences of updates and mutations, column orders and type/context/token formats",
  "tests load a few fixed files once",
  [CF, TM, HD], [("ConfigLoader.load_config/update_config/settings", CF), ("CorpusFormatter", TM), ("BaseHandler.__init__", HD)], [("settings", CF)], ["settings dictionaries, formatted items"])

p("C22", "The set of processed corpus files is exactly what was asked for",
  "Without a file list all files below the corpus directory are processed, each exactly once; with a list of names exactly those; with a list file exactly the names on its non-empty, non-comment lines, where a bare name means a file of the corpus directory. "
  "The list file may be given with or without its extension '.fnames', its encoding is the configured one, and a list file that does not exist is an error.",
  ["inputs", "configurations"],
  "all directory trees, list files (comments, blank lines, bare and full names, encodings) and file lists",
  "the one test that uses a list file does not pass in the baseline",
  [HD, UT], [("BaseHandler.prepare_fnames", HD), ("read_fnames/read_fnames_of_corpus", UT)], None, ["list of files processed"])

p("C23", "Pattern and macro files are read as written",
  "Reading a pattern file gives one pattern per graph in the file, in order, with exactly the nodes, edges, constraints and identifiers written there and declared default values filled in where a value is missing; reading a macro file gives one macro per entry, tied to the pattern, target node, feature node and group numbers it names. "
  "Reading the textual arrow notation gives the tree it denotes: '->' makes the next node a child and '<-' a parent of the previous one, and brackets, which may be nested, give several children; the target is node 1 and the others are numbered in text order. "
  "A pattern of several nodes is linear exactly when no node has more than two neighbours.",
  ["inputs"],
  "all pattern trees, attribute sets, defaults, identifiers, macro definitions and arrow expressions",
  "tests check only whether a few patterns are linear",
  [GR, DU], [("PatternGraph.read_graphml/read_csv", GR), ("MacroGraph.read_xml", GR), ("parse_pattern", DU)], None, ["nodes, edges and attributes of the patterns/macros"])

p("C24", "Word query files resolve to the right search term for every corpus",
  "Reading a query file gives, in order, one entry per line that is neither blank nor a comment: the bare word, or a table from corpus name to word in which the default entry is the explicitly given default or else the first word of the line. "
  "Looking up an entry for a corpus gives the word listed for that corpus, and the default word if the corpus is not listed or no specific form is requested.",
  ["inputs"],
  "all query files and all lookups",
  "no test reads a query file",
  [UT], [("read_word_queries/get_word_str", UT)], None, ["returned queries and words"])

p("C25", "Merging, sampling and exporting tokens keeps the token population",
  "Merging token collections of a type gives all their tokens, in order, without changing the inputs, and refuses collections of different types. "
  "Sampling n tokens returns n different tokens of the collection (or the first n when so requested) in their original order; the concordance lists every token once with its contexts in text order, and a collection that was saved loads as the same tokens. "
  "Type and token names split into and are rebuilt from their parts exactly as their format says.",
  ["inputs", "histories"],
  "all token collections, formats, sample sizes and methods",
  "tests construct a handful of nodes and never merge, sample or export",
  [TM, UT], [("TypeNode.merge/sample", TM), ("TypeNode/TokenNode construction and naming", TM), ("TypeNode.save/load", TM), ("save_concordance", UT)], None, ["tokens of the results, exported lines, parts of names"])

p("C26", "Working files are private to a run and removed when it ends",
  "Processing a corpus writes its working files only below the configured temporary directory (by default one below the output directory, or the user's default one if there is no output directory) and leaves no working file behind when it succeeds. "
  "It never changes the corpus files, the output directory's existing files or the working files of another handler that uses a different temporary directory.",
  ["configurations", "schedules"],
  "all combinations of configured/unconfigured temporary and output directories, handlers, worker counts and interleavings of two handlers",
  "tests always configure a temporary directory and never look at the file system afterwards",
  [HD, TT], [("BaseHandler.__init__ temporary path", HD), ("ColFreqHandler._worker_loop*/_process_results", TT)], [("temporary directory", HD)], ["directory contents before, during and after a run"])

p("C27", "The neighbourhood of every element is clustered once, on any number of processes",
  "For every element the k nearest other elements are grouped by average linkage, cut at the given height (a number, the mean, median or a percentile of the merge heights, or the first merge that reaches a minimum size); the groups are returned with their score, the mean similarity of the pairs (times the size or its square root, or the caller's own function) and -1 for a single element, or only the best one when so requested. "
  "The clusters found do not depend on whether, and on how many, processes share the work, nor on which process gets which part of it, and nothing is left behind on disk.",
  ["inputs", "schedules"],
  "all distance matrices, neighbourhood sizes, thresholds and metrics; all assignments of groups of elements to worker processes",
  "the tests cover flat clusters of one matrix and never run the multicore version",
  [CB], [("cbc_step1_single/cbc_step1_multicore/cluster_similar_elements/hierarchical_cluster/flat_cluster/score_cluster", CB)], [("scored clusters", CB)], ["returned clusters and scores"])

p("C28", "Models built from a corpus hold the values the corpus determines, at every stage",
  "Taking a corpus through the whole chain - frequency list, vocabularies selected from it, co-occurrence matrix, marginal frequencies, a part of the matrix with the cells above a cutoff, association values, tokens, token weights, token vectors, distances, similarity ranks and nearest neighbours - gives at every stage the result that follows from the text alone, every value under the right labels although each stage has an item order of its own, and leaves the results of the earlier stages unchanged. "
  "The vectorizer classes give the same as the handlers and functions they wrap: the type vectorizer the co-occurrence matrix of its vocabulary and its association values with the marginals of that matrix; the token vectorizer, for each concept, the tokens of every variant, and the normalised vectors of exactly those tokens that have a context item whose frequency, positive PMI and log-likelihood with the token's type all exceed the cutoffs, made from such context items only.",
  ["inputs", "configurations"],
  "all corpora, spans, item formats, selections, cutoffs, measures, queries and concepts",
  "no test runs more than one stage; orders of items that differ between stages and marginals of other matrices only matter in combination",
  [TT, MC, MX, MU, VO],
  [("TypeVectorizer.fit/vectorize, TokenVectorizer.retrieve_tokens/generate_vectors", TT), ("compute_association/compute_token_weights/compute_token_vectors/compute_distance/compute_simrank", MC), ("submatrix/multiply/drop_empty/sum", MX)],
  [("tables handed from stage to stage", MX)], ["frequency lists, matrices and type nodes returned by each stage"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
