# (id, title, statement, over, text, why, files, mechanism[(name, where)], observe)
P = []
def prop(i, title, statement, over, text, why, files, mech, level_note=None):
    P.append(dict(id=i, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=level_note))

prop("C01", "Levenshtein distance is the edit distance",
     "For every pair of sequences (lists, tuples or strings), the Levenshtein function returns the minimal number of "
     "insertions, deletions and substitutions that turns one into the other, as defined by the classical recurrence; it "
     "is therefore symmetric, zero exactly for equal sequences and between the length difference and the longest length. "
     "The normalised distance is that number divided by the length of the longest sequence, always in [0, 1], and 0.0 "
     "when both are empty.",
     ["inputs"], "all pairs of finite sequences over any element type with a lawful equality",
     "the tests compare a handful of word pairs; minimality for every pair of sequences of any length cannot be sampled",
     ["lib/daeso/string/levenshtein.py"],
     [("two-row dynamic program with swap to the shortest sequence", "levenshtein"),
      ("division by the longest length with empty-sequence guard", "normalized_levenshtein")])

prop("C02", "Longest common subsequence: common, maximal, same type",
     "For every pair of sequences, the LCS function returns a sequence that is a subsequence of both arguments and that "
     "has the maximal length any common subsequence can have; it always terminates and raises no exception. The result "
     "is a str for two str arguments, a tuple for two tuples and a list otherwise, and the normalised LCS is its length "
     "divided by the square root of the product of the lengths, 0.0 if either sequence is empty.",
     ["inputs"], "all pairs of finite sequences over any element type with a lawful equality",
     "the tests check a few pairs; that the backtracking always yields a common subsequence and that no longer one exists "
     "is a statement about every pair",
     ["lib/daeso/string/lcs.py"],
     [("length table and backtracking walk", "longest_common_subsequence"),
      ("normalisation by the geometric mean", "normalized_lcs")])

prop("C03", "Needleman-Wunsch finds an optimal global alignment",
     "For every pair of sequences and every similarity and gap-cost function, the Needleman-Wunsch function returns an "
     "alignment (two equally long sequences, gaps marked by the null symbol, never two gaps at one position) whose "
     "non-gap elements spell out the two arguments in order, and whose total score - the sum of the pairwise "
     "similarities and of the costs of gapped elements - is the maximum over all global alignments.",
     ["inputs"], "all pairs of sequences and all real-valued similarity and gap cost functions",
     "tests compare three word pairs under one scoring; optimality ranges over exponentially many alignments and all scorings",
     ["lib/daeso/string/needleman_wunsch.py"],
     [("score table with accumulated gap borders", "needleman_wunsch"),
      ("back pointers and trace-back to the origin", "needleman_wunsch")])

prop("C04", "Smith-Waterman and Waterman-Eggert find optimal local alignments",
     "For every pair of sequences and scoring functions, Smith-Waterman returns a local alignment, given as a list of "
     "strictly increasing pairs of positions, of maximal score among all local alignments: matched elements count their "
     "similarity and every skipped element between matches its gap cost. It is empty when no alignment scores above "
     "zero. Waterman-Eggert returns at most the requested number of alignments, each strictly increasing in both "
     "positions, and its first alignment is an optimal local alignment.",
     ["inputs"], "all pairs of sequences and all real-valued similarity and gap cost functions",
     "tests pin the output for a few strings; maximality of a local alignment cannot be sampled",
     ["lib/daeso/string/smith_waterman.py", "lib/daeso/string/waterman_eggert.py"],
     [("score table clipped at zero", "smith_waterman"), ("trace-back from the maximum", "smith_waterman"),
      ("zeroing and recalculation of the table", "waterman_eggert")])

prop("C05", "n-grams, skip bigrams and padding enumerate exactly the windows",
     "For every sequence of tokens, the n-gram functions return all contiguous windows of length n in order of position "
     "(none when the sequence is shorter than n), padding puts exactly n-1 copies of the pad symbol on each "
     "requested side, and the skip bigram functions return exactly the pairs of tokens at positions i < j with at most "
     "the given number of tokens between them, each once, in order of i and then j; the padded variants do the same for "
     "the padded sequence. The argument is left unchanged.",
     ["inputs"], "all token sequences (list, tuple or string), window sizes n >= 1 and distance limits >= 0",
     "the tests use one sentence; off-by-one windows show only for particular combinations of length, n and limit",
     ["lib/daeso/string/ngram.py", "lib/daeso/string/sgram.py"],
     [("slices of length n", "ngram_slices"), ("padding", "pad"), ("recursive skip bigram enumeration", "skip_bigram_slices")])

prop("C06", "Set similarity coefficients equal their definitions and lie in [0, 1]",
     "For every pair of sequences, type matching counts the distinct shared elements, token matching counts the tokens of "
     "the first that occur in the second, and the cosine, Tanimoto, Dice, Jaccard and overlap coefficients are the "
     "documented quotients of the number of shared types and the sequence lengths (Jaccard: number of distinct elements "
     "of both); every coefficient lies between 0 and 1 and is 0.0 instead of an error when its denominator is zero. "
     "The generalised versions do the same for any number of sequences. Arguments are not modified.",
     ["inputs"], "all (tuples of) finite sequences of hashable elements",
     "tests evaluate single word pairs; the bounds and zero guards concern every combination of lengths, repeats and overlaps",
     ["lib/daeso/string/similar.py"],
     [("set intersection and union cardinalities", "type_match"), ("zero-denominator guards", "cosine")])

prop("C07", "ROUGE scores equal their defining recall, precision and F-measure",
     "For every candidate and reference sequence, ROUGE-N is the number of candidate n-grams that occur among the "
     "reference n-grams divided by the number of reference n-grams, ROUGE-L is the F-measure of the longest common "
     "subsequence length over the two lengths, and ROUGE-S and ROUGE-SU are the F-measures of the distinct common skip "
     "bigrams (SU: after prefixing a begin marker), with F = (1+b^2)PR/(b^2 P + R) for the given beta. A score with an "
     "undefined quotient is 0.",
     ["inputs"], "all token sequences, n-gram lengths, distance limits and positive betas",
     "tests check a handful of published examples; empty, short and repetitive sequences reach the guards",
     ["lib/daeso/string/rouge.py"],
     [("count of matching n-grams", "count_match"), ("LCS F-measure", "rouge_l"), ("skip bigram F-measure", "rouge_skip_bigram")])

prop("C08", "tf*idf and idf weights follow their definitions",
     "For every collection of documents (lists of terms), the term table holds exactly the terms that occur, sorted and "
     "without repeats; term and document frequencies are the exact counts; idf weights are log(N/df) and tf*idf weights "
     "are the relative term frequency (or the 0/1 indicator) times idf, one weight per document and term, divided by "
     "log N when normalised - normalised idf thus lies in [0, 1]. Empty documents weigh 0; a single document does not "
     "divide by zero.",
     ["inputs"], "all finite collections of finite documents",
     "tests weigh one small collection; empty documents, ubiquitous terms and single documents are not exercised",
     ["lib/daeso/string/tf_idf.py"],
     [("term counting", "calculate_term_frequencies"), ("document counting", "calculate_document_frequencies"),
      ("weighting", "tf_idf")])

prop("C09", "Set median string minimises the summed distance",
     "For every non-empty sequence of strings and every symmetric distance function, the set median is an element of the "
     "sequence whose summed distance to all elements is minimal, the first such element when several tie; the distance "
     "function is only applied to pairs of elements and the sequence is left unchanged.",
     ["inputs"], "all non-empty sequences and symmetric distance functions",
     "one example is tested; minimality holds over all sequences and metrics",
     ["lib/daeso/string/median.py"], [("half-matrix accumulation of summed distances", "set_median_string")])

prop("C10", "Pairs keep, compare and iterate their source and target",
     "A Pair holds exactly the source and target it was given (None for what was not given); set() replaces both; "
     "iterating or unpacking yields the source and then the target; two pairs are equal exactly when both fields are "
     "equal, != is the negation of ==, and a pair never equals anything that is not a pair.",
     ["inputs"], "all values of the two fields, all combinations of given and omitted arguments",
     "tests compare two pairs; the equality laws quantify over all values, including falsy ones",
     ["lib/daeso/pair.py"],
     [("field assignment", "Pair.set"), ("comparison", "Pair.__eq__"), ("role order", "Pair.__iter__")])

prop("C11", "Ordered graphs mirror successors and predecessors and keep insertion order",
     "After any sequence of adding and removing nodes and edges on an ODiGraph: v is a successor of u exactly when u is "
     "a predecessor of v and both directions give the same edge attributes; a node or edge is there exactly when it was "
     "added (an edge adds its missing end nodes) and not removed since; attributes are the ones given, later ones "
     "overriding earlier ones, and no two nodes or edges share them unless the caller passed one shared dictionary. Successors, predecessors and edges are listed in order "
     "of insertion. Removing what is not there, edge tuples of a wrong length and attributes that are no dictionary raise NetworkXError.",
     ["inputs", "histories"], "all nodes, attributes and operation histories",
     "tests build one small graph; agreement of the two adjacency dictionaries is an invariant over every history",
     ["lib/daeso/graph/ograph.py"],
     [("both adjacency dictionaries are updated", "ODiGraph.add_edge"), ("nodes enter all three dictionaries", "ODiGraph.add_node"),
      ("attributes of their own", "ODiGraph.add_nodes_from")],
     "Proved for all states: add_node, add_nodes_from, add_edge (mirror, membership, attributes, frame). Bounded (histories on "
     "the real code): add_edges_from, removals, construction from data, order of insertion, errors. Trusted: dictionary "
     "semantics of OrderedDict, the VC generator, z3/cvc5.")

prop("C12", "Terminals and yields of graphs over tokens",
     "In every DaesoGraph (cyclic and shared structure included) a node is a terminal exactly when it has no successors, "
     "punctuation when it has tokens and each occurs in the punctuation string, empty when it has no tokens; terminals() and non_terminals() "
     "list exactly the admitted ones once each, honouring with_punct and with_empty. terminal_yield(n) lists exactly the "
     "admitted terminals reachable from n, each once and in pre-order, for any node including false ones such as 0, and "
     "starts at the root when no node is given. add_edge stores label and attributes in both directions, and raises "
     "ValueError and changes nothing when a node is missing.",
     ["inputs"], "all graphs, node names, token lists and flags",
     "tests cover one parse tree; the yield of shared or cyclic structure, false node names and flag combinations are not exercised",
     ["lib/daeso/graph/daesograph.py"],
     [("depth-first walk over unseen successors", "DaesoGraph.terminal_yield"),
      ("admission of terminals", "DaesoGraph.node_is_terminal"), ("existing nodes only", "DaesoGraph.add_edge")],
     "Proved for all graphs: node_is_terminal/punct/empty, terminals, non_terminals, add_edge, and that terminal_yield "
     "(when it returns) lists exactly the reachable admitted terminals once. Bounded: pre-order, termination, "
     "add_edges_from, token strings.")

prop("C13", "A graph matching stays one-to-one under any history",
     "After any sequence of adding and deleting alignments on a GraphMatching, every node is aligned at most once as "
     "source and at most once as target. Adding an alignment removes exactly the alignments that share its source node "
     "(as source) or its target node (as target), keeps all others with their relations, and aligns the pair with the "
     "given relation; deleting removes exactly that alignment, and raises NetworkXError without changing anything when "
     "there is none. The nodes present are exactly the aligned ones; the aligned source and target node look-ups return the "
     "partner or None. Source and target nodes may have the same name.",
     ["inputs", "histories"], "all node names, relations and operation histories",
     "tests run one fixed script; the one-to-one invariant and the house keeping of nodes concern every history, "
     "in particular shared source and target names",
     ["lib/daeso/pgc/graphpair.py"],
     [("freeing of old partners before the edge is added", "GraphMatching.add_align"),
      ("removal of nodes that became unaligned", "GraphMapping.del_align"),
      ("look-up of the partner", "GraphMatching.get_aligned_target_node")])

prop("C14", "A graph mapping stores exactly the alignments made; equality compares them",
     "After any sequence of operations a GraphMapping holds exactly the alignments added and not deleted since, each "
     "with its most recent relation: get_align returns that relation or None, alignments() lists them all once (or those "
     "with one of the given relations), len counts them, and the nodes present are exactly the aligned ones; deleting an "
     "absent alignment raises NetworkXError and changes nothing. Two mappings are equal exactly when their banks' file "
     "paths, graph ids, sets of (source, target, relation) and meta-data (up to surrounding white space) are equal, and "
     "!= is the negation; a deep copy is equal, independent in its alignments and meta-data, and shares banks and graphs. "
     "roots_aligned tells whether the source root is aligned with the target root.",
     ["inputs", "histories"], "all node names, relations, meta-data and operation histories",
     "tests check one small mapping; symmetric equality and exact bookkeeping hold over all alignments and histories",
     ["lib/daeso/pgc/graphpair.py", "lib/daeso/utils/etree.py", "lib/daeso/gb/graphbank.py"],
     [("edge attributes hold the relation", "GraphMapping.add_align"),
      ("removal of nodes that became unaligned", "GraphMapping.del_align"),
      ("comparison of alignments irrespective of order", "GraphMapping._alignments_equal"),
      ("comparison of banks, graphs and meta data", "GraphPairBase.__eq__")],
     "Proved for all states: add, del, get, len, alignments, _alignments_equal, roots_aligned, _graphs_equal. Bounded "
     "(execution of the real code): meta-data and bank comparison, deep copies, str. Trusted: assumed contracts of "
     "networkx.DiGraph, a finite set containing another of the same size equals it, the VC generator, z3/cvc5.")

prop("C15", "A parallel graph corpus behaves as a list of graph pairs",
     "For every history of operations a ParallelGraphCorpus holds exactly the graph pairs a Python list would hold after "
     "the same operations (append, insert, pop, del, indexing and slicing with negative and out-of-range bounds, +, +=, *, "
     "extend, clear, reverse, remove, sort, search), the same objects in the same order; slices, sums and products are new "
     "corpora with the same relations and meta-data and leave the operands alone. append, insert and item assignment of "
     "anything but a GraphPair, and adding or assigning to a slice anything but a corpus, raise TypeError; corpora with other "
     "relations raise ValueError; a failed operation changes nothing. Relations are a sorted copy of those given. == holds "
     "iff relations, meta-data and graph pairs in order are equal, != is its negation; a deep copy is equal and has its own "
     "pairs and meta-data but shares graphs and banks.",
     ["inputs", "histories"], "all corpora, indices, slices and histories of operations",
     "no test exercises the class; list semantics for every index, slice and history cannot be sampled",
     ["lib/daeso/pgc/corpus.py"],
     [("slices via extended slices", "ParallelGraphCorpus.__getslice__"), ("type and relation checks", "_check_compatibility"),
      ("comparison", "ParallelGraphCorpus.__eq__"), ("deep copies share banks", "ParallelGraphCorpus.__deepcopy__")],
     "Proved for all corpora and indices: append, insert, pop, del, get, set, slices (get, set, del), +, +=, *, extend, clear, "
     "reverse, ==, !=, set_relations. Bounded: extended slices with steps, sort, search, deep copies, histories. Trusted: the "
     "model of Python lists, sorting a sorted list changes nothing, equality of elements of meta-data, the VC generator, z3/cvc5.")

prop("C16", "Graph banks are identified by file; purging and writing share them",
     "A GraphBank's path is the real path given; two banks (sparse or not) are equal exactly when their paths are the same or "
     "lead to the same existing file, and != is the negation. After purge() every graph pair has banks equal to those before, "
     "banks of the same file are one and the same object throughout the corpus, and nothing else changes; purge(pair) does this "
     "for that pair only. A written corpus has one <file> per distinct bank, with distinct ids, to which each graph pair refers; "
     "its path, relative to the directory written to (or absolute with abs_path), leads to the bank's file. get_graph returns "
     "the graph with the id or raises KeyError.",
     ["inputs"], "all corpora, banks and paths",
     "tests never purge or write a corpus; sharing by file concerns every combination of equal and identical banks",
     ["lib/daeso/gb/graphbank.py", "lib/daeso/pgc/corpus.py"],
     [("comparison by file", "GraphBank.__eq__"), ("remapping of banks", "ParallelGraphCorpus.purge"),
      ("ids and paths of banks", "PGCGenerator._gen_aligned_graphs"), ("relative paths", "PGCGenerator._gen_graphbanks")],
     "Proved for all corpora, banks and paths: purge, == and != of banks, their creation, get_graph, the ids and paths of the banks "
     "written. Bounded: all of it on real files and links. Trusted: os.path.realpath and samefile, banks hash by identity, the VC generator, z3/cvc5.")

prop("C17", "A corpus written as XML reads back as the same corpus",
     "Writing a corpus gives, in order, one <graph_pair> per graph pair with the ids of its banks and graphs and one <align> "
     "per alignment with the ids of the nodes and the relation, the relations of the corpus, and all meta-data of corpus and pairs "
     "(elements, attributes, text). Reading it gives an equal corpus: the same relations, and pairs with equal banks, graph ids, "
     "alignments and meta-data, in the same order, whatever names and text they contain (any unicode XML can express; blanks around "
     "a listed relation are layout), from a named file, a file-like object or a string; writing that again gives the same document.",
     ["inputs"], "all corpora, ids, relations, texts and meta-data",
     "no test writes or reads a corpus; exact round trips concern every text, id and combination of parts",
     ["lib/daeso/pgc/corpus.py"],
     [("graph pairs and alignments", "PGCGenerator._gen_aligned_graphs, _gen_node_pairs"),
      ("reading of graph pairs", "PGCParser.handle_graph_pair_elem_start"),
      ("relations and meta-data", "PGCGenerator._gen_relations, PGCParser.handle_meta_data_elem_end")],
     "Proved for all corpora: the elements written for pairs, alignments, relations and meta-data, and what the handlers make of "
     "them when read. Bounded: whole documents through ElementTree, encodings, round trips. Trusted: ElementTree, the VC "
     "generator, z3/cvc5.")

prop("C18", "Graph loading modes link every graph pair to the right graphs",
     "A corpus gives the same graph pairs, banks and alignments however its graphs are loaded: with LOAD_ALL every pair holds the "
     "very graphs of its banks, which hold all graphs of their files; with LOAD_SPARSE each bank holds just the graphs used, "
     "each with the id and content in its file, and equal references share one graph; with LOAD_NONE stubs with the ids "
     "referred to. Banks lie at the path given, relative to the corpus; with relax_gb_paths one that does not exist there is "
     "taken from the directory of the corpus. Missing attributes, banks, graphs and files raise DaesoError. Replacing a stub "
     "puts the graph in the place of the stub in every client, and nowhere else.",
     ["inputs", "histories"], "all corpora with pairs of different graphs, modes and paths",
     "no test reads a corpus; the links hold for every sharing pattern of graphs, pairs and banks, beyond any sample",
     ["lib/daeso/pgc/corpus.py", "lib/daeso/gb/graphbank.py", "lib/daeso/gb/graphstub.py", "lib/daeso/gb/parser.py"],
     [("stubs and their clients", "GraphStub.replace_stub"), ("sparse loading", "SparseGraphBank.load"),
      ("banks and graphs of a pair", "PGCParser._get_banks, _get_graphs"), ("paths", "PGCParser.handle_file_elem_end"),
      ("missing graphs", "XmlGraphbankParser._check_for_unresolved_graphs")],
     "Proved: stubs and their replacement, sparse loading and its errors, look-up of banks and graphs of a pair, paths of banks. "
     "Bounded: the reading of whole corpora from files. Trusted: os.path, weak dictionaries are dictionaries "
     "(clients keep stubs alive), each graph pair has its own pair of graphs, ElementTree, the VC generator, z3/cvc5.")

prop("C19", "GraphML parsing yields the graphs, attributes and defaults of the document",
     "Parsing a GraphML document whose edges follow their nodes, from a file or a string in any pieces, gives for each graph one "
     "under its id with exactly its nodes and edges. A data element is an attribute of the graph, node or edge it is in, named by "
     "its key for that component, else for all; an undefined key raises DaesoError. Unless data says otherwise, components "
     "have the defaults of their keys, those for the component before those for all. Data 'tokens' are the graph's or node's "
     "tokens, split at blanks; graph data 'root' is the root. Graphs without tokens and nodes without label or tokens raise "
     "DaesoError. Sparse parsing yields just the graphs asked for, and DaesoError if one is missing.",
     ["inputs"], "all valid documents, keys, defaults and orders of elements",
     "tests load two documents of one producer; keys, defaults and orders range over every document",
     ["lib/daeso/gb/graphml.py", "lib/daeso/gb/parser.py"],
     [("keys per component", "GraphmlParser._start_key"), ("look-up of names", "GraphmlParser._lookup_attr_name"),
      ("data", "GraphmlParser._end_data"), ("defaults", "GraphmlParser._set_defaults"),
      ("wanted graphs", "GraphmlParser._start_graph")],
     "Proved for all keys, defaults and data: the handlers of keys, defaults, data, text, starts of graphs and ends of nodes. Bounded: "
     "whole documents through expat. Trusted: expat's events, the tables of components are distinct, tokens are set "
     "by the graph (C12), the VC generator, z3/cvc5.")

prop("C20", "Alignment evaluation counts and measures",
     "For every series of pairs of corpora with equally many graph pairs, each AlignEval.add appends one row per relation and one "
     "whatever the relation, holding the numbers of true alignments, of predicted ones, and of those in both, with "
     "that relation (in both corpora) or with any; corpora of different sizes raise AssertionError and leave no trace. Precision is "
     "common/predicted, recall common/true and F the weighted harmonic mean for beta in [0, 1], each 0 when its "
     "denominator is 0. Sums, means, variances (n-1) and deviations over the parts, and macro and micro means over parts and "
     "over relations, are those of these numbers; the printed report shows them.",
     ["inputs", "histories"], "all alignments, relations, numbers of graph pairs and of added corpora",
     "no test touches the module; exact bookkeeping and the treatment of zero counts concern every corpus",
     ["lib/daeso/pgc/evaluate.py"],
     [("one pass over true and one over predicted alignments", "AlignEval.add"),
      ("zero instead of division by zero", "AlignCounts._calc_f_score"),
      ("statistics over the parts", "AlignCountsTable.run_eval"), ("statistics over the relations", "AlignEval.run_eval")],
     "Proved for all corpora: the counting (add), the measures, sums, means, variances and deviations per table, and the overall "
     "sums and macro and micro means for the default relations. Bounded: the whole of run_eval, other sets of relations, the report. Trusted: "
     "graph pairs are as in C14 (alignments listed once, get_align), floats are real, the VC generator, z3/cvc5.")

prop("C21", "Inter-annotator agreement compares every annotator with every other",
     "For two or more annotators with distinct names, cross_evaluate compares every ordered pair of different annotators "
     "exactly once, under the pair of their names; with words_only exactly the alignments between two terminals "
     "count. tableize puts, for each relation (and any), the measure for (true, predicted) at [true][predicted]. "
     "In an AnalysesTable the mean of a column is that of its off-diagonal cells, SD their sample standard deviation (0 "
     "for two annotators), and the overall values those of all off-diagonal cells. Printed tables show these numbers, and "
     "pickled results load again as the same numbers.",
     ["inputs"], "all numbers and names of annotators, alignments and cell values",
     "no test touches the module; means and deviations over every table size cannot be sampled",
     ["lib/daeso/pgc/agreement.py"],
     [("column and overall means", "AnalysesTable.calculate_av"), ("deviations", "AnalysesTable.calculate_sd"),
      ("all ordered pairs", "cross_evaluate"), ("removal of alignments of non-terminals", "read_corpora")],
     "Proved for tables of every size >= 2 and all cell values: means and deviations. Bounded (real code on "
     "generated corpora): cross_evaluate, words_only, tableize, printing, pickling. Trusted: floats are real, labels distinct "
     "and other than 'overall', the VC generator, z3/cvc5.")

prop("C22", "Corpus statistics count exactly what the options select",
     "For every corpus with the five relations, a row of graph_pair_stats counts the graph pairs not discarded (failed parses or unaligned "
     "roots, unless asked for), of these the ones with failed parses, with unaligned roots, and with neither, and their "
     "alignments, in all and per relation, leaving out those of an empty or punctuation node unless asked for. Per bank "
     "graph_stats counts graphs, their tokens, nodes, and which of them were aligned. Percentages and averages are those of "
     "the counts (per row and overall; overall counts are the column sums), and are left at 0 when there is nothing to count. "
     "A table written reads back with the same rows. Segment counts are those of the segments of each corpus.",
     ["inputs"], "all corpora, banks and combinations of options",
     "no test touches these modules; the interplay of options, discarded pairs and marks on shared graphs ranges over every corpus",
     ["lib/daeso/pgc/pgcstats.py", "lib/daeso/gb/gbstats.py", "lib/daeso/stats/table.py", "lib/daeso/stats/corpus.py"],
     [("graph pairs and node pairs", "graph_pair_stats, node_pair_stats"), ("graphs and nodes", "graph_stats, node_stats"),
      ("tables", "StatsTable.write, read"), ("overall values", "calc_count_overalls, calc_percent_overalls")],
     "Proved for all corpora and options (no token threshold): the counting per row, the marks left on graphs and nodes, percentages, averages, "
     "overall values. Bounded: whole runs on files, tables written and read, segment counts. Trusted: floats are "
     "real, graph predicates are pure, the VC generator, z3/cvc5.")


prop("C23", "A difference report lists every alignment once, under what became of it",
     "For two annotations of the same graph pairs the report shows, per graph pair and in order, each alignment of the first (with a listed "
     "relation) exactly once: under identical (if asked for), relation different, or only in the first; and each alignment of the second that the "
     "first lacks under only in the second. With words_only exactly the alignments of two terminals count. In a part, alignments are "
     "in the order of the number of the source node; numbers run on through the report; each shows both relations (none if absent), nodes, "
     "labels, spans and tokens, whatever characters these contain; comments are shown if asked for. All of it goes to the output given. "
     "Annotations of different graph pairs are rejected.",
     ["inputs"], "all pairs of corpora whose nodes are numbered, and all options",
     "no test runs a report; which part an alignment belongs to depends on both annotations, the options and the graphs",
     ["lib/daeso/pgc/diff.py"],
     [("parts of the report", "pgc_diff"), ("one part", "print_alignments"), ("order", "cmp_nodes")],
     "Proved for all corpora: what each part contains, exactly once and in which order, its heading, place and numbers. Bounded: the text "
     "of the lines, comments, encodings. Trusted: list.sort sorts, relations are not empty, the VC generator, z3/cvc5.")

prop("C24", "Spans, texts and alignments of the elements of a Hitaext document are exact",
     "After update with any settings every element of a text has its number among the elements with its tag (from 1), is found in the tables by "
     "that number and by its id, and holds no alignments; an ignored element (or one inside of it) is marked and has no span; any other has the "
     "span of the text where its content (stripped, with the breaks asked for) stands, which is what get_elem_text gives; children follow one "
     "another; nothing stays from an earlier update. The links of a document become, in order, alignments of exactly the elements they "
     "name on both sides, by number or id, and the alignments of the elements become exactly the links of the document, in the order of the "
     "source text. A document written and read has the same links, method, filenames and settings; its texts are found beside it. An unknown "
     "method is rejected.",
     ["inputs", "histories"], "all texts, settings, repeated updates, links between existing elements, both methods",
     "tests have one text; spans depend on nesting, tails and ignored parts at any depth, and links on counts over the whole text",
     ["lib/daeso/ptc/ielemtree.py", "lib/daeso/ptc/document.py"],
     [("spans, numbers, tables", "IndexElemTree.index_elem/update"), ("text of an element", "IndexElemTree.get_elem_text"),
      ("links to alignments", "HitaextDoc.inject_alignments*"), ("alignments to links", "HitaextDoc.extract_alignments*")],
     "Proved for all texts, settings and links: index_elem (recursion over its contract), update, get_elem_text, inject and extract by both methods. "
     "Bounded: files, filenames, settings of a document. Trusted: ElementTree, laws of strings, the VC generator, z3/cvc5.")


prop("C25", "Text alignment links exactly the chosen pairs within aligned scopes",
     "Aligning a corpus of two texts first clears (if asked for) exactly the links from an element with the source focus tag or to one with "
     "the target focus tag. Then within each pair of aligned elements with scope tags (the two roots if no scope is given) "
     "every pair of elements with the focus tags below them, outside ignored parts, is scored once, by "
     "the similarity of its terms and weights, and exactly the pairs the filter leaves are added, once, to the alignments; all others stay. "
     "The threshold filter keeps, in order, what scores above it. The filter of crossing alignments keeps pairs at or above "
     "its threshold in descending order, no two of which cross, and leaves one out only if it crosses a kept one scored no lower. Weighted "
     "cosine is the cosine of the weights (0 for a zero vector); term functions give the n-grams of words, characters, or "
     "lower-case words without punctuation marks.",
     ["inputs"], "all texts, links, tags, scores (with ties), thresholds and functions plugged in",
     "no test touches this module; what is kept depends on all scores and the order of elements at once",
     ["lib/daeso/ptc/textalign.py"],
     [("a corpus", "TextAlignerBase.align_corpus"), ("scores", "TextAligner._score_sim"), ("no crossing", "no_cross_filter_factory"),
      ("alignments made", "TextAligner._create_alignments"), ("links cleared", "clear_alignments")],
     "Proved for all inputs: each step named and their order for scopes, links and scores. Bounded: whole runs on files, the composition of "
     "the steps within a scope. Trusted: list.sort, reals for floats, strings, ElementTree, the VC generator, z3/cvc5.")


prop("C26", "Evaluation and differences of text alignment account for every link",
     "For two parallel text corpora on the same texts, whose elements have ids, and a tag: the alignments counted are exactly the different pairs "
     "of ids of links with that tag at both ends; counts of true, predicted and common alignments, the ratio, precision, recall and F-score (0 "
     "where undefined, all but the ratio within 0 and 1) are exact for every pair of corpora, and the last row has those of the summed counts. The "
     "report of differences lists, with running numbers, in the order of the elements with the tag, exactly the links from such an "
     "element which the other corpus lacks (first those of the true corpus, then those predicted), with ids and texts, whatever characters they have.",
     ["inputs"], "all documents, links (also repeated), tags and pairs of corpora",
     "no test touches these modules; sums and differences range over all links of both corpora",
     ["lib/daeso/ptc/evaluate.py", "lib/daeso/ptc/diff.py"],
     [("alignments counted", "get_alignment, count_alignment"), ("scores", "compute_scores"), ("rows and totals", "eval_alignment"),
      ("differences", "print_diff"), ("reading", "read_corpus")],
     "Proved for all inputs: all functions of both modules. Bounded: form of reports, files. Trusted: reals for floats, ElementTree, C24, the VC "
     "generator, z3/cvc5.")


prop("C27", "A graph corpus made from a text corpus has a graph pair for every link kept",
     "The parallel graph corpus created from a parallel text corpus aligned by ids and two graph banks has, in the order of the links, "
     "exactly one graph pair of its own for each link whose ends have the focus tags, whose sentences have at most the maximum number of tokens "
     "(lower-case words between white space) and differ in at least the minimum number of tokens (if one is given): tokens "
     "of either that do not occur in the other, each as often as it occurs. Its graphs are those with the ids of the link in the source and "
     "target bank, it refers to these banks, each read in its format, and has no alignments; the corpus has the relations given (sorted) and no meta "
     "data. A link to an element that does not exist, or one kept without a graph, raises KeyError.",
     ["inputs"], "all texts, links, banks, focus tags, formats, relations and limits",
     "no test touches this module; which links are kept depends on the texts on both sides of each",
     ["lib/daeso/pgc/creation.py", "lib/daeso/gb/graphbank.py"],
     [("graph pairs of the links", "pgc_from_ptc"), ("difference in tokens", "_token_diff"), ("graphs of a bank", "GraphBank.load/get_graph")],
     "Proved for all inputs: every function of creation.py, GraphBank.load and get_graph. Bounded: files of texts and banks, writing and reading "
     "the corpus made. Trusted: ElementTree and expat, C13, C19, C24, the VC generator, z3/cvc5.")


prop("C28", "Splitting, joining, copying and archiving corpora loses nothing",
     "pgc_split writes the graph pairs of a corpus, in order and each once, to parts of the size given (the last may be smaller); without a size "
     "all parts have the smallest size that makes at most as many parts as asked for (2 by default). Every part has the relations and "
     "meta data of the corpus. pgc_join writes the graph pairs of all corpora that match its patterns, in sorted order of the files, with the "
     "relations and meta data of the first, each graph bank loaded once; corpora with different relations raise ValueError. pgc_cp copies "
     "each source that exists and is a valid corpus, to the target or under its own name in a target directory; it never copies a file onto itself, "
     "nor over another file unless asked to, and exits if there are several sources without a directory. pgc_zip puts every corpus and "
     "every graph bank its graph pairs are from in one directory of the archive. No other file changes; graph pairs refer to the same banks as before.",
     ["inputs", "histories"], "all corpora, numbers and sizes of parts, file names, files present, and flags",
     "no test runs these tools; what is kept depends on numbers, sizes and files that exist at once",
     ["bin/pgc_split.py", "bin/pgc_join.py", "bin/pgc_cp.py", "bin/pgc_zip.py", "lib/daeso/pgc/corpus.py"],
     [("parts", "pgc_split"), ("joined corpora", "pgc_join, ParallelGraphCorpus.__iadd__"), ("copies", "pgc_cp"), ("archives", "pgc_zip")],
     "Proved for all inputs: the four scripts, with slices, lengths and addition of corpora. Bounded: files, their names and contents. Trusted: argparse, "
     "the file system, zipfile, reading and writing (C16, C17), the VC generator, z3/cvc5.")


prop("C29", "Path and method conversions change only what they should",
     "pgc_chdir replaces the first of two prefixes by the second in exactly the paths of graph banks that start with it, in every corpus given, and keeps "
     "the rest of each path. ptc_chdir sets both paths of every document to the directory given (none by default) with the base name of the old path, "
     "which may be a Windows path with drive letter and backslashes. With the option for a dry run neither changes any file. ptc_n_to_id makes the "
     "alignments of every document, by number or id, alignments by the ids of exactly the elements they link, in the order of the source "
     "text; doing it again changes nothing. All else in the files stays as it is: other elements, attributes, texts, links, and other files.",
     ["inputs", "histories"], "all documents (whose linked elements have ids), paths, prefixes and flags",
     "no test runs these tools; each path and link of each file matters, in both modes",
     ["bin/pgc_chdir.py", "bin/ptc_chdir.py", "bin/ptc_n_to_id.py", "lib/daeso/ptc/document.py"],
     [("paths of graph banks", "pgc_chdir"), ("paths of texts", "ptc_chdir"), ("links by id", "ptc_n_to_id")],
     "Proved for all inputs: the three scripts (over C24 for reading and writing links). Bounded: files and their contents. Trusted: argparse, "
     "ElementTree, string functions, the VC generator, z3/cvc5.")


prop("C30", "Command line options reach the function that does the work",
     "The tools for statistics (pgc_stats, gb_stats), differences (pgc_diff, ptc_diff), evaluation (ptc_eval), agreement (pgc_agreement) and creation "
     "of corpora (pgc_from_ptc) call the function that does the work exactly once (pgc_from_ptc: once for each text corpus, with the graph banks at the same "
     "position) with the files, flags, numbers, tags, formats, names and relations given on the command line, and the documented defaults for the others; "
     "--with-all sets all flags for what is included. All tables are written, with a legend if asked for; pgc_diff evaluates if asked to; every corpus "
     "made is written under the base name of its text corpus with extension .pgc. Patterns without files and different numbers of files are "
     "rejected before any work. pgc_extract_phrases prints one line for each alignment of each graph pair of each corpus, with the words on both "
     "sides and the relation, after banks, graphs and nodes if asked for.",
     ["inputs"], "all combinations of options and arguments",
     "no test runs these tools; options are independent, so any combination must be passed on unchanged",
     ["bin/"],
     [("statistics", "pgc_stats, gb_stats"), ("differences", "pgc_diff, ptc_diff"), ("evaluation", "ptc_eval, pgc_agreement"), ("creation", "pgc_from_ptc"),
      ("phrases", "pgc_extract_phrases")],
     "Proved for all arguments: the eight scripts. Bounded: spelling of options, files, output. Trusted: argparse (what add_argument says of an "
     "argument), glob, the functions called (C20-C27), the VC generator, z3/cvc5.")
