"""what the proofs rest on"""
BASE = [
    "Jython 2.7's parser (the AST the obligations are generated from is the one that is run)",
    "pyvc (/verif/pyvc): the symbolic semantics of the Python 2 subset and the VC generator",
    "z3 and cvc5 (an 'unsat' answer is believed)",
]
ASSUME = [
    "machine arithmetic: Python ints are mathematical integers (they are unbounded in Jython); "
    "floats are treated as mathematical reals in the proofs",
    "sequence elements are values of an uninterpreted sort with a lawful, pure == (no overloaded "
    "__eq__ with side effects, no NaN)",
    "distinct arguments of a function are not aliased to each other's nested containers",
    "functions passed as arguments are pure and total on the elements given",
]
NX = ["networkx.DiGraph 1.9.1 (assumed contracts in pyvc/graphmodel.py): a graph is a set of nodes, a set of edges and a "
      "relation per edge; add_edge adds its nodes, remove_node removes incident edges, degree is 0 exactly without "
      "incident edges, unknown nodes/edges raise KeyError or NetworkXError as documented",
      "None is never a node; a pair object yielded by alignments_iter is represented by its two fields"]
ORD = ["collections.OrderedDict is treated as a dictionary: that it keeps keys in order of insertion is only executed, not proved",
       "constructors and removals inherited from networkx.DiGraph 1.9.1 are executed, not proved"]
CLI = ["argparse (bundled, daeso.thirdparty.argparse): parse_args gives a value for each argument added that fits its type, number and default; a script is run "
       "with the values its own calls of add_argument allow"]
PER_PROPERTY = {
    "C11": ORD,
    "C12": ["networkx.DiGraph 1.9.1: g[n] and successors_iter(n) give the row of n in the adjacency dictionary, iterating over a "
            "graph gives its nodes", "every successor is a node (the invariant proved for C11)"],
    "C13": NX,
    "C17": ["xml.etree.cElementTree.SubElement appends a new element with the attributes given, and iterparse yields what was written, "
            "in order (escaping and encoding are executed in the bounded checks, not proved)",
            "os.path.relpath and realpath are functions of their arguments"],
    "C18": ["os.path.isabs, join, basename, realpath, exists are functions of their arguments",
            "a WeakValueDictionary is a dictionary (the graph pairs keep their stubs alive)",
            "each graph pair has its own Pair of graphs; a stub is on one side of each of its clients (pairs of one graph with itself are "
            "rejected by a documented assertion)",
            "GraphBank._get_parser gives a parser that fills in every graph asked for or raises DaesoError (GraphmlParser: C19)"],
    "C19": ["expat calls the handlers for the elements and text of the document in order",
            "the tables of keys of different components are different dictionaries",
            "DaesoGraph.set_graph_token_string and set_node_token_string (executed in the bounded checks)"],
    "C22": ["a column of a table is a list with a row for each corpus (bank); the columns of a table are different objects",
            "alignments, nodes and tokens of a graph (pair) are finite sequences that do not change while they are counted",
            "node_is_empty, node_is_punct and is_failed_parse are functions of graph and node (C12)"],
    "C23": ["list.sort with a comparison or key of numbers gives the same elements in ascending order",
            "the comparison of graphs and the filter of relations are those of C14; nodes are named by numbers and relations are not empty"],
    "C24": ["the elements of a text form a finite tree with a fixed order; the recursion over it ends",
            "concatenation, length, slices and strip of strings are functions with the usual laws",
            "the list of alignments an element holds is not shared between elements",
            "ElementTree: find, getiterator, append, slice assignment, parsing and writing (executed in the bounded checks)"],
    "C25": ["list.sort(reverse=True) on scores gives the same scores in descending order; equal scores in any order",
            "a term, weight, similarity or filter function given to the aligner is a function; elements, scopes and texts are those of C24",
            "elements that are scopes are not themselves focus elements (align_corpus; the bounded runs include such elements)",
            "the similarity functions of daeso.string.similar are symmetric functions of the terms (C06)",
            "split, lower and substring tests of strings are functions; daeso_nl (not in the repository) is replaced by a stand-in in the bounded checks"],
    "C26": ["a text and the links of an element do not change while differences are reported; both corpora have the same texts",
            "what is written is recognised by the ids, numbers and scores it contains; its form is judged in the bounded checks only",
            "injecting links, spans and texts are those of C24"],
    "C27": ["lower and split of strings are functions; texts and links do not change meanwhile, and are read as in C24",
            "a new graph pair has no alignments (C13, C14); the two graph banks are different files (equal ones in the bounded checks of C16)",
            "GraphBank._get_parser gives a parser that puts every graph of the file under its id (GraphmlParser: C19)"],
    "C28": CLI + ["os.path.isdir, samefile, basename, join, splitext are functions of their arguments; a file exists after it was written, and not before unless "
                  "it did at the start; two names are not the same file unless samefile says so",
                  "slices, addition and purging of corpora are those of C15 and C16; multiglob gives the sorted files that match its patterns",
                  "a corpus that is written can be read again (C17); every graph bank a corpus lists is used by one of its graph pairs (pgc_zip)"],
    "C29": CLI + ["a file is given once; every path is non-empty; a document of a text corpus has a path for both texts",
                  "ElementTree: findall, text, reading and writing (executed in the bounded checks)",
                  "startswith, replace, slices, basename and join are functions of their arguments; links are read and written as in C24"],
    "C30": CLI + ["glob gives the files that match a pattern", "no corpus is given twice (pgc_extract_phrases)", "the functions called are those of C20 to C27",
                  "what pgc_extract_phrases prints is recognised by the texts, relations and names it contains, in order; its form is judged in the bounded checks only"],
    "C14": NX + ["a finite set that contains a set of the same size equals it"],
}
