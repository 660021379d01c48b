DONE = ["C08", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C36", "C37", "C38", "C39", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"]
NOT_CLAIMED = {}
HOOKS = {"guard": "none", "enable": "the checks need no hooks: they build /repo's crates as they are, through symlinks (tools/mirror.py)"}

prop("C01", "core", "Agendas deliver by their policy and keep to their bounds",
     "Every element that an agenda accepts is delivered exactly once, in the order of the agenda's policy: last in first out for a stack, first in first out for a queue, highest priority first for the priority agendas; peeking, the length and the iterators always show exactly what is still due. "
     "A size-limited agenda never holds more than its capacity and on overflow gives up an element of least priority (possibly the new one), and nothing as long as there is space. "
     "A beam agenda accepts an element iff it is empty or the element's priority is at least the highest priority in it times the beam factor.",
     HIST, "all sequences of push, pop, peek, extend and clear, all priorities, all capacities and beam factors",
     "the tests of `search` are benchmarks without assertions; no test looks at capacity, eviction, beam or order",
     ["search/src/agenda/mod.rs", "search/src/agenda/limited_heap.rs", "search/src/agenda/beam_heap.rs", "search/src/agenda/binary_heap.rs", "search/src/agenda/weighted.rs"],
     [("LimitedHeap::push", "search/src/agenda/limited_heap.rs"), ("BeamHeap::push", "search/src/agenda/beam_heap.rs"), ("Agenda impls", "search/src/agenda/mod.rs")],
     "stateless model checking of all operation sequences against a reference multiset",
     "All operation sequences up to depth 7 (8) over 3 priorities plus all arrival orders of 7 (8) priorities, all extensions with up to three iterators, all sequences of ≤ 4 (5) operations on agendas that hold up to 33 (64) elements, on every agenda, on the real code.",
     ["push/pop/peek/len/into_iter of every agenda"])

prop("C02", "core", "Graph search visits all reachable nodes, in its order, each once",
     "Searching a graph from given nodes enumerates reachable nodes only and ends only when nothing is left to explore; the breadth-first search goes by distance, the depth-first search continues with what was found last, and the weighted search always continues with a heaviest open node. "
     "Asked for first visits only, it enumerates every reachable node exactly once and terminates on every finite graph, however often a node is found again before or after its visit.",
     INPUTS, "all graphs, all lists of initial nodes (with repetitions), all weightings",
     "no test enumerates a search; the adapters are only used on one or two grammars",
     ["search/src/search.rs"],
     [("Search::next", "search/src/search.rs"), ("unique::Search::next", "search/src/search.rs")],
     "exhaustive exploration of all small graphs against a reference frontier model",
     "All graphs with 3 nodes and successor lists of length ≤ 2 and all graphs with 4 nodes, all graphs with 3 nodes behind larger ones, and shapes of up to 300 nodes, on the real code.",
     ["the iterators returned by the searches"])

prop("C03", "core", "The unique priority queue holds each element at most once",
     "However it is filled, the queue holds each element at most once: pushing an element that is present changes nothing and says so, and an element that was popped can be pushed again. "
     "Elements come out by priority and, for equal priorities, by the order of the elements; peeking, the length, the iterators and the sorted vector agree with what comes out.",
     HIST, "all ways of construction and all sequences of push, pop and clone",
     "one documentation example with four elements; the constructor from a vector is never tested",
     ["unique-heap/src/lib.rs"],
     [("current_items and heap kept in step", "unique-heap/src/lib.rs")],
     "stateless model checking of all operation sequences against a reference map",
     "All sequences of ≤ 7 (8) operations over 3 items, of ≤ 5 (6) on queues of up to 32 (60) items, all constructor arguments of ≤ 4 (5) pairs, both hashers, on the real code.")

prop("C04", "core", "The vector multimap is a map from indices to lists",
     "What is pushed to an index is found there, in the order of the pushes, and nowhere else, whatever other indices were looked at or written to before; looking at any index never fails. "
     "Turned into a vector of vectors it is exactly as long as needed (or as long as asked for) and contains each list at its index.",
     HIST, "all sequences of accesses by reading, pushing and writing at any index, on an owned map and on an adapter of an existing vector",
     "the crate has no tests", ["vecmultimap/src/lib.rs"], [("pad_to", "vecmultimap/src/lib.rs")],
     "stateless model checking of all operation sequences against a reference map",
     "All sequences of ≤ 6 (7) operations of an alphabet of nine, on the real code (with the bounds checks of unchecked accesses switched on).")

prop("C05", "core", "Trees are maps from Gorn addresses in document order",
     "A tree holds at each address the value that was last put there and nothing at any other address; inserting, changing, removing, appending and splitting affect exactly the addresses they name. "
     "Iterating over a tree lists its nodes in document order (ancestors first, then left to right), and two trees are equal iff they have equal values at equal addresses.",
     HIST, "all sequences of tree operations", "no test exercises the tree type by itself",
     ["src/util/tree.rs"], [("GornTree", "src/util/tree.rs")],
     "stateless model checking of all operation sequences against a reference list",
     "All sequences of ≤ 5 (6) operations of an alphabet of 13, and of ≤ 3 (4) on trees of up to 20 (33) nodes, all pairs of small trees, trees of up to 300 (700) nodes, on the real code.")

prop("C06", "core", "A partition is accepted iff its cells are pairwise disjoint",
     "A list of cells is accepted as a partition iff no symbol is in two of them; every symbol is then in exactly the cell it was given in, and cells and alphabet are listed completely and without repetition. "
     "Writing a partition and reading it back yields an equal one, and reading cells that overlap is an error, not a crash.",
     INPUTS, "all lists of cells", "one test with one partition and one overlap; serialisation is untested",
     ["src/util/partition.rs"], [("Partition::new", "src/util/partition.rs")],
     "exhaustive exploration of all lists of cells against set operations",
     "All lists of ≤ 4 (5) subsets of a 4-letter alphabet, on the real code.")

prop("C07", "core", "Exactly the Dyck words are recognised",
     "A word of annotated brackets is recognised iff it can be reduced to the empty word by cancelling neighbouring opening and closing brackets with equal annotations.",
     INPUTS, "all bracket words over any annotations", "three words are tested, no negative one",
     ["src/dyck/mod.rs"], [("recognize", "src/dyck/mod.rs")],
     "exhaustive exploration of all bracket words against a rewriting model",
     "All words of ≤ 14 (18) brackets of one kind, ≤ 8 (10) of two, ≤ 6 (8) of three kinds, all words of ≤ 5 (6) in nests and between rows, words of up to 65537 pairs, on the real code.")

prop("C08", "full", "Exactly the congruence multiple Dyck words are recognised",
     "For every partition of the bracket annotations into cells, a bracket word is accepted iff the pairs of matching brackets can be cancelled cell by cell: the word splits into Dyck words around one opening/closing pair for each element of a cell, whose remainders are again in the language. "
     "The recogniser that sorts its input answers the same for a partition as the plain one, and a stored language recognises the same words.",
     INPUTS, "all partitions and all bracket words", "a handful of words for two partitions",
     ["src/dyck/multiple/mod.rs", "src/util/partition.rs"], [("MultipleDyckLanguage::recognize", "src/dyck/multiple/mod.rs")],
     "exhaustive exploration of all words and partitions against the cancellation definition",
     "All words of brackets and all Dyck words up to lengths that depend on the number of kinds (in the evidence) with all partitions of all subsets of the kinds, all small sorts, nested and wide words of up to 255 pairs, on the real code.")

prop("C09", "core", "Equivalence relations put every value into exactly its class",
     "An equivalence relation that is read from a text maps each listed value to the class that lists it and every other value to the default class; lines with the same class name contribute to the same class. "
     "Texts that put a value into two classes, name no or several default classes, or are malformed are rejected with an error. "
     "A relation built from a well-formed list of classes maps values in the same way, and two relations are equal iff they map all values in the same way.",
     INPUTS, "all class listings and all values", "about twenty literal examples, none with repeated class names or overlapping classes through every entry",
     ["src/approximation/equivalence_classes.rs"], [("new_safe, FromStr, From<Vec<…>>", "src/approximation/equivalence_classes.rs")],
     "exhaustive exploration of class listings against a reference map", "All listings of at most 4 (5) lines of a menu of class, default, blank and malformed lines, and all maps of at most three classes to subsets of three values with all defaults, all pairs of relations on three (four) values, against a reference map, on the real code.")

prop("C10", "core", "Reversed and factorised weights behave like the weights they wrap",
     "A reversed weight is ordered the other way round and computes, prints and reads exactly like the weight it wraps. "
     "Factorising a weight into n factors gives n factors whose product is the weight.",
     INPUTS, "all weights and all n ≥ 1", "there is no test of the order or of factorisation",
     ["src/util/reverse.rs", "src/util/factorizable.rs"], [("Reverse", "src/util/reverse.rs"), ("Factorizable", "src/util/factorizable.rs")],
     "exhaustive exploration of pairs of values of a finite domain against the plain operations", "All triples of integers from -6 to 6 (-20 to 20) and all pairs of 13 floats (also in the log domain) for every operation of Reverse; all numbers of factors up to 40 (1000) for 102 weights, on the real code.")

prop("C11", "core", "Context-free grammars survive being printed and read",
     "Printing a context-free grammar and reading it back yields the same initial nonterminals and the same rules with the same weights. "
     "Reading a grammar written by hand yields what the documented format says: rules in order, weight one where none is given, the union of all declared initial nonterminals, the text of quoted symbols unchanged.",
     INPUTS, "all grammars and all layouts of the documented format", "five grammars in one layout each, and equality of rules ignores nothing but is only tried on these",
     ["src/grammars/cfg/from_str.rs", "src/grammars/cfg/mod.rs", "src/util/parsing.rs"], [("FromStr and Display of CFG", "src/grammars/cfg")],
     "exhaustive exploration of all small grammars and layouts against a reference printer", "All grammars of one rule over a menu of names and weights, all of few rules over a small menu, all layouts of small rules, all files of at most 4 (5) lines of a menu, and rules and names of all lengths up to 70 (300), on the real code.")

prop("C12", "core", "Multiple context-free grammars survive being printed and read",
     "Printing a (parallel) multiple context-free grammar or LCFRS and reading it back yields the same initial nonterminals and the same rules with the same weights. "
     "Reading a grammar written by hand yields what the documented format says: rules in order, weight one where none is given, terminals and variables as written.",
     INPUTS, "all grammars and all layouts of the documented format", "a few literal rules; equality of rules ignores weights, so weights are never compared",
     ["src/grammars/pmcfg/from_str.rs", "src/grammars/pmcfg/mod.rs", "src/grammars/lcfrs/from_str.rs", "src/grammars/lcfrs/mod.rs"], [("FromStr and Display of PMCFG, Lcfrs and their parts", "src/grammars/pmcfg")],
     "exhaustive exploration of all small grammars and layouts against a reference printer", "All grammars of one rule over a menu of names and weights, all of few rules over a small menu, all layouts of small rules, all files of at most 4 (5) lines of a menu, and rules and names of all lengths up to 70 (300), on the real code.")

prop("C13", "core", "Unreadable input is an error, never a crash or a silent loss",
     "In a grammar file blank lines, lines of white space and comments are skipped; every other line contributes or makes reading the whole file fail with an error. "
     "No input text makes reading a grammar, a rule or an equivalence relation crash or hang.",
     INPUTS, "all texts", "a few malformed strings are tried for some of the readers",
     ["src/util/parsing.rs", "src/grammars/cfg/from_str.rs", "src/grammars/pmcfg/from_str.rs", "src/grammars/lcfrs/from_str.rs", "src/approximation/equivalence_classes.rs"],
     [("initial_rule_grammar_from_str", "src/util/parsing.rs")],
     "exhaustive exploration of token sequences and of all small edits of well-formed files", "All sequences of fragments up to a length, all selections of the parts of well-formed files, and all single (double) edits of well-formed files, against a reference reader, on the real code.")

prop("C14", "core", "Making a grammar non-deleting keeps its weighted language",
     "Converting a multiple context-free grammar (with one initial nonterminal, of fan-out one, and rules that agree on the fan-outs) into an LCFRS yields a grammar in which each rule uses each component of each right-hand side nonterminal exactly once, and whose initial nonterminal has fan-out one. "
     "Every derivation of the input corresponds to one of the output with the same yield and the same weight, and vice versa.",
     INPUTS, "all multiple context-free grammars with deleting rules, recursion and useless nonterminals", "three grammars are converted and compared literally",
     ["src/grammars/lcfrs/conversion.rs", "src/grammars/mcfg/mod.rs"], [("From<Mcfg> for Lcfrs", "src/grammars/lcfrs/conversion.rs")],
     "exhaustive exploration of all small grammars against enumeration of all derivations up to a size",
     "All sets of at most 3 or 4 rules (fan-outs 0 to 3, deleting, permuting, with terminals) from menus of up to some hundred rules and chains of rules, all derivations up to 5 to 7 nodes, on the real code.")

prop("C15", "core", "Ill-formed grammars are refused, well-formed ones accepted",
     "A set of rules is accepted as an LCFRS iff the rules agree on the fan-out of every nonterminal, every nonterminal on a right-hand side has rules, every rule uses exactly the components of its right-hand side nonterminals and each exactly once, and the initial nonterminal has fan-out one. "
     "A parallel multiple context-free grammar is accepted as a multiple context-free grammar iff it has exactly one initial nonterminal and no rule uses a variable twice. Accepted grammars keep their rules and initial nonterminal; "
     "an LCFRS is said to be in normal form iff no component is empty and each rule has either a single terminal as its only symbol or no terminal. Checking never crashes, whatever the rules.",
     INPUTS, "all rule sets", "three rejected and one accepted set of rules",
     ["src/grammars/lcfrs/mod.rs", "src/grammars/mcfg/mod.rs"], [("Lcfrs::new, in_normal_form", "src/grammars/lcfrs/mod.rs"), ("Mcfg::new", "src/grammars/mcfg/mod.rs")],
     "exhaustive exploration of all small rule sets against the definition",
     "All sets of up to 3 rules over all compositions with few symbols, including variables that do not exist, on the real code.")

prop("C16", "core", "A fan-out-one grammar read as context-free keeps its rules and weights",
     "Turning a multiple context-free grammar in which every composition is a single string of fan-out one into a context-free grammar keeps the initial nonterminals and every rule with its weight, and the derivations of the two grammars have the same yields.",
     INPUTS, "all fan-out-one grammars in which each right-hand side nonterminal is used once", "one grammar, compared without weights",
     ["src/grammars/cfg/from_pmcfg.rs"], [("From<PMCFG> for CFG", "src/grammars/cfg/from_pmcfg.rs")],
     "exhaustive exploration of all small grammars against substitution",
     "All sets of up to 3 (4) rules from menus of all compositions of few symbols, rules with all tails of ≤ 4 (5) in all orders, families of up to 300 rules, symbols and nonterminals, on the real code.")

prop("C17", "core", "Evaluating a derivation composes the strings of its parts",
     "The value of a derivation tree, and of each of its subtrees, is the composition at its root applied to the values of its children, for deleting, copying and permuting compositions alike. "
     "Splitting a tree of rules into compositions and nonterminals keeps each of them at its address.",
     INPUTS, "all derivation trees", "two trees are evaluated",
     ["src/grammars/pmcfg/mod.rs"], [("evaluate, evaluate_pos", "src/grammars/pmcfg/mod.rs"), ("to_term", "src/grammars/pmcfg/mod.rs")],
     "exhaustive exploration of all small derivations against a recursive definition",
     "All compositions of up to 4 (5) symbols, all trees of three levels over 14 compositions, chains of up to 59 (119) levels, and trees with up to 39 children of fan-out up to 13, on the real code.")

prop("C18", "core", "Separating terminals keeps derivations, weights and yields",
     "Separating the terminals of a derivation yields a derivation with the same value in which each rule either has a single terminal as its only symbol, or has no terminal at all. "
     "The rules of the original derivation keep their place, nonterminals and weight; the nonterminals of the new rules, which only read a terminal, differ from all nonterminals of the original derivation.",
     INPUTS, "all derivations, in particular with names that look alike", "one derivation is converted and compared literally",
     ["src/grammars/pmcfg/mod.rs"], [("separate_terminal_rules", "src/grammars/pmcfg/mod.rs")],
     "exhaustive exploration of all small derivations against the definition",
     "All derivations of up to 5 nodes of all sets of up to 3 rules from menus of all small compositions, with three choices of names; rules with up to 13 (29) children and terminals and chains of up to 39 (119) rules with names that collide many times; on the real code.")

prop("C19", "core", "NeGra export describes exactly the derivation",
     "The NeGra export of a linear derivation (whose rules have a single terminal as their only symbol or no terminal, and whose root is no preterminal) lists the tokens of its yield in order, each once, with the preterminal's name as part of speech, and every inner node below the root that dominates a token once with its name; following the parent numbers from any token leads through exactly the nodes of the derivation that dominate it to the root, 0. "
     "Inner nodes are numbered from 500 on, without collisions, and the sentence is framed by its number. Words may be given separately from the tags that are parsed. A sentence without parse lists all its tokens below a node NOPARSE below the root. Derivations with rules of any other form are told apart from those that can be exported.",
     INPUTS, "all derivations, discontinuous ones included", "two trees are exported and compared literally",
     ["src/grammars/pmcfg/negra.rs"], [("to_negra, noparse", "src/grammars/pmcfg/negra.rs")],
     "exhaustive exploration of all small derivations; the export is read back by a reference reader",
     "All derivations of up to 9 nodes of all sets of up to 3 or 4 rules from menus of all small linear compositions of fan-out up to 2, derivations of all tree shapes of up to 12 (14) nodes with yields in order, reversed and discontinuous, derivations with two crossing chains of up to 23 (79) nodes, and whether they can be exported of all rules of up to 3 components and 3 (4) symbols, on the real code.")

prop("C20", "core", "disco-dop grammars are read completely and with normalised weights",
     "Reading a disco-dop grammar with or without a lexicon yields one rule for each line (for each pair of tag and count in a lexicon) with the nonterminals and the composition that the line denotes, and a weight that is the line's count divided by the sum of the counts of its left-hand side. "
     "Without a lexicon, each nonterminal that is never a left-hand side reads itself. A line that cannot be read makes reading fail.",
     INPUTS, "all rule and lexicon files", "one grammar is read and compared without its weights",
     ["src/grammars/lcfrs/from_discodop.rs"], [("DiscoDopGrammar, DiscoLexer", "src/grammars/lcfrs/from_discodop.rs")],
     "exhaustive exploration of small files against a reference reader",
     "All sequences of up to 3 (4) of 9 rules with all of up to 2 (3) of 6 lexicon lines, all yield functions of up to 9 (12) characters and some of up to 71, all sequences of up to 5 (7) fragments of lines, and all single (double) edits of four files, on the real code.")

prop("C21", "core", "Configurations are ordered best first",
     "Parsing configurations are totally ordered: a configuration with a greater weight comes before one with a smaller weight, and of two with equal weights the one with fewer symbols still to read is preferred; ties are broken consistently. "
     "Two configurations are equal (and hash equally) iff they have the same storage and the same word to read, whatever their weights are.",
     INPUTS, "all pairs and triples of configurations", "the order and equality of configurations are not tested; agendas and duplicate elimination rely on them",
     ["src/recognisable/configuration.rs"], [("Ord for Configuration", "src/recognisable/configuration.rs")],
     "exhaustive exploration of all pairs and triples of small configurations against the defined order",
     "All pairs of configurations with ≤ 4 (5) symbols to read, 4 (5) storages and 3 weights (and the transitivity of their order), and words of up to 65536 symbols, on the real code.")

prop("C22", "full", "Tree stacks and their instructions behave like trees with a pointer",
     "Pushing, moving up, moving down and setting change a tree with a pointer exactly as defined: pushing needs a free position, moving up an occupied one, moving down a parent; everything else in the tree stays as it is, and earlier stacks are not affected. "
     "An instruction applies iff its conditions hold, and yields exactly the defined stacks.",
     HIST, "all sequences of operations and instructions", "one hand-written sequence",
     ["src/automata/tree_stack_automaton/tree_stack.rs", "src/automata/tree_stack_automaton/tree_stack_instruction.rs"], [("TreeStack", "src/automata/tree_stack_automaton/tree_stack.rs")],
     "stateless model checking of all operation sequences against a reference tree with a pointer", 
     "All sequences of 7 (8) operations over 3 positions and 2 symbols and of 9 (10) over 2 and 1, all instructions on all tree stacks reachable with 4 (5) operations, all pairs of these, trees of up to 300 nodes, on the real code.")

prop("C23", "full", "Pushdown storages and their instructions behave like stacks",
     "Pushing, popping and replacing change a stack exactly as defined, instructions apply iff the top of the stack is what they require, and earlier stacks are not affected.",
     HIST, "all sequences of operations and instructions", "a few hand-written cases",
     ["src/util/push_down.rs", "src/automata/push_down_automaton/mod.rs"], [("PushDown", "src/automata/push_down_automaton/mod.rs")],
     "stateless model checking of all operation sequences against a reference stack", 
     "All sequences of operations (depths in the evidence) on both kinds of pushdown, all small replacements on all small pushdowns, all sequences of 5 (6) replacements, all pairs, pushdowns of up to 4096 symbols, on the real code.")

prop("C24", "full", "Context-free parsing finds exactly the derivations, best first",
     "The automaton built from a context-free grammar accepts a word iff the grammar derives it; its runs on the word are in one-to-one correspondence with the leftmost derivations, carry their weights, and come in order of descending weight (identical rules count as one rule with the sum of the weights).",
     INPUTS, "all context-free grammars and words", "three grammars and some words, only yes or no",
     ["src/automata/push_down_automaton/from_cfg.rs", "src/automata/push_down_automaton/mod.rs", "src/recognisable/automaton.rs"], [("From<CFG> for PushDownAutomaton", "src/automata/push_down_automaton/from_cfg.rs"), ("recognise", "src/recognisable/automaton.rs")],
     "exhaustive exploration of all small grammars and words against enumeration of derivations", 
     "All sets of ≤ 3 (4) rules of three menus (one, two, three nonterminals; empty and unary rules and cycles included), two weightings, all words of ≤ 3 (4) symbols, all parses up to a cost; words and grammars with up to 300 symbols; on the real code.")

prop("C25", "full", "Multiple context-free parsing finds exactly the derivations, best first",
     "The automaton built from a multiple context-free grammar (linear, non-deleting, the components of each nonterminal used in order, distinct rules) accepts a word iff the grammar derives it; the trees read off its runs are exactly the derivations of the word, each with its weight, in order of descending weight.",
     INPUTS, "all multiple context-free grammars and words", "three grammars and some words",
     ["src/automata/tree_stack_automaton/from_pmcfg.rs", "src/automata/tree_stack_automaton/mod.rs", "src/recognisable/automaton.rs"], [("From<PMCFG> for TreeStackAutomaton", "src/automata/tree_stack_automaton/from_pmcfg.rs"), ("recognise", "src/recognisable/automaton.rs")],
     "exhaustive exploration of all small grammars and words against enumeration of derivations", 
     "All sets of ≤ 3 (4) rules of menus over nonterminals of fan-out 1 to 3 (empty components, unary cycles, nonterminals without rules included), all words of ≤ 3 (4) symbols, all parses up to a cost; families of grammars with fan-out, rules and words of up to 100; on the real code.")

prop("C26", "full", "Finite-state parsing finds exactly the paths, best first",
     "A finite-state automaton accepts a word iff there is a path from an initial to a final state that reads it, and its runs are exactly these paths with the products of their weights, in order of descending weight.",
     INPUTS, "all automata and words", "two automata and some words",
     ["src/automata/finite_state_automaton/mod.rs", "src/recognisable/automaton.rs"], [("FiniteStateAutomaton", "src/automata/finite_state_automaton/mod.rs")],
     "exhaustive exploration of all small automata and words against path enumeration", 
     "All automata with 2 states and ≤ 4 (5) of 16 transitions and all sets of final states, with 3 states and ≤ 4 (5) of 27, parallel transitions, all words of ≤ 3 (4) symbols, all paths up to a cost (cycles that read nothing included), automata and words with up to 250 states and symbols, on the real code.")

prop("C27", "full", "Beam parsing only returns parses that exist, and all with a wide beam",
     "With a beam, parsing returns only parses that exact parsing also returns, with the same weights, each at most once; with a beam that is never exceeded it returns all of them in order of descending weight.",
     ["inputs", "configurations"], "all grammars, words and beam widths", "beam search is not tested",
     ["src/recognisable/mod.rs", "src/recognisable/automaton.rs", "search/src/agenda/limited_heap.rs"], [("recognise_beam_search", "src/recognisable")],
     "exhaustive exploration of all small grammars, words and beams against exact parsing", 
     "Pushdown, tree-stack and finite-state automata from all small sets of rules or transitions, all words of ≤ 3 symbols, beams 0, 1, 2, 3, 5, 100000, the largest number, and exactly as many as there are leaves in the tree of runs, one more and one less; n parses that are open at the same time for n up to 40 (80) and some up to 200, with beams around n and larger ones, on the real code.")

prop("C28", "full", "Approximations accept at least the language they approximate",
     "Every word accepted by an automaton is accepted by each of its approximations (relabelling by an equivalence relation, flattening of tree stacks to pushdowns and their combinations), with at least the same best weight; each run of the original maps to a run of the approximation and back.",
     ["inputs", "configurations"], "all automata, approximation strategies and words", "three approximations of one or two automata are tried on some words",
     ["src/approximation/mod.rs", "src/approximation/relabel.rs", "src/approximation/tts.rs"], [("ApproximationStrategy", "src/approximation")],
     "exhaustive exploration of all small automata, relations and words against exact recognition", 
     "Pushdown and tree-stack automata of all sets of ≤ 3 (4) small rules, all relations on up to three nonterminals, the flattening to pushdowns and relabellings of that, all words of ≤ 3 symbols, up to ten runs of each followed step by step and mapped back; tree-stack automata of all sets of ≤ 3 (4) arbitrary transitions over two symbols; each step of all instructions on all reachable tree stacks and all small pushdowns; the families of C24 and C25 of up to 200 rules and symbols, and up to 1600 transitions that become one; on the real code.")

prop("C29", "full", "Coarse-to-fine parsing returns what direct parsing returns",
     "Parsing through a hierarchy of approximations returns exactly the runs of the original automaton on the word, each once and with their weights, however coarse the approximations are; they come in order of descending weight if no transition of an approximation weighs more than 1.",
     ["inputs", "configurations"], "all automata, hierarchies and words", "no test looks at coarse-to-fine recognition",
     ["src/recognisable/coarse_to_fine.rs"], [("CoarseToFineRecogniser", "src/recognisable/coarse_to_fine.rs")],
     "exhaustive exploration of all small automata, hierarchies and words against direct recognition", 
     "Pushdown and tree-stack automata of all sets of ≤ 3 or 4 small rules whose search is finite, and of all sets of ≤ 3 arbitrary transitions, all hierarchies of one to three levels, all words of ≤ 3 symbols, all parses; all assignments of weights to a few transitions; the families of C24 and C25 of up to 129 rules and symbols; on the real code.")

prop("C30", "full", "Chomsky-Schützenberger parsing finds exactly the derivations",
     "Without limits, parsing a word with the Chomsky-Schützenberger representation of an LCFRS in normal form (no empty component; rules have either only variables or a single terminal) with positive weights of at most 1 enumerates derivations of the word by the grammar, each at most once, and reaches every one of them; it ends if no component can derive itself through chain rules. "
     "Chain rules of weight 1, words with unknown symbols, long words and large grammars are no exceptions.",
     ["inputs", "configurations"], "all LCFRS in normal form and words", "a handful of words for two grammars",
     ["src/grammars/lcfrs/csparsing/mod.rs", "src/grammars/lcfrs/csparsing/automaton/mod.rs", "src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs", "src/grammars/lcfrs/csparsing/automaton/chart.rs", "src/grammars/lcfrs/csparsing/automaton/rulemask.rs"],
     [("CSRepresentation::toderiv", "src/grammars/lcfrs/csparsing/mod.rs"), ("Automaton::fill_chart", "src/grammars/lcfrs/csparsing/automaton/mod.rs"), ("ChartIterator::kth, backtraces", "src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs"), ("RuleMaskBuilder::build", "src/grammars/lcfrs/csparsing/automaton/rulemask.rs")],
     "exhaustive exploration of all small grammars and words against enumeration of derivations",
     "All grammars in normal form with ≤ 3–5 rules over nonterminals of fan-out 1; 1 and 2; 1, 2 and 2; 1, 2 and 3 (with preterminals), all words of ≤ 4 (5) symbols, all parses (up to a cost where they are infinitely many); sets of ≤ 4 (5) rules of up to eight variables; all grammars of ≤ 4 (5) rules with equal weights in every order of the rules; families up to 300 symbols or rules; on the real code.")

prop("C31", "full", "Chomsky-Schützenberger parsing returns derivations best first",
     "The derivations enumerated for a word come in order of descending weight, so that the first one is a best one; context estimates of any width change nothing about which derivations are found and in which order of weights.",
     ["inputs", "configurations"], "all LCFRS in normal form, words and widths of estimates", "weights of enumerated derivations are not compared by any test",
     ["src/grammars/lcfrs/csparsing/automaton/mod.rs", "src/grammars/lcfrs/csparsing/automaton/estimates.rs", "src/grammars/lcfrs/csparsing/automaton/chart.rs", "src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs"],
     [("ChartIterator::kth", "src/grammars/lcfrs/csparsing/automaton/kbest/mod.rs"), ("SxOutside", "src/grammars/lcfrs/csparsing/automaton/estimates.rs")],
     "exhaustive exploration of all small grammars and words against enumeration of derivations",
     "The grammars of C30 with falling and with equal weights, all words of ≤ 4 symbols, estimates of width 0, 1, 3 and more than the word, all parses, on the real code.")

prop("C32", "full", "Limited Chomsky-Schützenberger parsing is sound and never crashes",
     "Under any beam, threshold or number of candidates, from none to more than there can be, parsing does not crash and returns only derivations that it returns without limits, best first; limits that are not reached lose nothing, and a limit on candidates keeps the best parses among that many candidates, so that more candidates never lose a parse, and ends the enumeration even if there are infinitely many parses. "
     "The fallback is a tree of merged rules of the grammar in which every nonterminal is expanded by a rule for it and whose yield is the word; there is one whenever there is a parse. The debug result agrees with the enumeration. A generator can be used for any number of words.",
     ["inputs", "configurations"], "all LCFRS in normal form, words and limits", "beam, threshold, candidates and fallback are not tested",
     ["src/grammars/lcfrs/csparsing/mod.rs", "src/grammars/lcfrs/csparsing/automaton/mod.rs", "src/grammars/lcfrs/csparsing/automaton/chart.rs", "src/grammars/lcfrs/csparsing/cowderiv.rs"],
     [("GeneratorBuilder::with_fallback, debug", "src/grammars/lcfrs/csparsing/mod.rs"), ("CowDerivation::fallback", "src/grammars/lcfrs/csparsing/cowderiv.rs"), ("DenseChart", "src/grammars/lcfrs/csparsing/automaton/chart.rs")],
     "exhaustive exploration of all small grammars, words and limits, against the enumeration without limits",
     "The grammars of C30 with finite approximations, all words of ≤ 3 (4) symbols, nine beams, five thresholds, seven numbers of candidates and a combination; grammars with 65535–70000 states; on the real code.")

prop("C33", "full", "A stored Chomsky-Schützenberger representation parses like the original",
     "Writing the representation of a grammar and reading it back gives a representation that returns the same parses in the same order for every word, and the same with limits and fallbacks.",
     INPUTS, "all LCFRS in normal form and words", "not tested",
     ["src/grammars/lcfrs/csparsing/mod.rs", "src/grammars/lcfrs/csparsing/automaton/mod.rs", "src/grammars/lcfrs/csparsing/automaton/rulemask.rs", "src/grammars/lcfrs/csparsing/automaton/estimates.rs"], [("Serialize/Deserialize of CSRepresentation", "src/grammars/lcfrs/csparsing/mod.rs")],
     "exhaustive exploration of all small grammars and words, original against copy",
     "The grammars of C30 and families of up to 60, estimates of width 0, 2 and 5, all words of ≤ 3 symbols, with and without limits, on the real code.")

prop("C34", "full", "Automata survive being printed and read",
     "Printing a finite-state or a tree-stack automaton and reading it back yields an automaton with the same initial configuration, the same final states and the same transitions with the same weights, which gives the same answers. "
     "A pushdown automaton, which can only be printed, is printed with its initial pushdown and all its transitions. Text is read as the notation says, whatever its spacing, comments and quoting, and refused with an error, not a crash, if one of its lines is no declaration, transition or comment.",
     INPUTS, "all finite-state and tree-stack automata, all texts", "some literal transitions are read; no automaton is printed",
     ["src/automata/tree_stack_automaton/from_str.rs", "src/automata/finite_state_automaton/from_str.rs", "src/recognisable/from_str.rs", "src/automata/finite_state_automaton/mod.rs", "src/automata/tree_stack_automaton/mod.rs"], [("FromStr and Display of the automata", "src/automata")],
     "exhaustive exploration of all small automata and of all small edits of texts, against a reference reader",
     "All finite-state automata with ≤ 3 (4) and all tree-stack automata with ≤ 2 (3) transitions over two symbols, all pairs (triples) of 24 symbols, all triples of 19 states; all edits (pairs of edits) of four texts, all sequences of ≤ 4 (5) lines and of ≤ 4 (5) parts of a transition; the printed texts of all pushdown automata with ≤ 2 transitions of a menu of 117 and of large ones; on the real code. The PDA has no reader.")

prop("C35", "full", "Replacing symbols by numbers and back changes nothing",
     "Integerising a storage, an instruction or a transition and undoing it yields the same one, and instructions commute with integerisation: applying an integerised instruction gives the integerised results.",
     INPUTS, "all storages, instructions and transitions", "one or two examples for each type",
     ["src/util/integerisable.rs", "src/recognisable/transition.rs"], [("Integerisable1, Integerisable2", "src/util/integerisable.rs")],
     "exhaustive exploration of all small storages and instructions", 
     "All tree stacks reachable with 5 (6) operations and all pushdowns of ≤ 7 (8) symbols with all small instructions, and all small transitions, with all integerisers that know some of the symbols in some order; replacements of up to 200 symbols, and positions around all powers of two; on the real code.")

prop("C36", "cli", "The command line tools answer like the library",
     "The command line programs print for every sentence on their input, in order, the parses that the library returns, best first and up to the number asked for, and show which sentences have no parse; they heed their options, "
     "and automata and stored representations are those that the library makes, so that a later invocation answers from them as it would from the grammar. "
     "Files that cannot be read, sentences that are no text, malformed grammars and unusable options are refused with a failure instead of being answered.",
     ["inputs", "configurations"], "all grammars, sentences and options", "the programs are not tested",
     ["src/bin/main.rs", "src/bin/cfg.rs", "src/bin/pmcfg.rs", "src/bin/csparsing.rs", "src/bin/tree_stack_automata.rs", "src/bin/approximation.rs"], [("handle_sub_matches", "src/bin")],
     "exhaustive exploration of small grammars, corpora and options, run as processes, against the answers of the library",
     "All grammars with ≤ 3 rules of small menus (and the examples) × all words of ≤ 2 or 3 symbols × 6 to 24 sets of options, one real process each; what is printed is compared with the library's answers, up to the order of parses of equal weight. "
     "With a beam or a threshold the comparison is made where the library's answer does not depend on the seed of hash maps.")

prop("C37", "full", "Transitions apply exactly where they may, and multiply weights",
     "A transition applies to a configuration iff the word to read starts with the word of the transition and the instruction applies to the storage; the result has the rest of the word, the new storage and the product of the weights. "
     "Transitions are totally ordered with heavier ones greater, and two transitions are equal (and hash equally) iff they read the same word and have the same instruction, whatever their weights are.",
     INPUTS, "all transitions and configurations", "transitions are only applied inside of a few parses",
     ["src/recognisable/transition.rs"], [("Transition::apply", "src/recognisable/transition.rs")],
     "exhaustive exploration of all small transitions and configurations against the definition",
     "All configurations with ≤ 5 (6) symbols to read and small storages × all transitions that read ≤ 3 (4) symbols, all pairs of small transitions, on the real code.")

prop("C38", "full", "Automata keep what they are made of, and confirm exactly their runs",
     "A finite-state, pushdown or tree-stack automaton made of transitions and an initial storage lists exactly those transitions with their weights and starts with that storage (a pushdown automaton adds up the weights of equal transitions); an automaton made of its list and its initial storage does the same. "
     "From any initial storage, recognition finds exactly the sequences of transitions that lead to a terminal storage and read the word. "
     "Checking a run gives exactly the storages that result from applying its transitions one after the other to the initial storage, with the product of the weights and the run itself; checking the empty run gives the initial storage iff it is terminal.",
     INPUTS, "all sets of transitions, initial storages and sequences of transitions", "check_run and from_transitions are not tested",
     ["src/recognisable/automaton.rs", "src/automata/finite_state_automaton/mod.rs", "src/automata/push_down_automaton/mod.rs", "src/automata/tree_stack_automaton/mod.rs"],
     [("Automaton::check_run, from_transitions, transitions, initial", "src/recognisable/automaton.rs")],
     "exhaustive exploration of all small sets of transitions and initial storages against the definition",
     "All sets of ≤ 2–6 small transitions × all small initial storages (not only the usual ones), all lists of four transitions with equal ones among them, all sequences of ≤ 3 transitions and all runs for words of ≤ 2 symbols, on the real code.")

prop("C39", "core", "Rules are compared by what they do, and wrapping a grammar keeps it",
     "Two rules of context-free or multiple context-free grammars are equal, and then hash equally, iff they have the same nonterminals on both sides and the same composition, whatever their weights are; "
     "two grammars are equal iff they list the same initial nonterminals and the same rules in the same order. The order of rules is total and tells rules that are not equal apart. "
     "Renaming the nonterminals of a rule replaces each one by its image where it stands and changes nothing else, and turning an LCFRS into an MCFG or a PMCFG keeps its initial nonterminal, its rules, their order and their weights.",
     INPUTS, "all rules, grammars and renamings", "a few equal rules are compared",
     ["src/grammars/pmcfg/mod.rs", "src/grammars/cfg/mod.rs", "src/grammars/mcfg/mod.rs", "src/grammars/lcfrs/mod.rs"],
     [("PartialEq, Hash, Ord of PMCFGRule; map_nonterminals", "src/grammars/pmcfg/mod.rs"), ("PartialEq, Hash, Ord of CFGRule", "src/grammars/cfg/mod.rs"), ("From<Lcfrs> for Mcfg", "src/grammars/mcfg/mod.rs")],
     "exhaustive exploration of all pairs of small rules and grammars, and all single changes of long rules",
     "All pairs of rules with tails of ≤ 2, ≤ 3 components and ≤ 2 (3) symbols and three weights, all pairs of context-free rules with ≤ 4 (5) symbols, all pairs of grammars of ≤ 3 (4) of three rules, all single changes of rules of up to 257 symbols, components or nonterminals, all renamings to three names, on the real code.")
