"""The properties: their text (properties.jsonl), their checks' descriptions (MANIFEST.json). Run to regenerate both."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}


def prop(id, title, statement, over, text, why, files, mech, rule, technique, note, assumptions=(), state=(), observe=()):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, rule=rule,
                 technique=technique, note=note, assumptions=list(assumptions), state=list(state), observe=list(observe))


prop("C01", "Character classes are sets: union, intersection, difference, complement",
     "A character class behaves as a set of characters: building one from ranges, from characters or from class text, and combining classes by union, intersection, difference and complement, always yields exactly the set that set theory gives, in any order of the operations. The ranges a class lists are sorted, disjoint, non-empty and describe that same set. Membership, emptiness, equality and the borders it reports agree with the set.",
     ["inputs", "histories"], "every pair of classes (char, unsigned char, wchar_t) and every sequence of additions and combinations",
     "The two stable tests compare one hand-written pair of classes; the algebra has to hold for every pair of range lists, including touching, nested, single-character and extreme ranges.",
     ["src/core/CharClass.hpp", "src/core/CharClass.cpp"],
     [["range merge of two sorted lists", "src/core/CharClass.cpp operator|, operator&, diff_and_int"], ["insertion of a range", "src/core/CharClass.hpp operator|(Range)"], ["complement", "src/core/CharClass.hpp operator~"], ["class text", "src/core/CharClass.cpp parse"]],
     "classes are built from random ranges, characters, initialiser lists, class text and earlier results, and combined; the model is a bit set over all code points. Non-trivial: at least two operations were applied and neither operand nor result is empty or everything",
     "property-based testing against a bit-set model", "random search: hundreds of thousands of class pairs and operation sequences per run, every code point compared; no proof of absence")
prop("C02", "A regex accepts exactly the strings of its language",
     "The automaton built from a regex accepts a string exactly when the regex, read with the documented operators (concatenation, alternation, groups, classes, any-character, repetition with *, + and ?, their modifiers, escapes), matches the whole string. Running it always terminates, repetitions of parts that can match nothing included.",
     ["inputs"], "every well-formed regex and every subject string",
     "One stable test builds an NFA from one regex and only checks that it can be built; language equality needs arbitrary nesting of operators and arbitrary subjects.",
     ["src/core/NFA.hpp", "src/core/CharClass.cpp", "src/core/Stream.hpp"],
     [["recursive-descent construction of the NFA", "src/core/NFA.hpp parse, parse_unit, select, concat"], ["state-set simulation", "src/core/NFA.hpp run, epsilon_closure"]],
     "regexes are generated as trees with their set-theoretic meaning, printed, parsed by the code and run on sampled members, mutated members and noise; the oracle is a set-of-end-positions matcher over the tree. Non-trivial: the regex has at least two characters of text and at least one subject matched",
     "property-based testing against a denotational regex matcher", "random search over regexes up to depth 4 and subjects up to 24 characters")
prop("C03", "Determinisation and minimisation preserve a regex's language",
     "The deterministic automaton built from a regex, minimised or not, accepts exactly the same strings as the regex. Each of its states has at most one successor for each character, no empty moves and no dangling targets, and minimisation never has more states than the automaton it started from.",
     ["inputs"], "every regex, minimised and not, and every subject string",
     "One stable test builds one DFA without running it; merging of states goes wrong only for regexes whose states differ in acceptance or in a late transition.",
     ["src/core/DFA.hpp", "src/core/NFA.hpp"],
     [["subset construction", "src/core/DFA.hpp fork_states, NFADepartureSetFactory"], ["merging of equivalent states", "src/core/DFA.hpp minimize, filter_nodes"]],
     "generated regexes; both automata are run on sampled, mutated and random subjects and, for small alphabets, on every string up to a length bound; oracle: the matcher over the regex tree; structural determinism is checked on every state. Non-trivial: the automaton has at least two states and a subject matched",
     "property-based testing against a denotational regex matcher, with bounded exhaustive subjects", "random search over regexes; bounded exhaustive over subjects in one facet")
prop("C04", "Reading a grammar file yields the grammar it spells, or an error at the fault",
     "A grammar file is read into exactly the rules it spells: the rules in order, numbered from one, findable by name and number, the first one as the root, each with its literals, regexes, calls, callback numbers, repetitions and alternatives. Layout, comments, line-end style, quoting and moving rules into included files change nothing; moving or copying the grammar object loses nothing. A malformed or truncated file, or one with a byte that cannot be read as a character, is rejected with an error whose line number points at the fault.",
     ["inputs"], "every grammar, every way of laying it out in files, every place where text can be cut or damaged",
     "No stable test reads a grammar file; comments, line ends, includes, escapes and the end of file can occur between any two tokens.",
     ["src/core/Grammar.cpp", "src/core/ATN.cpp", "src/core/Stream.hpp", "src/core/NFA.hpp", "src/core/Identifier.hpp"],
     [["grammar and include parsing, numbering", "src/core/Grammar.cpp parse"], ["whitespace, comments, line ends, line numbers", "src/core/Stream.hpp skip_whitespace, get"], ["items, literals, local ids", "src/core/ATN.cpp parse_atom, parse_literal"]],
     "random grammars printed with random layout, comments, line ends, quoting, include splits, then optionally cut, damaged with text that cannot be right there, or given a byte that is no character; files that include each other in a circle; oracles: the generated tree (names, numbers, multiset of items, exact dump for two layouts of one grammar), and the line of the damage. Non-trivial: the text has more than a handful of tokens or at least one comment, include or damage",
     "property-based testing: generated tree as reference model, metamorphic relation between layouts", "random search over grammars of up to ten rules; the locale is C, in which the characters of a grammar file are ASCII and other bytes must be refused")
prop("C05", "Automata of a grammar accept the grammar's language, optimised or not",
     "The transition networks built for a grammar's rules accept exactly the sentences the grammar derives, whitespace between tokens being optional where the grammar allows it. Optimising a grammar, once or more often, and composing the networks into one composite network keep that language and the callback numbers of the items, and never change which rules exist or how they are numbered.",
     ["programs", "inputs"], "every grammar, every sentence and non-sentence",
     "No stable test interprets the networks; node merging in the optimiser and splicing in the composite network go wrong only for particular nestings of alternatives, repetitions and nullable parts.",
     ["src/core/ATN.cpp", "src/core/ATN.hpp", "src/core/Grammar.cpp", "src/core/CompositeATN.cpp"],
     [["network construction", "src/core/ATN.cpp parse_atom, parse_concatenation, parse_selection"], ["optimiser", "src/core/ATN.cpp drop_passthrough_nodes"], ["composite network", "src/core/CompositeATN.cpp"]],
     "random grammars; sentences sampled from the tree, mutated sentences and noise; oracle: a recogniser over the generated tree against an interpreter of the networks. Non-trivial: at least one subject is in the language and the grammar has more than one item",
     "property-based testing against a reference recogniser", "random search over grammars up to five rules and sentences up to some forty characters")
prop("C07", "Prioritised alternatives are settled in the stated order",
     "Where a grammar orders alternatives with the priority separator, an input on which several alternatives remain possible is given to the best-ranked of them, so the decision is made there and not reported as ambiguous. Alternatives of equal rank are told apart by lookahead as usual, a lower-ranked alternative is still chosen when only it can match, and optimising the grammar does not change any of this.",
     ["programs", "inputs"], "every grammar with priorities, every lookahead string, optimised or not",
     "No stable test uses priorities; ranks have to survive nesting, repetition, optimisation, composition and determinisation.",
     ["src/core/ATN.cpp", "src/core/CompositeATN.hpp", "src/core/LookaheadDFA.hpp"],
     [["ranks given while parsing", "src/core/ATN.cpp parse_selection"], ["best rank kept in a departure set", "src/core/CompositeATN.hpp"], ["optimiser keeps ranks", "src/core/ATN.cpp drop_passthrough_nodes"]],
     "random grammars with ordered and unordered alternatives; lookahead strings steered to keep several alternatives alive; oracle: exact simulation of the alternatives, keeping after the first character only the best-ranked viable ones. Non-trivial: at least one string was decided at a decision with two ranks",
     "property-based testing against an exact simulation with ranks", "random search; decisions whose alternatives contain further priorities are not judged")
prop("C08", "Hostile text is read or rejected, never a crash, a hang or memory corruption",
     "Any text given as a grammar file, a regex, a character class or a path is either read or rejected with an exception. It never crashes, hangs, overflows, reads or writes out of bounds, or silently swallows text after an unbalanced delimiter. What was read can be enumerated, verified, optimised, determinised and printed without crashing, and automata derived from one regex still agree with each other.",
     ["inputs"], "every text",
     "Tests give well-formed text only; crashes come from cut, unbalanced, reversed, oversized and oddly escaped text.",
     ["src/core/Stream.hpp", "src/core/Grammar.cpp", "src/core/ATN.cpp", "src/core/NFA.hpp", "src/core/CharClass.cpp", "src/core/Identifier.hpp"],
     [["end-of-input handling of every scanner", "src/core/Stream.hpp unexpected"], ["class text", "src/core/CharClass.cpp parse"], ["regex text", "src/core/NFA.hpp parse_unit"], ["path text", "src/core/Util.hpp ATNPath"]],
     "well-formed grammars, regexes, classes and paths, damaged by insertions, deletions, replacements, duplications and cuts; built with AddressSanitizer and UndefinedBehaviorSanitizer; oracle: no sanitizer report, no abnormal end, no hang, agreement of NFA and DFAs, class and complement. Non-trivial: the text has more than a few characters",
     "structure-aware mutation fuzzing under sanitizers", "random search; texts nested deeper than 40 levels and self-including files are left out (native recursion)")
prop("C06", "Lookahead automata decide exactly",
     "For every decision point of a grammar for which a lookahead automaton can be built, the automaton names a branch exactly when the lookahead rules out every other branch in every calling context, with the least lookahead that settles it, and reports no decision when nothing matches or too little of the input is shown. The end of the input counts as a character that only the end of the root rule leads to. A grammar without recursion always gets its automata, and building one ends for every grammar, by success or by an exception.",
     ["programs", "inputs"], "every grammar, every decision point in it, every lookahead string",
     "The one test of lookahead automata fails on the pinned commit and covers one grammar; the property quantifies over grammars, calling contexts and lookahead strings.",
     ["src/core/LookaheadDFA.hpp", "src/core/CompositeATN.cpp", "src/core/CompositeATN.hpp"],
     [["closure over call stacks with unknown callers", "src/core/CompositeATN.cpp build_closure_*, build_wildcard_closure"], ["atomic ranges of a departure set", "src/core/CompositeATN.hpp CATNDepartureSetFactory"], ["merging of equal states", "src/core/LookaheadDFA.hpp add_state, minimize"]],
     "random grammars (flat, recursive, with nullable repetitions, optimised or not) and lookahead strings steered towards keeping several branches alive; oracle: an exact pushdown simulation of every branch with unknown callers. Non-trivial: at least one lookahead string was decided (tiny: the grammar has at least two decisions)",
     "property-based testing against an exact pushdown simulation", "random search over small grammars; cases over the CPU limit are counted and reported as inconclusive",
     ["priorities are not used in the generated grammars of this check (see C07)"])
prop("C09", "Verification refuses broken grammars and accepts sound ones",
     "Verifying a grammar fails if some rule calls a rule that is not defined, or if some decision can never be settled because a branch starts with a left-recursive chain of calls. It succeeds if all called rules are defined and the grammar has no recursion, or every decision is settled by the next character however recursive the rules are. The verdict is the same when asked again, agrees with whether every decision's lookahead automaton can be built, and changes nothing in the grammar.",
     ["programs"], "every grammar, optimised or not",
     "No stable test verifies a grammar; the verdict depends on cycles in the call graph through optional parts, on decisions in any rule and on callers found by search.",
     ["src/core/Grammar.cpp", "src/core/ATN.cpp", "src/core/CompositeATN.cpp", "src/core/LookaheadDFA.hpp"],
     [["called rules exist", "src/core/ATN.cpp verify_invocations"], ["every decision can be built", "src/core/CompositeATN.cpp verify_decisions"], ["recursion sentinels", "src/core/CompositeATN.cpp build_closure_*, build_wildcard_closure"]],
     "random grammars with and without left recursion, with a called rule removed, or with a terminal character of its own at every branch and after every call; oracle: call-graph analysis of the generated tree, and building every lookahead automaton. Non-trivial: the grammar has a decision (undefined: more than two rules; marked: more than five terminals)",
     "property-based testing against call-graph analysis of the generated grammar", "random search over small grammars; cases over the CPU limit are inconclusive")

prop("C11", "Parallel reduction equals serial reduction",
     "Reducing a syntax tree through the three-stage pipeline gives exactly the reductions a serial bottom-up reduction gives: every node is reduced exactly once, after its children, with its own rule number and span, and with its children's non-null values in order. The root comes last, the reduction counter equals the number of nodes, and the outcome depends on no bank size, bank count, worker count or thread schedule. A pipeline always runs to its end, and no run touches memory outside its banks and stacks.",
     ["schedules", "inputs", "histories"], "every tree, every way its markers fall into banks, every number of banks and workers, every interleaving of the stages",
     "No stable test runs the pipeline; what goes wrong depends on where bank borders cut the tree, on which values are null, and on the interleaving of parser, workers and final reducer.",
     ["src/core/BaseRunner.hpp", "src/core/Stage1Runner.hpp", "src/core/Stage2RunnerNonRecursive.hpp", "src/core/Stage3RunnerNonRecursive.hpp"],
     [["bank hand-over between stages", "src/core/Stage1Runner.hpp acquire_bank, release_bank, signal_exit; Stage2RunnerNonRecursive.hpp and Stage3RunnerNonRecursive.hpp acquire_bank, release_bank"], ["partial reduction of one bank", "src/core/Stage2RunnerNonRecursive.hpp reduce_bank, reduce_by_end_marker, push_value"], ["joining partial reductions in order", "src/core/Stage3RunnerNonRecursive.hpp reduce, append_value"]],
     "random trees (mixed, deep, wide, chains) written as markers by a stand-in parser that follows the generated code's bank protocol, random bank sizes down to one marker, bank and worker counts, listeners whose values mix span and arguments and are sometimes null, random delays in parser and listeners; trees of tens of thousands of nodes in as many banks, under one parent, or one below another; oracle: a serial reduction of the tree. One build is sanitized. Non-trivial: the markers filled more than one bank",
     "property-based testing of random histories and schedules against a serial reference reduction", "random search; schedules are those the kernel gives under random delays, not enumerated",
     ["no more workers than banks (the pipeline's own requirement)", "the parser asks for a bank at least once, as generated parsers do"])

prop("C12", "The parser's marker stream is handed on complete and in order",
     "Whatever the parser writes into the banks it asks for reaches the consumers as one stream: every marker exactly once, in the order written, none invented, each still saying whether it starts or ends a node, of which rule and at which offset. This holds for every bank size and count, for a parser that stops at any point, with consumers attached or in a dry run, where the parser is never held up. The parser is given the input's bytes, and its result comes back unchanged.",
     ["inputs", "schedules"], "every marker stream, every bank size and count, dry or not, every interleaving with the consumers",
     "No stable test runs the first stage; markers get lost or doubled only at bank borders and when banks are reused.",
     ["src/core/Stage1Runner.hpp", "src/core/BaseRunner.hpp", "src/core/PtrRange.hpp"],
     [["capture of a finished bank", "src/core/Stage1Runner.hpp release_bank"], ["dry run", "src/core/Stage1Runner.hpp release_bank, is_dry"], ["marker encoding", "src/core/BaseRunner.hpp CSTMarker"]],
     "random marker streams, whole or cut anywhere, random banks, dry or with consumers, captured or not, some of tens of thousands of banks; the captured chunks read as the benchmark reads them must be the stream written. Non-trivial: a captured stream that filled more than one bank",
     "property-based testing: round trip of generated marker streams", "random search; sanitized build included")
prop("C14", "A pipeline leaves nothing behind and serves the input whole",
     "However often pipelines are set up, run, dropped without running or refused, the process keeps no shared memory, semaphore, thread, open file or mapping of theirs, and the next one works, even when a process with the same number died earlier and left its shared objects behind. A missing input is reported by an exception. Each stage sees the input file's bytes exactly, whatever its size, empty or a whole number of pages included, followed by zero bytes as far as generated parsers read ahead.",
     ["histories", "inputs"], "every sequence of set-ups, runs, drops and deaths; every input size",
     "No stable test creates a runner; leaks and stale objects show only over a history, and reading past the input only for sizes near a page border.",
     ["src/core/BaseRunner.hpp", "src/core/Stage1Runner.hpp", "src/core/Stage2RunnerNonRecursive.hpp", "src/core/Stage3RunnerNonRecursive.hpp"],
     [["input mapping", "src/core/BaseRunner.hpp constructor, destructor"], ["shared window", "src/core/BaseRunner.hpp acquire_memory, release_memory"], ["semaphore", "src/core/BaseRunner.hpp create_semaphore, close_semaphore"]],
     "random histories of runs, dry runs, set-ups without runs, missing inputs and leftovers of a dead process of the same number (kept by hard links in /dev/shm); after each the process's own files, threads, mappings and shared objects are counted; inputs of sizes around page borders are read through every stage. Non-trivial: a history of more than one step, an input that is not empty",
     "stateful property-based testing with leftovers injected", "random search; one pipeline at a time, as the naming of the shared objects requires")

prop("C13", "The Python binding's reductions equal serial reduction",
     "In the form the pipeline has for the Python binding, where reduction values stay in the process that made them and only their number passes through the banks, the workers' and the final reducer's callbacks together still give exactly the serial reduction: every node once, children first, with exactly its children's values that are not None in order, and the root's value as the result. The callbacks name each bank truthfully and in order, so values arrive beside the bank they belong to, workers being threads or processes. Nothing is written outside a bank, however its markers nest.",
     ["schedules", "inputs"], "every tree, every way its markers fall into banks, every number of banks and workers, threads or processes, every interleaving",
     "No stable test touches the binding; counts of pending values go wrong only when a value-producing node ends in another bank than it began, and the written-back stacks grow with nesting.",
     ["src/core/Stage2RunnerNonRecursive.hpp", "src/core/Stage3RunnerNonRecursive.hpp", "src/core/BaseRunner.hpp", "src/python/centaurus/listener.py"],
     [["write-back of the partial reduction into its bank", "src/core/Stage2RunnerNonRecursive.hpp reduce_bank"], ["count of pending values", "src/core/Stage2RunnerNonRecursive.hpp push_value, Stage3RunnerNonRecursive.hpp append_value"], ["transfer callbacks", "src/core/Stage2RunnerNonRecursive.hpp and Stage3RunnerNonRecursive.hpp invoke_transfer_listener"]],
     "random trees, banks and delays as for C11, with the pipeline compiled as the binding compiles it and the Python listener adapters ported to C++; workers and final reducer are threads or forked processes; oracle: the serial reduction, and the numbers of the banks the workers are told. Non-trivial: the markers filled more than one bank",
     "property-based testing against a serial reference reduction", "random search under random delays",
     ["the adapters are the harness's port of src/python/centaurus/listener.py; the Python code itself is run by C19"])

prop("C15", "Generated code for tokens matches what the tokens mean",
     "The machine code generated for a regex gives the end of the longest prefix of the input the regex matches, or no match if there is none; for a literal, the end of the literal if the input starts with exactly that text; for whitespace, the first character that is none. This holds at every length, across the 16-byte blocks the code works in, for every class of a repetition marked for block matching, minimised or not. The code reads no byte beyond the zeros that end an input, and preserves what the calling convention requires.",
     ["programs", "inputs"], "every regex, every literal, every input text",
     "No stable test runs generated code (the assembler library is not part of the checkout); block matching goes wrong for long runs, many-ranged classes and matches that end at block borders.",
     ["src/core/CodeGenEM64T.cpp", "src/core/CodeGenEM64T.hpp", "src/core/CodeGenUtilsEM64T.hpp", "src/core/CodeGenCommonEM64T.hpp"],
     [["regex states and block loops", "src/core/CodeGenEM64T.cpp DFARoutineEM64T::emit, emit_state"], ["classes packed for block matching", "src/core/CodeGenUtilsEM64T.hpp pack_charclass"], ["literals", "src/core/CodeGenEM64T.cpp MatchRoutineEM64T::emit"], ["whitespace", "src/core/CodeGenEM64T.cpp SkipRoutineEM64T::emit"], ["entry and exit", "src/core/CodeGenUtilsEM64T.hpp emit_parser_prolog, emit_parser_epilog"]],
     "regexes with and without block loops, literals of 1 to 50 characters, whitespace runs; subjects are members, stretched members, mutants and noise in a buffer with a guard page behind its 16 zeros; the code is assembled by a stand-in for the assembler library and run natively; oracle: the regex matcher over the generated tree, string comparison. Non-trivial: a subject matched a regex of more than one character, a literal with one character changed, whitespace to skip",
     "property-based testing of generated code against a denotational regex matcher", "random search; the assembler is the harness's stand-in for the missing library",
     ["pbt/shim/asmjit assembles what the generator asks for", "code for wide characters is not judged: it reads two-byte units where wchar_t has four bytes"])

prop("C16", "Generated parsers accept what the grammar's decisions allow and record the derivation",
     "The parser generated for a grammar takes, at every decision, the branch the lookahead automaton settles on, matches every token greedily, and accepts exactly when this walk gets through the root rule, returning where it ended; a grammar whose next character always decides has each of its sentences accepted. The syntax tree it writes is that walk: a start and an end marker for every rule called, in order, with rule number and offsets. Pages are asked for as soon as one is full, the last one is filled up with zeros whether the input was accepted or rejected, and dry parsers answer the same. Callbacks are called as the calling convention requires.",
     ["programs", "inputs"], "every analysable grammar, optimised or not, every input text, every size of the syntax tree",
     "No stable test runs a generated parser (the assembler library is not part of the checkout); wrong branches, lost markers and page borders show only for particular grammars and for trees of more than a million markers.",
     ["src/core/CodeGenEM64T.cpp", "src/core/CodeGenEM64T.hpp", "src/core/LookaheadDFA.hpp", "src/core/CodeGenUtilsEM64T.hpp"],
     [["decisions", "src/core/CodeGenEM64T.cpp LDFARoutineEM64T::emit, emit_state"], ["markers and pages", "src/core/CodeGenEM64T.cpp ParserEM64T::emit_machine, request_page"], ["fill of the last page, rejection", "src/core/CodeGenEM64T.cpp ParserEM64T::init"], ["dry parsers", "src/core/CodeGenEM64T.cpp DryParserEM64T"]],
     "random grammars, analysed by an interpreter of the networks with an exact pushdown simulation (or, with priorities, the lookahead automaton) at every decision; grammars with a marker character at every branch, where the sampled derivation itself is the expected tree, under a root which only the end of the input closes in some; trees around one and two pages; decision routines alone, with lookahead that keeps branches alive. Pages hold junk and have guard pages. Non-trivial: an accepted input with a decision in it; a tree of more than one node; more than one page; a decided lookahead",
     "property-based testing of generated code against a reference interpreter and sampled derivations", "random search over small grammars and inputs up to some hundred characters, trees up to two million markers in one facet",
     ["pbt/shim/asmjit assembles what the generator asks for", "code for wide characters is not judged: it reads two-byte units where wchar_t has four bytes", "after the root rule comes optional white space and a zero, the end of the input, as far as decisions go; what they need not look at may be anything"])

prop("C17", "Generated chasers report one rule's parts and heed the answers",
     "The routine generated for a rule in chaser form walks that rule over the input: it reports each token that carries a callback number, with that number and the token's first and last position, and each called rule, with that rule's number and position, in order, continuing where the listener says the called rule ended. It returns where the rule ended, or nothing as soon as a token does not match, no branch fits, or the listener reports that the called rule failed. Listeners may use every register the calling convention lets them, and may call other chasers.",
     ["programs", "inputs"], "every analysable grammar, every rule of it, every input text, every behaviour of the listener",
     "No stable test runs generated code; registers lost across callbacks and wrong resumption show only for particular sequences of tokens, calls and failures.",
     ["src/core/CodeGenEM64T.cpp", "src/core/CodeGenUtilsEM64T.hpp", "src/core/CodeGenInterface.hpp"],
     [["callbacks of one rule", "src/core/CodeGenEM64T.cpp ChaserEM64T::emit_machine, push_terminal, request_nonterminal"], ["calls out of generated code", "src/core/CodeGenUtilsEM64T.hpp call_abs"], ["table of routines", "src/core/CodeGenEM64T.cpp ChaserEM64T::init"]],
     "random grammars with random callback numbers; the listener follows every call with the chaser of the called rule, or answers itself with the end the interpreter gives, or refuses one call; it spoils every register it may; oracle: an interpreter of the networks with exact decisions. Non-trivial: an accepted input with at least one event",
     "property-based testing of generated code against a reference interpreter", "random search over small grammars and inputs up to some thirty characters",
     ["pbt/shim/asmjit assembles what the generator asks for"])

prop("C18", "The C++ interface parses files and reduces them as a serial reduction would",
     "Given a grammar file, a context parses any number of input files with any number of workers. For each file every completed node whose rule has a callback attached gets exactly one call, after its parts, whose text, start, end and length are the node's part of the file and whose values are exactly the non-null values its parts' callbacks returned, in order. Rejected input reduces what was completed and ends; a missing file is reported; in both cases the context serves the next file as usual. No parse leaves a thread, an open file, a mapping or a shared object behind.",
     ["inputs", "histories", "schedules"], "every grammar whose decisions can be taken, every sequence of inputs, callbacks and worker counts",
     "No stable test goes through the interface; parser, pipeline and callbacks have to agree on offsets, rule numbers and values, for trees larger than a bank too.",
     ["src/core/Context.hpp", "src/core/CodeGenEM64T.cpp", "src/core/Stage1Runner.hpp", "src/core/Stage2RunnerNonRecursive.hpp", "src/core/Stage3RunnerNonRecursive.hpp"],
     [["set-up of a parse", "src/core/Context.hpp Context::parse"], ["callback context", "src/core/Context.hpp SymbolContext"], ["end of the reduction", "src/core/Stage3RunnerNonRecursive.hpp reduce"]],
     "grammars with a marker character at every branch and sampled sentences, whose derivation is the expected tree; damaged sentences, whose completed nodes an interpreter gives; missing files; sessions of two contexts; inputs of one to four million markers, in many banks, with many values under one node, or nested more than a million levels deep; callbacks on random rules, replaced now and then, returning nothing for some nodes; oracle: a serial reduction of the tree. Non-trivial: a tree of more than two nodes, or of more than one bank",
     "property-based testing of whole sessions against a serial reference reduction", "random search; schedules are those the kernel gives",
     ["pbt/shim/asmjit assembles what the generator asks for"])

prop("C19", "The Python binding parses files and returns what a serial reduction would",
     "A context made from a grammar file, with a listener attached and any number of workers started, returns for every file it parses the value that calling the listener bottom-up on the file's derivation gives: each rule's own method, or the default one, is called exactly once per completed node; reading the node gives its text; its length, indexing and iteration give exactly the values its parts' methods returned, in order, leaving out only None. Several files, several contexts in one process, rejected input, and stopping and starting again all work; parse always returns. A grammar that is broken, missing or undecidable and an input that is missing raise an exception, after which other contexts and inputs work. Contexts that are stopped leave no process and no shared object behind. The classes beneath number and name the rules as the grammar orders them.",
     ["inputs", "histories", "schedules"], "every grammar whose decisions can be taken, every listener, every sequence of start, parse and stop, every worker count",
     "No test touches the binding. Values travel between processes, separately from the markers that say how many there are; a session has races between processes that one parse does not show.",
     ["src/python/centaurus/context.py", "src/python/centaurus/listener.py", "src/python/centaurus/corelib.py", "src/pydll/PyCentaurus.cpp", "src/core/Stage2RunnerNonRecursive.hpp", "src/core/Stage3RunnerNonRecursive.hpp"],
     [["session and worker processes", "src/python/centaurus/context.py Context, SubprocessWorker"], ["values across banks", "src/python/centaurus/listener.py Stage2ListenerAdapter, Stage3ListenerAdapter"], ["exported functions", "src/pydll/PyCentaurus.cpp"]],
     "sessions of one or two contexts over grammars with a marker character at every branch: one to four files per start, sampled sentences whose derivation is the expected tree, damaged sentences whose completed nodes an interpreter gives, restarts; methods that return None, 0, an empty string, False or the node for different nodes; texts in UTF-8 and files with such names; value indices from both ends and out of range; inputs of one to two million markers; names and numbers of rules. Oracle: a serial reduction, for the returned value and for the list of calls. Non-trivial: a tree of more than two nodes, or of more than one bank",
     "property-based testing of whole sessions against a serial reference reduction", "random search; schedules are those the kernel gives",
     ["pbt/shim/asmjit assembles what the generator asks for", "what parse returns for rejected input is not judged, only that it returns"])

prop("C20", "Drawings show exactly the automata they are made from",
     "Every drawing the library writes - of a regex's NFA or DFA, of a rule's network at any depth of expansion, of the composite network, of a decision's lookahead automaton - is a graph a DOT reader accepts, whatever the rules are called, and read back it is the automaton: the drawn automaton accepts the same strings from the same start, a drawn network has the same nodes, branches, called rules and tokens, with each called rule expanded to the depth asked for under names of its own, and a drawn decision settles on the same branches for the same input as the decision at the path asked for.",
     ["inputs", "programs"], "every regex, every grammar, every rule name, every depth, every decision",
     "No stable test reads a drawing; names that are keywords or collide and labels of unprintable characters show only for particular inputs.",
     ["src/core/NFA.hpp", "src/core/DFA.hpp", "src/core/ATN.hpp", "src/core/CompositeATN.hpp", "src/core/LookaheadDFA.hpp", "src/core/Grammar.hpp", "src/core/Grammar.cpp", "src/core/CharClass.cpp"],
     [["drawn automata", "src/core/NFA.hpp NFABase::print; src/core/NFA.hpp and DFA.hpp state and transition output"], ["drawn networks", "src/core/ATN.hpp ATNPrinter, ATNMachine::print; src/core/Grammar.hpp print_catn, print_dfa, print_nfa, print_ldfa"], ["labels", "src/core/CharClass.cpp operator<<"]],
     "generated regexes and grammars (rule names among keywords, prefixes of each other and names ending in digits) are drawn, the text is read by a DOT reader and compared with the machine, or run on sampled and mutated strings against the denotational matcher or the exact simulation of the decision. Non-trivial: the drawn automaton has more than one state and accepted a subject; an expanded network; a composite of more than four nodes; a decision that was settled",
     "property-based testing: drawings read back and compared with their automata", "random search",
     ["class labels in which '-' ends a range are ambiguous by design and discarded", "literals are deliberately not shown in networks"])

prop("C21", "The command line tool draws, verifies or refuses",
     "Every command line the tool's synopsis allows, with its options in any order and the output file before or after the command, does what it says: it writes exactly the library's drawing of the grammar, rule, node or pattern asked for to the output file or to standard output and exits with 0; verify-grammar exits with 0 for a sound grammar and with 1 for one with a missing rule or a decision that left recursion makes endless. Everything else - a command line outside the synopsis, a grammar file that is missing or broken, a pattern that is none, a path to nothing drawable, an output that cannot be written - is refused with a message and an exit status other than 0, without a crash and without a drawing.",
     ["inputs", "programs"], "every command line, every grammar file, every pattern, sound or damaged",
     "No stable test runs the tool; order and combination of options, exit states and damaged input are many.",
     ["src/tool/main.cpp", "src/core/Grammar.hpp", "src/core/Grammar.cpp", "src/core/Encoding.hpp", "src/core/CompositeATN.hpp", "src/core/Util.cpp"],
     [["command line", "src/tool/main.cpp"], ["conversion of arguments", "src/core/Encoding.hpp mbstowcs"], ["paths", "src/core/Util.cpp ATNPath::parse; src/core/Grammar.hpp resolve"]],
     "the built tool is run on generated command lines over generated grammars and patterns: valid ones, some into a file that is already there (oracle: the library's drawing made in the harness), verdicts (oracle: call-graph analysis, grammars with a marker character at every branch, else the library), command lines spoiled in one known way, and damaged grammars, paths and patterns given to a sanitized build. Non-trivial: a pattern of more than three states, a drawing of more than 300 characters, a grammar of more than one rule, a spoiled command line, a damaged text of more than ten characters",
     "property-based testing and fuzzing of the built tool", "random search; cases over the CPU limit are inconclusive",
     ["the locale is C: arguments outside ASCII are refused"])

prop("C22", "The shipped grammars read the formats they are for",
     "With a grammar of grammars/ (calc, json, citylots, citylots_eager, dblp, dblp_schema, xml) and callbacks on its rules, a document of the format comes out as what it means, however it is spaced, however large it is and with however many workers: an expression as its value, a JSON text as the same values in the same order and nesting, a city lots collection with exactly the features on JEFFERSON told from the ones that nearly are, a bibliography with its records, fields and mixed text and exactly the years 1990 singled out, an XML document as its prolog and elements. A document that is broken at some place is not reduced to its root, no element after that place is reduced, and the next document parses as if nothing had happened.",
     ["inputs", "histories", "schedules"], "every document of the seven formats within what the grammars cover, every worker count",
     "The tests that use these grammars need data sets that are not there. The grammars' decisions look arbitrarily far ahead (a feature is classified by a string after six others), so near misses count.",
     ["grammars/", "src/core/Context.hpp", "src/core/CodeGenEM64T.cpp", "src/core/CodeGenEM64T.hpp", "src/core/LookaheadDFA.hpp", "src/core/Grammar.cpp", "src/core/Stage2RunnerNonRecursive.hpp", "src/core/Stage3RunnerNonRecursive.hpp"],
     [["grammar files", "grammars/*.cgr"], ["C++ interface", "src/core/Context.hpp Context, SymbolContext"], ["generated parser", "src/core/CodeGenEM64T.cpp"]],
     "documents written by a generator per format that knows what they mean (values, near misses of keywords, long strings, bytes outside ASCII, all kinds of spacing), the same with a stray character at a token boundary or cut there, and documents of several megabytes pieced together. Oracle: the meaning known to the generator. Non-trivial: more than ten tokens; a tree of more than half a million nodes, or a long calculation",
     "property-based testing with format generators that know what their documents mean", "random search; schedules are those the kernel gives",
     ["lua.cgr is left out: verify-grammar reports that it cannot be decided", "pbt/shim/asmjit assembles what the generator asks for"])

prop("C23", "A grammar answers alike, whatever was asked of it before",
     "Reading files into a grammar and optimising it are all that changes it. Drawing it or parts of it, looking rules up, verifying it, composing it, and generating and running parsers and chasers leave it as it is, and so does moving it: at any time each of these gives the answer that a fresh grammar gives which has read the same files and been optimised at the same points. Several files read one after another make the grammar that one file with their text makes.",
     ["histories", "inputs"], "every sequence of readings, optimisations, moves and questions, over every grammar",
     "No stable test uses a grammar twice; an answer remembered too long, or a question that changes what it looks at, shows only for particular orders of use.",
     ["src/core/Grammar.hpp", "src/core/Grammar.cpp", "src/core/ATN.hpp", "src/core/CompositeATN.hpp", "src/core/LookaheadDFA.hpp", "src/core/CodeGenEM64T.cpp"],
     [["questions", "src/core/Grammar.hpp print_grammar, print_nfa, print_dfa, get_machine_id, lookup_id; src/core/Grammar.cpp print_catn, print_ldfa, verify"], ["changes", "src/core/Grammar.cpp parse; src/core/Grammar.hpp optimize, move constructor"]],
     "random grammars split over one or more files and a random history of up to fifteen steps (read the next file, optimise, draw optimised, move, or one of ten kinds of question about a random rule and place). Oracle: the same question asked of a fresh grammar given the same changes and no question; the dump of the whole against the text read in one file. Non-trivial: two questions or more, and two changes or moves or more",
     "stateful property-based testing: histories of a grammar object against a freshly made one", "random search",
     ["pbt/shim/asmjit assembles what the generator asks for", "code is generated of complete grammars only"])

NOT_APPLICABLE = {}


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for k in sorted(P):
            p = P[k]
            f.write(json.dumps({
                "id": k, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": p["state"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
         "checks": [{"property": k, "quick_cmd": "python3 bin/check.py %s" % k,
                     "thorough_cmd": "python3 bin/check.py %s --tier thorough" % k,
                     "evidence_file": "evidence/%s.json" % k, "technique": P[k]["technique"], "level": "exploration",
                     "level_note": P[k]["note"]} for k in sorted(P) if k not in NOT_APPLICABLE],
         "not_applicable": [{"property": k, "reason": NOT_APPLICABLE[k]} for k in sorted(NOT_APPLICABLE)],
         "notes": "All machinery is property-based testing with the engine in pbt/pbt.hpp; bin/check.py builds from /repo's working tree. No hooks in /repo."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
