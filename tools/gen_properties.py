#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that it is readable and diffable)."""
import json, os
REC="gearley-recognizer/src/recognizer.rs"; HEAP="gearley-recognizer/src/binary_heap.rs"
LOOK="gearley-recognizer/src/lookahead.rs"; PRED="gearley-recognizer/src/predict.rs"; EV="gearley-recognizer/src/event.rs"
VEC="gearley-vec2d/src/lib.rs"; CP="gearley-utils/src/cartesian_product.rs"; PARSE="gearley-utils/src/parse.rs"
SB="simple-bocage/src/bocage.rs"; ST="simple-bocage/src/traverse.rs"
CB="compact-bocage/src/bocage.rs"; CT="compact-bocage/src/traverse.rs"; CG="compact-bocage/src/graph.rs"
DG="gearley-default-grammar/src/lib.rs"; GG="gearley-grammar/src/lib.rs"; FF="gearley-forest/src/forest.rs"; FI="gearley-forest/src/item.rs"
PH="gearley-recognizer/src/perf_hint.rs"; NH="gearley-forest/src/node_handle.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("R01","Reset gives back a fresh session, wherever the old session was abandoned",
  "After a recognizer is reset, every later observation (acceptance of each token, finished status, predicted symbols, progress reports, offered completions and parse results) is the same as on a newly created recognizer for the same grammar. This holds no matter at which point the previous session was abandoned: before the first position, with tokens scanned but the position not closed, in the middle of completing fragments by hand, with a lookahead hint pending, after a rejection, or after any number of earlier resets.",
  ["histories","crash_points","inputs"],
  "every grammar, every prefix of every session, every abandonment point inside a position, every following session on the same object",
  "the upstream reset test repeats one accepted three-token input 1000 times and always abandons at the same, finished point; stale predictions, hints and half-completed groups never influence it",
  [REC,LOOK,HEAP,VEC],
  [("Recognizer::reset clears chart, completion queue, predictions and hint",REC+":reset"),("chart clear",VEC+":clear"),("queue clear",HEAP+":clear"),("prediction row clear",PRED+":clear")],
  ["end_earleme result","is_finished","finished_node","predicted_symbols","medial_items","next_sum"])

p("R02","A rejected token leaves the session exactly as it was",
  "When closing a position reports that none of the offered tokens can continue the input, nothing else has changed: the caller may offer other tokens at the same position, and the rest of the session then behaves exactly as if the rejected tokens had never been offered. This holds for any number of rejected offers at any positions.",
  ["fault_sequences","inputs","histories"],
  "every grammar and input, every sequence of garbage tokens offered before a good one, at every position",
  "the tests only feed acceptable input; no test continues after a rejection",
  [REC],[("exhaustion test before completion",REC+":end_earleme"),("exhaustion test",REC+":is_exhausted"),("prediction filter on scan",REC+":complete")],
  ["end_earleme result","is_finished","predicted_symbols"])

p("R03","Order and repetition of alternative tokens at a position do not matter",
  "Several alternative tokens may be offered at one position, and verdicts, predictions and completions depend only on the set of tokens offered: delivering them in another order, or delivering some of them twice, or mixed with unacceptable ones, changes nothing that a user observes about acceptance at this or any later position.",
  ["schedules","inputs"],
  "every grammar, every sequence of token sets, every delivery order and duplication of each set",
  "no test offers more than one token per position",
  [REC,HEAP],[("scan/complete accumulate into the open position",REC+":scan"),("online sorting of completions",HEAP+":heap_push/heap_pop"),("sorting of the closed set",REC+":sort_medial_items")],
  ["end_earleme result","is_finished","predicted_symbols"])

p("R04","Truthful lookahead hints never change the verdict, whichever of them are lost",
  "A lookahead hint that names the token that really follows only prunes useless work: whether the whole input is accepted, and the parse it yields, are the same with all hints delivered, with none, or with any subset of them lost or cleared before the position is closed, or replaced before any token of that position is offered. A hinted token that cannot follow may be reported at most one position earlier than without the hint, and a hint given at one position has no effect on any later position.",
  ["fault_sequences","inputs"],
  "every grammar and input, every subset of lost or late hints",
  "the bundled driver always delivers all hints on a handful of accepted inputs and no test compares with an unhinted run",
  [REC,LOOK,DG,PARSE],[("hint consulted when advancing items",REC+":complete_medial_items/complete_predictions"),("hint cleared when the position closes",REC+":complete_all_sums_entirely"),("hint storage",LOOK)],
  ["end_earleme result","is_finished","finished_node"])

p("R05","Sessions sharing one grammar are isolated from each other",
  "Any number of recognizers may work on one shared grammar, interleaved step by step in one thread or spread over several, and each behaves exactly as if it were alone, also when another of them is rejected, reset, dropped or has a caller callback that fails.",
  ["schedules","fault_sequences"],
  "every interleaving of the steps of two or more sessions over one grammar, with failures injected in some of them",
  "no test runs two sessions at once",
  [REC,GG,SB,CB],[("grammar is only borrowed immutably",REC+":Recognizer.grammar"),("all session state is inside the recognizer and its forest",REC+":Recognizer")],
  ["all observations of each session"])

p("R06","At every position the verdict agrees with the grammar",
  "After every closed position of a stream read without lookahead hints, 'can continue' is reported exactly if the tokens read so far are the beginning of some sentence of the grammar, and 'finished' exactly if they are a whole sentence. Before the first position, 'finished' is reported exactly if the empty input is a sentence. This holds for every context-free grammar without cycles, including ambiguous, left-, right- and hidden-recursive ones and ones with empty rules, for alternative tokens per position, and for sessions disturbed by rejected tokens, queries in between and resets.",
  ["inputs","histories","fault_sequences","configurations"],
  "every cycle-free grammar, every stream of token sets, every disturbance sequence, every capacity setting",
  "tests check a verdict once, at the end of a few accepted inputs of a few grammars",
  [REC,HEAP,PRED,FI,VEC,PH],[("scan",REC+":scan"),("completion in priority order",REC+":complete_all_sums_entirely"),("range search in sorted sets",REC+":complete_medial_items"),("compaction of unreachable sets",REC+":remove_unreachable_sets"),("prediction",REC+":prediction_pass"),("heap",HEAP),("item order",FI)],
  ["end_earleme result","is_finished"])

p("R07","Completed fragments are offered exactly once, inner ones first, and whole",
  "When a position is closed (with no lookahead hint pending), each completed fragment (a symbol together with where it starts) is offered exactly once, never one that starts earlier before one that starts later, and together with all alternative ways in which it was completed, each exactly once. It makes no difference to anything observable later whether the caller drives the completion by hand, fragment by fragment, or lets it run automatically, or switches between the two from position to position.",
  ["schedules","inputs","histories"],
  "every grammar and input, every choice per fragment of manual or automatic driving",
  "manual driving is not exercised by any test; automatic driving only by its total counters on one input",
  [REC,HEAP,FI],[("group iteration",REC+":next_sum/next_summand/complete_sum"),("heap order by start then rule",HEAP+":sift_down_range/sift_up"),("ordering of items",FI+":Ord"),("automatic driving",REC+":complete_entire_sum")],
  ["CompleteGroup::origin/symbol","next_summand","forest callbacks"])

p("R08","A vetoed fragment or alternative has no influence on the rest of the parse",
  "When the caller drives completion by hand and refuses a fragment, or some of its alternatives, the session continues exactly as if the refused derivations were not part of the language at that place: later verdicts and the parse result contain everything derivable without them and nothing that needs them. Refusing one fragment never affects an unrelated one.",
  ["fault_sequences","schedules","inputs"],
  "every grammar and input, every set of refused fragments and alternatives at every position",
  "no test refuses a fragment",
  [REC,SB,CB],[("skipping a group",REC+":skip_entire_sum"),("choosing summands",REC+":next_summand/push_summand"),("sum of the chosen summands only",SB+":sum")],
  ["end_earleme/is_finished after the veto","evaluate"])

p("R09","Endless left-recursive input is recognised in bounded space",
  "While reading an arbitrarily long stream whose structure is a left-recursive list with bounded nesting and items whose ends are certain when they are read (such as items ended by a terminator), the number of retained positions and the memory held by a recognizer without a parse forest stay below a bound that depends on the grammar, the nesting depth and the length of the longest item, not on how much was read. Rejected tokens, lost hints, progress queries and resets on the way do not make it grow.",
  ["histories","fault_sequences"],
  "every length of stream, every disturbance sequence on the way",
  "the longest test input is a C source file and no test looks at retained positions or memory",
  [REC,VEC,PRED],[("removal of unreachable sets",REC+":remove_unreachable_sets"),("truncate keeping the open set",VEC+":truncate"),("one prediction row per kept set",REC+":prediction_pass")],
  ["earleme","live heap bytes"])

p("R10","Progress reports are exact and asking for them changes nothing",
  "In a session without lookahead hints, after any position the predicted symbols are exactly those with which some continuation of the input can start at that point, and the reported rules in progress, with their starts, events and distances, are exactly those that the grammar allows there. Asking for any progress report, any number of times and at any moment, has no influence on the session.",
  ["histories","inputs","schedules"],
  "every grammar and input, every placement of queries between the steps of the session",
  "no test reads predictions, events, distances or traces",
  [REC,EV,PRED,DG],[("predicted symbols",REC+":predicted_symbols"),("items in progress",REC+":medial_items"),("events, distances, trace",EV),("prediction rows",PRED+":predict")],
  ["predicted_symbols","medial_items","events","minimal_distances","trace","expected_terminals"])

p("R11","A failing caller callback can be recovered from by reset",
  "If a caller-supplied parse forest fails (panics) at any of its callbacks, at any position, the recognizer can be reset and reused, and from then on it behaves, and with a bundled forest evaluates, exactly as a fresh session. Other sessions are not affected, and nothing is aborted or corrupted.",
  ["crash_points","fault_sequences"],
  "every grammar and input, every callback occurrence as failure point, before or after the callback takes effect",
  "no test injects a failing callback",
  [REC,SB,CB,FF],[("reset",REC+":reset"),("forest callbacks during scan and completion",REC+":scan/complete_entire_sum/complete_medial_items"),("state of a half-built sum",SB+":begin_sum/sum"),("state of a half-built sum",CB+":begin_sum/sum")],
  ["all observations after the reset"])

p("R12","Performance settings change nothing that can be observed",
  "Whatever performance settings a recognizer is created with (a memory limit, expected numbers of tokens and symbols, a caller's own capacities down to none), every history of a session gives the same observations as with the default settings: verdicts, finished status, progress reports, offered completions, parse results, the number of retained positions and what happens when a callback fails. With settings that turn lookahead off, lookahead hints have no effect, and everything is as if no hint had been given.",
  ["configurations","histories","fault_sequences"],
  "every memory limit, token and symbol count and capacity that can be reserved, lookahead on and off, every grammar, every history with rejections, hints, abandonments, failing callbacks and resets",
  "every test uses the default settings",
  [PH,REC,VEC],[("settings",PH+":DefaultPerfHint"),("capacities",REC+":with_forest_and_policy"),("lookahead switch",REC+":complete_medial_items/complete_predictions")],
  ["all observations of both sessions"])

p("R13","Deterministic input is read in linear work under truthful hints",
  "On every grammar that one token of lookahead decides (its LR(0) automaton has no conflicts once a rule is reduced only before tokens that may follow its left side), closing a position under a truthful hint of the next token costs at most a constant for each item and table entry that a shift-reduce parser reaches at that token, however much was read before: grammar lookups, sums, products and summands in the forest, items kept in progress; and memory grows at most linearly with the tokens read. Earlier sessions that were abandoned or failed, resets, refused tokens, hints overwritten by the right one and the way of closing positions change nothing about that.",
  ["inputs","histories","fault_sequences"],
  "every such grammar, every input, every history of earlier sessions",
  "no test counts work or sets a hint on an input of more than a few tokens; the results are the same without any pruning",
  [REC,HEAP,"gearley-recognizer/src/lookahead.rs",DG,"README.md"],[("pruned completions",REC+":complete_medial_items/complete_predictions/complete_generated_binary_predictions"),("hint kept until the position is closed",REC+":advance_after_completion/complete_all_sums_entirely"),("lookahead sets",DG+":populate_lr_sets")],
  ["counts of grammar lookups and forest callbacks","bytes allocated","medial_items"])

p("F01","The forest callbacks describe exactly the parse trees of the input",
  "The sequence of calls that a parse forest receives is well formed (every node passed back was handed out earlier in this session and covers the stated span, a token ends one position after the session's current one, alternatives arrive between the begin and the end of their sum, a sum never is empty), and the finished node stands for exactly the parse trees of the input read so far: no tree is missing, none is invented, none is counted twice. This holds under rejected tokens, lost hints, compaction of old positions and resets in the same recognizer.",
  ["inputs","histories","fault_sequences"],
  "every cycle-free grammar, every stream, every disturbance sequence",
  "one test counts callbacks on one input; no test looks at the set of trees",
  [REC,HEAP,FF],[("leaf",REC+":scan"),("product",REC+":complete_medial_items"),("sum",REC+":complete_entire_sum/complete_sum"),("finished node",REC+":finished_node")],
  ["Forest callbacks","finished_node"])

p("F02","Evaluating an unambiguous parse gives its tree, whatever the history",
  "With the faster bundled forest, evaluating the finished node of an unambiguous input calls the caller's actions bottom-up, exactly once per tree node, with the right rule, arguments in order, token values, and empty symbols in place, and returns the value of that one tree. The result does not depend on the history of the forest: rejected tokens, refused or abandoned fragments, earlier sessions on the same forest, or the capacity it was created with.",
  ["inputs","histories","fault_sequences","configurations"],
  "every grammar and unambiguous input, every disturbance sequence before and during the session",
  "a handful of fixed inputs on fresh forests; nothing is evaluated after a reset, a rejection or a refusal",
  [SB,ST,GG,NH],[("nodes",SB+":leaf/product/push_summand/sum"),("empty symbols",SB+":initialize_nulling/postprocess_product_tree_node"),("evaluation",ST+":evaluate")],
  ["evaluate"])

p("F03","The memory-efficient forest evaluates like the faster one, at every size",
  "With the memory-efficient bundled forest, evaluating the finished node of an unambiguous input gives the same value, through the same calls of the caller's actions, as the faster forest: for every input, every token value, every size the forest has grown to, every history of rejected tokens, refused or abandoned fragments and earlier sessions on the same forest.",
  ["inputs","histories","configurations","fault_sequences"],
  "every grammar and unambiguous input, every forest size below its address limit of 2^32 bytes of nodes, every history",
  "no test uses the memory-efficient forest at all",
  [CB,CT,CG,NH],[("variable-length node encoding",CG+":push/get/get_node_size/push_expanded"),("sums",CB+":begin_sum/push_summand/sum"),("empty symbols",CB+":initialize_nulling/postprocess_product_tree_node"),("evaluation",CT+":evaluate")],
  ["evaluate"])

p("F04","An interrupted evaluation can be repeated, and repeating one changes nothing",
  "Evaluating a finished node, or an earlier position's finished node kept by the caller, may be interrupted by a failing caller action at any call, abandoned, or repeated, also between further steps of the session; each complete evaluation of the same node of an unambiguous parse yields the same value and the same calls. This holds for both bundled forests.",
  ["crash_points","schedules","histories"],
  "every grammar and input, every action call as interruption point, every number of repetitions, interleaved with further parsing or not",
  "every test evaluates once, uninterrupted, and discards the forest",
  [ST,CT,SB,CB],[("evaluation mutates nodes lazily",ST+":evaluate"),("lazily inserted empty symbols",SB+":postprocess_product_tree_node"),("lazily inserted empty symbols",CB+":postprocess_product_tree_node")],
  ["evaluate"])

p("F05","Evaluating an ambiguous parse gives one value for every parse tree",
  "With either bundled forest, evaluating the finished node of an ambiguous input returns exactly one value for each parse tree of the input read so far (without the refused derivations), namely the value that the caller's actions give to this tree: every call of a rule's action has exactly one argument for each symbol of the rule, in order. No tree is missing, none is counted twice, none is mixed up of two. Where the caller's action for an empty symbol gives several values or none, there is one value for each way of choosing them. This holds after any history: rejected tokens, refused or abandoned fragments, evaluations that were interrupted or done before, earlier sessions on the same forest, and sizes the forest has grown to.",
  ["inputs","histories","fault_sequences","crash_points"],
  "every grammar without cycles, every input, every history of the session and the forest, every call of an action as interruption point",
  "one test evaluates one ambiguous input with one grammar on one of the two forests",
  [ST,CT,SB,CB,CG],[("alternatives and their combination",ST+":evaluate"),("alternatives and their combination",CT+":evaluate"),("sums",SB+":begin_sum/push_summand/sum"),("sums",CB+":begin_sum/push_summand/sum")],
  ["evaluate"])

p("F06","The order of ambiguous values depends on the parse alone",
  "Evaluating an ambiguous parse gives its values in an order that only the grammar, the tokens accepted at each position and the derivations refused decide. It is the same when the evaluation is repeated, after evaluations that failed, later in the session, in a forest that holds earlier sessions, with other capacities of forest and recognizer, in a recognizer that was reset, after offers that were rejected, and whichever way positions are closed.",
  ["histories","fault_sequences","configurations"],
  "every grammar and ambiguous input, every history of forest and recognizer",
  "one ambiguous expression is evaluated once in a fresh forest",
  [SB,ST,CB,CT,HEAP,REC],[("alternatives in order of insertion",ST+":evaluate"),("order of equal completions",HEAP+":heap_push/heap_pop"),("alternatives of a node",SB+":sum/push_summand")],
  ["values of both sessions, in order"])

p("V01","The set-of-sets container keeps its contents through interrupted operations",
  "The container of item sets always holds exactly the sealed sets and the open items that its history of operations implies: pushing, popping, sealing, extending from iterators, truncating with the open items kept, cloning, clearing and reusing. A caller's iterator or clone that fails midway, ends early or misreports its length never alters a sealed set, never seals a partial one, and never loses or duplicates an item.",
  ["histories","fault_sequences","crash_points"],
  "every operation history, every failure point inside caller-supplied iterators and clones",
  "the crate has no tests",
  [VEC],[("two flat arrays",VEC+":Vec2d"),("truncate",VEC+":truncate"),("extend",VEC+":extend_with_set"),("sealing",VEC+":next_set")],
  ["len","index","last","item_count","index_at","get_item"])

p("V02","A stored container restores to the same state, and a torn image is refused",
  "Saving the container at any moment of its history and restoring it, with either supported serialisation, gives a container that is indistinguishable now and after any further operations. After a crash the restored state is one that was completely saved; an image cut short at any byte is refused with an error and never yields a container.",
  ["crash_points","histories","fault_sequences"],
  "every history, every checkpoint moment, every byte at which the write is cut, lost or replaced by an older image",
  "one feature-gated test of a bigger type round-trips one value",
  [VEC],[("derived serialisation of both arrays",VEC+":Vec2d")],
  ["serialised image","all container observations after restore"])

p("P01","The Cartesian product enumerates each combination exactly once, memory-safely",
  "Between creation or clearing and exhaustion, however factors were added (one by one, from iterators, in mixtures, from an iterator that fails midway) and however often the enumeration is paused, resumed or abandoned, every combination of one element per factor appears exactly once, in mixed-radix order with the first factor varying fastest, and the enumeration then starts over. No call ever reads outside the slices it was given.",
  ["histories","fault_sequences","inputs"],
  "every sequence of calls, every factor length and element type, every failure point of a caller's iterator",
  "the one test adds three factors by one call to a fresh product and enumerates once",
  [CP],[("pointer per factor",CP+":CartesianProduct.ptrs"),("factor wrap-around",CP+":Factor::advance"),("adding factors",CP+":push/extend"),("clearing",CP+":clear")],
  ["as_slice","advance"])

p("G01","A saved grammar restored after a crash parses identically; a torn one is refused",
  "A prepared grammar that is saved and later restored drives recognizers, forests and evaluation exactly like the original, from any moment and in any number of generations of save and restore, and sessions on original and restored grammars can be mixed. An image cut short at any byte is refused with an error.",
  ["crash_points","inputs","histories"],
  "every grammar, every save/restore generation, every byte at which the write is cut",
  "one feature-gated test round-trips one grammar and compares two of its fields",
  [DG,GG,VEC],[("derived serialisation of every table",DG+":DefaultGrammar"),("transition tables",GG+":PredictionTransition"),("nested container",VEC)],
  ["json image","recognition and evaluation on the restored grammar"])

p("D01","The bundled parse driver tells the truth about the input and survives failures",
  "Driving a whole list of tokens (terminals of the user's grammar, used by a rule or not) through the bundled parse call on a fresh or reset recognizer returns 'true' exactly for sentences and 'false' exactly for proper beginnings of sentences that are not sentences, and otherwise an error that names the first token that cannot continue the input, or the one right before it, with its place in the list. After an error, a success or a failing forest callback, a reset makes the recognizer usable again for any other list, with the same answers as a fresh one. The bundled calls that first turn words or characters into tokens return 'true' exactly if the words, or some choice of a token for each character, are a sentence.",
  ["inputs","histories","fault_sequences"],
  "every grammar and token list, every sequence of failed and successful parses with resets between them",
  "the tests parse a few accepted lists; the error path and reuse after an error are not exercised",
  [PARSE,REC],[("driver loop with hints",PARSE+":parse"),("reset",REC+":reset")],
  ["parse result","finished_node"])

p("E01","The example calculators compute what the text says",
  "For every text over its characters, the precedence-aware example grammar accepts exactly the well-formed expressions (decimal numbers of any length, the four operators, parentheses), and the ambiguous one the same without parentheses: a text given at once is told to be complete, the proper beginning of an expression, or wrong, and a key typed at any point is accepted exactly if some expression continues that way. With the example's evaluator an accepted expression has one value under the precedence-aware grammar, that of 32-bit integer arithmetic with the usual precedence and left association and division that truncates, and under the ambiguous grammar exactly one value for each way of bracketing it, namely that bracketing's value. A key that can be read as several characters gives the values of all readings. This is so with either bundled forest, after any number of keys that were turned down, after failed actions and forest callbacks, and for any sequence of texts on one recognizer with resets between them. Texts of which a bracketing or reading divides by zero or overflows are not evaluated.",
  ["inputs","histories","fault_sequences"],
  "every text and sequence of keys over the alphabet, every history of earlier texts, refused keys and failures on the same recognizer",
  "the tests accept one expression and evaluate another, each on a fresh recognizer; no number has more than two digits and no digit is above 6",
  ["gearley-example-grammars/src/precedenced_math/mod.rs","gearley-example-grammars/src/ambiguous_math/mod.rs",PARSE,ST,CT],
  [("grammar, evaluator and tokenizer with precedence","gearley-example-grammars/src/precedenced_math/mod.rs:grammar"),("ambiguous grammar, evaluator and tokenizer","gearley-example-grammars/src/ambiguous_math/mod.rs:grammar"),("evaluation",ST+":evaluate")],
  ["parse result","end_earleme result","values from evaluate"])

p("E02","The example grammar for C reads C programs, and the trees are derivations of them",
  "For every list of token names that the page's lexer for C produces (without storage class auto), the bundled example grammar for C, loaded from its text, accepts exactly the programs that the phrase structure of ISO C (C99, annex A.2) derives: a list given at once, as symbols or by name, is told to be complete, the proper beginning of a program, or wrong, and a token given at any point is accepted exactly if some program continues that way. The evaluation of an accepted program, at its end or wherever a beginning of it is complete, has at least one value; each value comes from a derivation under the grammar: every action gets one argument for each symbol of its rule's right side, in order, of that symbol, and the tokens below it are the program's tokens in order with the values they were scanned with; and no derivation is given twice. This is so with either bundled forest, under truthful hints, after any number of tokens that were turned down, after failed actions and forest callbacks, and for any sequence of programs on one recognizer with resets between them.",
  ["inputs","histories","fault_sequences"],
  "every token list, every history of earlier programs, refused tokens and failures on the same recognizer; the grammar has 240 rules and 150 symbols and is ambiguous",
  "the tests read one C program with their own copy of the grammar and look at no tree",
  ["gearley-example-grammars/src/c/grammar.panini","gearley-example-grammars/src/lib.rs",PARSE,REC,DG,ST,CT],
  [("the grammar","gearley-example-grammars/src/c/grammar.panini:translation_unit"),("where it is found","gearley-example-grammars/src/lib.rs:BNFS"),("drivers",PARSE+":parse_terminal_list"),("evaluation",ST+":evaluate")],
  ["parse result","end_earleme result","values from evaluate"])

p("L01","Tracing does not change behaviour, and a failing trace sink is survivable",
  "Switching trace logging on or off, globally or in the middle of a session, changes nothing observable about grammar preparation, recognition, evaluation or the bundled parse calls. If the log sink fails (panics) at any record, the recognizer can be reset and reused and then behaves like a fresh one.",
  ["fault_sequences","configurations","crash_points"],
  "every grammar and input, every placement of enabling, disabling and failing of the sink",
  "tests install a logger but never compare with a run without one, and never let a sink fail",
  [REC,PARSE,DG],[("trace records throughout the session",REC+":trace!"),("records of the bundled calls",PARSE+":trace!"),("records while tables are prepared",DG)],
  ["all observations with and without tracing"])

p("W01","Calls of the browser front end don't mix, and each returns its whole log",
  "Each call of the browser's parse function returns exactly what the same call returns on a freshly loaded page, whatever was called before it: parses that succeeded, grammars that don't load, inputs that aren't tokens or sentences, unknown modes, calls that panicked, log records that something else on the page made. A call is answered by kind: a readable loading error if the grammar text doesn't load, a readable parse error if the input isn't a sentence of the grammar (in the mode's own notion of tokens: words, C tokens, characters), else the log; and log or error come with every record made during that call, in order, none twice, and with no other.",
  ["histories","fault_sequences"],
  "every sequence of calls with every mix of failures, every grammar text and input in each of the three modes",
  "the browser tests parse each bundled example once and look at no result",
  ["gearley-wasm/src/lib.rs","gearley-wasm/src/error_logger.rs","gearley-utils/src/parse.rs","gearley-example-grammars/src/lib.rs","gearley/src/lib.rs"],
  [("global log buffer","gearley-wasm/src/lib.rs:LOG_BUFFER/get_logs"),("installing the logger","gearley-wasm/src/lib.rs:init_logger"),("one call","gearley-wasm/src/lib.rs:parse"),("C tokens","gearley-wasm/src/lib.rs:c_lexer"),("panic hook","gearley-wasm/src/error_logger.rs:hook_impl")],
  ["text returned by each call"])

p("N01","Grammar preparation preserves the language and the rule identities",
  "Preparing any cycle-free grammar (useless rules removed, input wrapped, rules binarized, empty rules eliminated, symbols renumbered) yields tables that accept the same language and attribute every derivation to the original rules.",
  ["inputs"],"every grammar","a few fixed grammars are prepared",[DG],[("preparation pipeline",DG+":from_grammar"),("renumbering",DG+":remap_symbols")])
p("N03","Grammar descriptions load to the grammar they describe",
  "Loading a textual grammar description yields exactly the described rules or an error that points at the first mistake.",
  ["inputs"],"every text","a few fixed descriptions","gearley-load/src/lib.rs gearley-example-grammars/src/lib.rs".split(),[("self-hosted loader","gearley-load/src/lib.rs")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
