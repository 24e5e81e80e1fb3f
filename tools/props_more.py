LRP = "gen/golang/lr1/parser/parser.go"
prop("C08", "Knuth LR(1) generation decides LR(1) and its parsers accept exactly the language",
 "With -knuth gogll generates a parser, without reporting conflicts, if and only if the grammar is LR(1); otherwise it reports the conflicts and exits with an error, and never crashes. The generated parser terminates on every token string and accepts it if and only if it is in the language of the grammar.",
 ["programs", "inputs"], "every productive grammar, every finite token string",
 "The repository has a handful of LR(1) grammars with one input each; wrong lookahead sets only show for grammars in which a context arrives late, on inputs that need that context.",
 ["lr1/knuth/states.go", "lr1/states/state.go", "lr1/first/first.go", "lr1/action/action.go", "lr1/gen.go", LRP],
 [("closure and successor states with contexts", "lr1/states/state.go"), ("action table and conflicts", "lr1/action/action.go"), ("table driven parser", LRP)],
 ["exit code of gogll -knuth and LR1_conflicts.txt", "Parser.Parse of the generated package"], check="lrlang",
 tech="exhaustive small-scope exploration of grammars and inputs against a canonical LR(1) model and CFG derivability",
 note="Every grammar in the bound is classified by running gogll on it and by the model's canonical automaton; every LR(1) one is compiled and run on every string up to a length.")
prop("C09", "Pager LR(1) generation is as powerful as canonical LR(1)",
 "With -pager gogll reports conflicts if and only if the grammar is not LR(1), exactly as canonical LR(1) does: merging states neither introduces nor hides a conflict. The generated parser terminates and accepts exactly the language of the grammar.",
 ["programs", "inputs"], "every productive grammar, every finite token string",
 "Merging of states matters only for grammars whose states share a core with different contexts and for the order in which the states are found; no fixed example covers that.",
 ["lr1/pgm/states.go", "lr1/states/state.go", "lr1/states/configgroupset.go", "lr1/action/action.go", LRP],
 [("weak compatibility, merging of states and propagation of context", "lr1/pgm/states.go")],
 ["exit code of gogll -pager and LR1_conflicts.txt", "Parser.Parse of the generated package"], check="lrlang",
 tech="exhaustive small-scope exploration of grammars and inputs against a canonical LR(1) model and CFG derivability",
 note="Same space as C08, which includes a family built to make states share cores with overlapping contexts.")
prop("C10", "Resolved LR(1) conflicts give a sound parser by fixed precedence",
 "With -resolve_conflicts a grammar that is not LR(1) still yields a parser. The Knuth parser behaves as the canonical automaton in which shift beats reduce and an earlier production beats a later one. Every parse that either machine completes is a derivation of exactly the input: it accepts nothing outside the language.",
 ["programs", "inputs"], "every grammar that is not LR(1), every token string on which the resolved automaton terminates",
 "No test generates a parser from a grammar with conflicts.",
 ["lr1/action/action.go", "lr1/gen.go", LRP],
 [("resolution of pairs of actions", "lr1/action/action.go")],
 ["Parser.Parse and the sequence of calls of action routines"], check="lrresolve",
 tech="exhaustive small-scope exploration against the resolved canonical automaton; reductions replayed as a derivation",
 note="Exact sequence of reductions for Knuth; for Pager, whose merged states may resolve differently, soundness of each completed parse. Inputs on which the model's resolved automaton itself loops (hidden cycles) are skipped and counted.")
prop("C11", "LR(1) parsers call the AST actions of the derivation, once each and in order",
 "Parsing a sentence calls the action routine of every production of its rightmost derivation in reverse order, empty alternates included, then that of the start production, each with the tokens and the values returned for its body, and returns the value of the last. If a routine returns an error the parse ends there with that error and without a result. The generated skeleton has a routine of matching signature for every alternate.",
 ["programs", "inputs", "fault points"], "every LR(1) grammar, every sentence, an error injected at every call",
 "The tests run action routines for a few sentences and never let one fail.",
 [LRP, "gen/golang/lr1/parser/productionstable.go", "gen/golang/lr1/ast/ast.go", "lr1/basicprod/basicprod.go"],
 [("reduce and accept", LRP), ("calls of routines", "gen/golang/lr1/parser/productionstable.go")],
 ["calls of recording action routines", "(result, error) of Parser.Parse"], check="lractions",
 tech="exhaustive small-scope exploration with a fault injected at every action call, against the reductions of the canonical automaton",
 note="The recorder replaces ast/ast.go, the file the user is meant to write; the generated skeleton is type-checked against it. Knuth and Pager.")
prop("C12", "LR(1) parse errors locate the first token that cannot continue the input",
 "When an LR(1) parser rejects an input, its error names the line, column and token after the longest prefix that some sentence starts with, and lists expected tokens that do not include that token. For Knuth parsers the list is exactly the tokens that can follow the prefix.",
 ["programs", "inputs"], "every LR(1) grammar, every token string outside the language",
 "The tests never look at errors of LR(1) parsers.",
 [LRP, "gen/golang/lr1/parser/actionrow.go"],
 [("error on a missing action; expected tokens from the action row", LRP)],
 ["text of the error returned by Parser.Parse"], check="lrerrors",
 tech="exhaustive small-scope exploration against viable prefixes and the lookaheads of the canonical automaton",
 note="Valid prefixes are decided by the CFG model, expected sets by the canonical automaton (exact for Knuth only: merged states may list more).")
LEXT = "gen/golang/lexer/lexer.go"
prop("C06", "The generated lexer splits its input as the lexical rules say",
 "For any set of token rules and string literals that gogll accepts, the generated lexer terminates on every input and produces this token list. White space before a token is skipped. The token is the longest text with which some rule or literal can begin; if that text matches a literal the token has that type, else that of the matching rule whose ID sorts first; if nothing matches it is an Error token that takes in the character that cannot continue it. Tokens of suppressed rules are left out and the end of file token is last.",
 ["programs", "inputs"], "every set of lexical rules, every input",
 "The tests scan a few inputs with five lexers; the subset construction goes wrong only for rules whose brackets nest, repeat or overlap in a particular way, or share a referenced token.",
 ["lex/item/item.go", "lex/item/pos/pos.go", "lex/items/items.go", "lex/items/event/event.go", "ast/build.go", "ast/lex.go", LEXT],
 [("dotted items, empty moves through brackets", "lex/item/item.go"), ("item sets, transitions and accepted token", "lex/items/items.go"), ("scan loop", LEXT)],
 ["lexer.New(...).Tokens of the generated package"], check="lextok",
 tech="exhaustive small-scope exploration of lexical rules and inputs against an NFA model",
 note="All regular expressions up to 5 nodes over two symbols with every kind of bracket and all inputs up to length 6, pairs with a second rule or a literal, triples of overlapping symbols, symbols in loops, and about 70 hand written lexers. The longest viable prefix without backtracking is what the lexer does; the documentation does not promise longest match.")
prop("C07", "Tokens report their exact text and position; Markdown outside code blocks is blank",
 "For every input, each token's extents delimit its text, Literal and LiteralString return that text, LiteralStripEscape returns it with escapes resolved, GetLineColumn of token and lexer give the line and column of its first character (a tab counts four columns), and GetString gives the text from one token through another. Token types, IDs and names map to each other both ways. Reading a .md file gives the tokens, at the same positions, that the file would give if everything outside its ``` blocks were blank; any other file is read as it is.",
 ["programs", "inputs"], "every generated lexer, every input and file",
 "No test looks at lines, columns, escapes or more than one code block.",
 ["gen/golang/token/token.go", LEXT],
 [("token methods", "gen/golang/token/token.go"), ("Markdown to blanks", LEXT)],
 ["methods of token.Token and lexer.Lexer", "lexer.NewFile"], check="lexapi",
 tech="exhaustive small-scope exploration of inputs and files against their definition",
 note="Six lexers and all inputs over 5-6 characters (tab, line ends, backslash, multi-byte) up to length 6-7; all .md files over {backquote, letter, #, accent, tab, newline} up to length 8-10.")
prop("C19", "Lexical symbols match exactly their documented set of characters, also where sets overlap",
 "Every lexical symbol (., character literals, any, not, letter, upcase, lowcase, number, and Unicode sets with inclusions and exclusions) matches exactly the characters that its documentation, or package unicode, gives for it, no matter which other symbols with overlapping sets can occur at the same place in other rules.",
 ["programs", "inputs"], "every lexical symbol and combination of symbols, every Unicode character",
 "The tests try a handful of characters; overlaps between named characters, classes and Unicode sets differ per character.",
 ["lex/items/event/event.go", "ast/lex.go", "ast/build.go", "util/runeset/runeset.go", LEXT],
 [("disjoint transition events", "lex/items/event/event.go"), ("conditions of the generated transitions", LEXT)],
 ["lexer.New(...).Tokens of the generated package"], check="lexsets",
 tech="exhaustive enumeration of all 1,114,112 code points against an NFA model, for each symbol, pair and triple",
 note="Alone: every category and property that gogll accepts. Pairs of 23 and triples of 9 symbols of all kinds, behind which different characters tell which of them matched.")

prop("C18", "Names, literals and characters do not change what generated code does",
 "Consistently renaming nonterminals, token IDs and string literals, to any names the grammar of gogll allows, changes neither the language accepted nor anything else but the names: gogll generates code that compiles, for the GLL and both LR(1) parsers. No name or literal collides with names gogll uses itself or with another symbol, and every character that can be written in a literal, character set or Unicode set is matched as that character.",
 ["programs", "inputs"], "every grammar and every consistent renaming of it, every character in each lexical position",
 "The tests use a few plain ASCII names; collisions of generated identifiers and quoting errors show only for particular names and characters.",
 ["symbols/symbols.go", "gslot/gslot.go", "lr1/basicprod/basicprod.go", "gen/golang/utils/utils.go", "gen/golang/token/token.go", LEXT, "util/runeset/runeset.go", "frstflw/frstflw.go", "lr1/first/first.go"],
 [("IDs of string literals and tokens", "symbols/symbols.go"), ("identifiers of grammar slots", "gslot/gslot.go"), ("IDs of productions", "lr1/basicprod/basicprod.go"), ("quoting", "gen/golang/utils/utils.go")],
 ["go build of the generated code", "Parser.Parse and lexer.New(...).Tokens of the generated packages"], check="names",
 tech="exhaustive small-scope exploration of grammars under renamings from a pool of hostile names against the derivability and NFA models",
 note="Every name of the pools at each position of several base grammars, for GLL, Knuth and Pager; each character up to U+017F in char literals, any and not. Excluded: literals containing white space, names that are not Go identifiers, the error terminal of LR(1) grammars.")

prop("C15", "gogll accepts exactly the language of gogll.md, reads it as written and points at the first wrong token",
 "gogll's own lexer and parser accept a source if and only if it is a sentence of the grammar in gogll.md, without any ambiguity. A source that is rejected is reported at the position (line and column) of the first token that cannot continue it, with expected tokens that do not include that token. For a sentence, the syntax tree holds every rule, alternate, symbol, bracket, character and set of the source, in order, with its position. The tokens are those that the lexical rules of gogll.md give.",
 ["inputs"], "every source text, right or wrong",
 "The tests run gogll on a few grammars, all of them right; a wrong slot, table entry or AST builder case shows only for sources that use it, or that are wrong in a particular way.",
 ["gogll.md", "parser/parser.go", "parser/bsr/bsr.go", "parser/slot/slot.go", "lexer/lexer.go", "token/token.go", "ast/build.go", "ast/lex.go", "ast/ast.go"],
 [("GLL parser of gogll.md, first and follow sets", "parser/parser.go"), ("transition functions and accepted tokens", "lexer/lexer.go"), ("syntax tree from parse forest", "ast/build.go")],
 ["parser.Parse of github.com/goccmack/gogll/v3/parser", "lexer.New and NewFile", "ast.Build"], check="front",
 tech="exhaustive exploration of the viable prefixes of gogll.md, each ended and each continued with every wrong token, against an Earley recogniser and an independent reader; all small texts against an NFA model of the lexical rules",
 note="All 119 terminals up to 6 tokens, eight reduced alphabets up to 8-13 tokens (two more in the thorough tier), error positions exact; lexer: all texts over seven alphabets up to length 4-7, all pairs of literals, every code point in eight templates, all Markdown files over 4 characters up to length 6.")

prop("C20", "Wrong specifications and calls are refused before anything is written, naming the fault and its position",
 "gogll never panics or hangs. A source that is wrong (a syntax error, a duplicate rule, an undefined symbol, a token used before its definition, white space in a literal of a syntax rule, a repeated Unicode range) or a call that is wrong (no, missing or unreadable source file, unknown or contradictory flags) ends with a non-zero exit code and a message that names the fault and, for sources, the line and column where it is, and no file is written. A right source (one that is LR(1), if an LR(1) parser is asked for) is translated with exit code 0, for every combination of flags, into exactly the files that the flags ask for, in the directory asked for, and leaves all other files alone.",
 ["inputs", "histories"], "every source text, every combination of flags",
 "The tests run gogll on right grammars only and never look at exit codes, messages or the files that are written.",
 ["main.go", "cfg/cfg.go", "sc/sc.go", "ast/build.go", "ast/lex.go", "lr1/gen.go"],
 [("command line", "cfg/cfg.go"), ("undefined symbols", "sc/sc.go"), ("duplicate rules, order of token definitions", "ast/build.go")],
 ["exit code, output and files of the gogll command"], check="diag",
 tech="exhaustive exploration of small sources over a pool of rules with faults, of syntax errors after every viable prefix and of all combinations of flags, against an independent model of the faults",
 note="All pairs of 68 rules in two layouts and all triples of 18 (thorough: all triples); token sequences up to length 8-10 ended or continued wrongly; 512 sets of flags. Grammars with unreachable nonterminals may be refused or translated: the documentation does not say.")

prop("C16", "Generating again never loses the user's work and never leaves a stale or torn file unnoticed",
 "Whatever the output directory holds (files of earlier runs with other grammars, parsers or flags, edited, damaged or deleted ones, files of the user), a run of gogll leaves there exactly the files, byte for byte, that it writes into an empty directory, and every other file as it was, except that an existing ast/ast.go is kept unless -a is given and that reports of earlier LR(1) runs may go. It writes nowhere else and its exit code and output do not depend on what was there. If a run is cut short or an operation on a file fails, the exit code is not zero unless everything was written, each file is its old self, the new one or the beginning of the new one (ast/ast.go always a complete one), nothing of the user is lost, and the same run done again gives what it would have given at first.",
 ["histories", "crash points", "fault points"], "every history of runs, edits and failures",
 "The tests generate into directories as they find them, look at neither leftovers nor failures, and never interrupt a run.",
 ["gen/golang/lr1/ast/ast.go", "lr1/gen.go", "gen/golang/lexer/lexer.go", "gen/golang/token/token.go", "gen/golang/gll", "gen/golang/lr1/parser", "cfg/cfg.go"],
 [("ast.go written only if absent", "gen/golang/lr1/ast/ast.go"), ("removal of old reports", "lr1/gen.go")],
 ["files in the output directory, exit code and output of the gogll command"], check="regen",
 tech="explicit-state exploration of the contents of the output directory under runs and edits; at every operation on the file system each kind of failure and crash, injected under the real code",
 note="24 runs (three grammars, GLL, Knuth, Pager, -a, -v, conflicts) and about 20 edits, depth 3 (thorough: 4); every file operation of 8 (thorough: 24) runs from 20-odd (thorough: all to depth 2) states fails, writes half, or ends the process, then the run is repeated. Failures are injected in package os, so that it does not matter how gogll writes. A crash of the operating system is not modelled. That files of another kind of parser stay behind (and may not compile) is not claimed.")

prop("C14", "Nothing gogll or its parsers produce depends on the order in which maps are traversed",
 "Every file gogll writes, its output and its exit code are functions of the source and the flags alone: the order in which Go iterates over maps, which differs from run to run, shows nowhere, for right and wrong sources, with and without -v, for GLL, Knuth and Pager. The result of a generated GLL parser (acceptance, errors with their order and expected tokens, the parse forest, whether it is ambiguous, single-child accessors and the SPPF), and that of a generated LR(1) parser with its error message, is a function of its input in the same sense; only the order in which the alternatives of an ambiguous parse are listed is free.",
 ["schedules", "programs", "inputs"], "every order of every iteration over a map",
 "Go randomises the order of iterations; a run of a test sees one order per loop, and the rare harmful one, in a fixed-point loop or an output loop, passes most of the time.",
 ["lr1/first/first.go", "frstflw/frstflw.go", "lr1/states", "lr1/pgm/states.go", "lex/items", "util/stringset", "gen/firstfollow/firstfollow.go", "gen/golang/gll/parser.go", "gen/golang/gll/bsr/bsr.go"],
 [("fixed points and sorted element lists", "frstflw/frstflw.go"), ("order of popped nodes and descriptors", "gen/golang/gll/parser.go")],
 ["files, output and exit code of the gogll command", "Parser.Parse and package bsr of generated parsers"], check="determ",
 tech="controlled exploration of the orders of iterations over maps: every loop over a map in the real code is rewritten to ask the explorer for its order",
 note="49 sources times flags: one loop, or all, or pairs of loops in 48 orders (all orders of up to four keys or blocks of keys, keys added by the loop visited or not), single iterations of a loop in 3 orders; the same for 58 generated GLL parsers and all short inputs, and for 8 LR(1) parsers. Other sources of nondeterminism (goroutines, time) do not occur in gogll.")

prop("C21", "What a parser prints about a forest is the forest",
 "For every accepted input, ReportAmbiguous ends and lists, for each root, exactly the nonterminal children below it that have several subtrees, with parent, index, position and alternatives; Dump lists exactly the roots and subtrees of the forest, and for every string exactly the text it covers; DotFile writes well-formed dot with exactly the nodes and edges of the SPPF, whatever the literals are.",
 ["programs", "inputs"], "every grammar, every input in its language, every node of the forest",
 "No test looks at these reports; they go wrong only on cyclic, deep or empty parts of a forest or for particular literals.",
 [BSRT, "gen/golang/gll/sppf/sppf.go"],
 [("reports of the forest", BSRT), ("dot output", "gen/golang/gll/sppf/sppf.go")],
 ["bsr.Set.ReportAmbiguous, Dump, BSR.String", "sppf.SymbolNode.DotFile"], check="report",
 tech="exhaustive small-scope exploration of forests, comparing what is printed with the forest and the derivations of the model",
 note="The same families of grammars and inputs as C02. Nodes of the SPPF are identified by their labels.")

prop("C13", "The reports of -v and of LR(1) conflicts describe the parser and lexer truly",
 "With -v, first_follow.txt lists exactly FIRST and FOLLOW of every symbol, symbols.txt every symbol and grammar_slots.txt every slot, once each; lexfsa.txt is a deterministic automaton that ends, for every text, in a state that accepts exactly the tokens and literals that match the text, without useless states. For LR(1) parsers CFG_items.txt lists every item; LR1_states.txt is the canonical automaton (-knuth), or one with the same items and contexts between those needed and those of the canonical states with the same items (-pager), with the transitions and resolved actions that follow from them. LR1_conflicts.txt lists exactly the conflicts, with all their actions, also without -v, and their number is printed.",
 ["programs"], "every grammar and set of lexical rules",
 "No test reads a report; a wrong set, state or conflict shows only for particular grammars.",
 ["frstflw/frstflw.go", "gen/firstfollow/firstfollow.go", "gen/lexfsa/lexfsa.go", "gen/slots/slots.go", "gen/symbols/symbols.go", "lr1/gen.go", "lr1/action/action.go", "lr1/action/conflict.go", "lr1/states/state.go", "lr1/pgm/states.go", "lr1/knuth/states.go", "lex/items/items.go"],
 [("FIRST and FOLLOW", "frstflw/frstflw.go"), ("states and conflicts", "lr1/gen.go"), ("list of conflicts", "lr1/action/conflict.go"), ("lexer automaton", "gen/lexfsa/lexfsa.go")],
 ["files written by the gogll command with -v", "LR1_conflicts.txt"], check="reports",
 tech="exhaustive small-scope exploration of grammars and lexical rules; reported automata are explored state by state against the canonical LR(1) automaton and the NFA model",
 note="All grammars of the GLL and LR(1) families and all lexers of C06. The product of reported and model lexer automaton is explored completely, with one rune of each class that the rules tell apart.")

prop("C17", "Parsers and lexers do not influence each other",
 "What a generated lexer or parser returns depends only on its own input: not on what other lexers and parsers of the same package did before, do at the same time in other goroutines, or do in between; parsing the tokens of a lexer leaves them, and results obtained before, as they were, so that a second parse gives the same. Using several lexers and parsers at the same time has no data race.",
 ["schedules", "histories", "inputs"], "every sequence of parses, every interleaving of two parsers, every input",
 "Tests parse one input after another, once each; nothing looks at state shared between parsers, which shows only for particular pairs of inputs, orders or interleavings.",
 ["gen/golang/gll/parser.go", BSRT, "gen/golang/gll/slots", "gen/golang/lexer/lexer.go", "gen/golang/token/token.go", "gen/golang/lr1/parser/parser.go", "gen/golang/gll/sppf/sppf.go"],
 [("tables shared by all parsers of a package", "gen/golang/gll/slots"), ("state of a parse", "gen/golang/gll/parser.go"), ("stack of an LR(1) parser", "gen/golang/lr1/parser/parser.go")],
 ["lexer.New", "parser.Parse, bsr.Set, sppf", "parser.New(lex).Parse of LR(1) parsers"], check="iso",
 tech="stateless exploration of the generated code under a controlled scheduler: all interleavings of two parsers with a bounded number of preemptions, all short sequences of parses; every execution is also watched by the race detector",
 note="Seven grammars, each as GLL and where possible as Knuth and Pager LR(1) parser, four inputs each (accepted, ambiguous, cyclic, rejected, with suppressed tokens). All sequences of three parses; all pairs of inputs with one preemption before the first two and the last execution of every statement (thorough: every execution); two preemptions at beginnings of functions and loop bodies. The scheduler is invisible to the race detector, so that accesses without synchronisation are reported whichever way they fall. Memory orders weaker than sequential consistency are left to the race detector.")

prop("C22", "Generated parsers and lexers keep to the documented complexity",
 "However long the input is, a generated GLL parser takes at most cubic time and space in the number of tokens, for every grammar, accepted or not, and linear time and space if the grammar is LL(1); so do the query for ambiguity and the construction of the SPPF. A generated LR(1) parser takes linear time and space, and so does every lexer in the number of characters of its input. (Time is the number of statements executed, space the number of bytes allocated.)",
 ["programs", "inputs"], "every grammar, every input of every length",
 "The tests parse short inputs; none counts steps, and a parser that is right but exponential, or an LL grammar that has become quadratic, passes all of them.",
 ["gen/golang/gll/parser.go", BSRT, "gen/golang/lexer/lexer.go", "gen/golang/lr1/parser/parser.go", "gen/golang/token/token.go"],
 [("descriptors are processed once", "gen/golang/gll/parser.go"), ("tables of subtrees", BSRT), ("loop of the scanner", "gen/golang/lexer/lexer.go"), ("loop of the LR(1) parser", "gen/golang/lr1/parser/parser.go")],
 ["lexer.New", "parser.Parse, bsr.Set.IsAmbiguous, ToSPPF", "parser.New(lex).Parse of LR(1) parsers"], check="cost",
 tech="exhaustive small-scope exploration of grammars and pumped inputs y u^k v^k z; every execution of the generated code is instrumented to count statements and allocations, and the exponent of growth is bounded",
 note="All u, v up to two terminals and y, z up to one, with 8 to 32 (if the exponent is high, up to 128) symbols, for 1,300 grammars, 1,087 of them LL(1), Knuth and Pager parsers and 900 lexers; up to 512 symbols for about 100 of them. Exponents above 1.2 (linear) and 3.4 (cubic; 3.1 for long inputs) are violations. Work done inside one statement by the standard library is only seen if it allocates.")
