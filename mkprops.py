#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line). Kept so the statements stay readable in one place."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Every parse tree is a valid derivation of exactly the given input",
 "Every tree yielded when parsing is rooted at the requested start symbol, each node expands its left-hand side by one of that nonterminal's own alternatives term by term (terminal by equal text, nonterminal by a subtree of that name), and the leaves concatenate to exactly the input. This holds for recursive, ambiguous, nullable and multi-byte grammars, and for any start symbol given explicitly.",
 ["inputs"],"all valid grammars x all input strings x all start symbols x every tree yielded",
 "Tests look at the shape of a few trees of a few fixed grammars; a wrong tree needs a particular combination of recursion, ambiguity and spans.",
 ["src/earley/mod.rs","src/earley/traversal.rs","src/earley/input_range.rs","src/grammar.rs"],
 [("parse_tree rebuilds the tree from matched terms","src/earley/mod.rs"),("TraversalTree::match_term advances the span","src/earley/traversal.rs")],
 ["GrammarParser::parse_input","GrammarParser::parse_input_starting_with","ParseTree::rhs_iter"])
p("C02","An input yields a parse tree exactly when the grammar derives it",
 "For a valid grammar and any input, parsing yields at least one tree if and only if the start symbol derives exactly that input. Neither a derivable input is rejected nor an underivable one accepted, whatever the recursion (left, right, mutual, hidden), nullability, overlap of terminals, size of the grammar or length of the input.",
 ["inputs"],"all valid grammars x all strings, members and near-members",
 "The language of a grammar is infinite; tests sample a handful of sentences of well-known grammars.",
 ["src/earley/mod.rs","src/earley/traversal.rs","src/parser/grammar.rs"],
 [("predict/scan/complete loop","src/earley/mod.rs: earley"),("CompletionMap keyed by term and position","src/earley/mod.rs: CompletionMap")],
 ["GrammarParser::parse_input","GrammarParser::parse_input_starting_with"])
p("C03","Parsing yields every derivation exactly once, then ends",
 "When no nonterminal can derive itself alone, iterating the parse of any input yields every distinct derivation of it exactly once (one tree per choice of alternatives and spans, counting equal alternatives separately), in finitely many steps. After the last tree the iterator keeps returning nothing.",
 ["inputs"],"all valid acyclic grammars x all inputs; all derivations of each",
 "Counting derivations needs an independent enumeration; tests count trees for a few ambiguous grammars only.",
 ["src/earley/mod.rs","src/earley/traversal.rs"],
 [("TraversalQueue ignores repetitions","src/earley/mod.rs"),("edges map shares equal traversals","src/earley/traversal.rs")],
 ["GrammarParser::parse_input (collected)"])
p("C04","Infinitely ambiguous inputs yield distinct valid trees lazily",
 "When an input has infinitely many derivations because a nonterminal can derive itself, the parse iterator still delivers its trees one after another without needing to enumerate them all. Every delivered tree is a valid derivation and no tree is delivered twice, and the derivations without a repeated self-derivation are among those delivered.",
 ["inputs"],"valid grammars with unit or nullable cycles x inputs they derive; prefixes of the iteration",
 "Tests contain two or three cyclic grammars and only look at the first tree.",
 ["src/earley/mod.rs","src/earley/traversal.rs"],
 [("lazy ParseTreeIter with FIFO queue","src/earley/mod.rs")],
 ["GrammarParser::parse_input (first k trees)"])
p("C05","A parser gives the same answers whatever else it is used for",
 "A parser built once answers each (input, start symbol) request with the same sequence of trees as a freshly built parser would, however its iterators are interleaved, abandoned half way or repeated. The deprecated Grammar-level entry points give the same sequence too, as does a parser built from an equal grammar.",
 ["histories"],"all interleavings of opening, advancing and dropping parse iterators over several inputs and start symbols, on one parser",
 "Tests reuse a parser sequentially for a couple of inputs; interleavings and abandoned iterators are not covered.",
 ["src/parser/mod.rs","src/earley/mod.rs","src/grammar.rs"],
 [("per-iterator traversal state, shared immutable ParseGrammar","src/earley/mod.rs: ParseTreeIter"),("new / new_unchecked","src/parser/mod.rs")],
 ["GrammarParser::parse_input","GrammarParser::parse_input_starting_with","Grammar::parse_input","Grammar::parse_input_starting_with"])
p("C06","Validation accepts a grammar exactly when every nonterminal is defined",
 "Validating a grammar and building a parser both succeed exactly when the grammar has at least one production and every nonterminal used on a right-hand side has a production; otherwise both return a validation error, which for undefined nonterminals names in angle brackets a nonterminal that is used and undefined. The deprecated parse functions do not validate: there an undefined nonterminal simply derives nothing and the rest of the grammar works as usual.",
 ["inputs"],"all grammars, valid and invalid, parsed or hand-built (including productions without alternatives and terminal left-hand sides)",
 "Tests check a few fixed invalid grammars; the two validation paths are separate code that can drift apart on shapes they do not use.",
 ["src/validation.rs","src/parser/grammar.rs","src/grammar.rs"],
 [("NonterminalSets","src/validation.rs"),("ParseGrammar::new","src/parser/grammar.rs"),("Grammar::validate","src/grammar.rs")],
 ["Grammar::validate","Grammar::build_parser","Grammar::parse_input"])
p("C07","Reading BNF text recovers exactly the written grammar in any layout",
 "Reading BNF text yields exactly the productions, alternatives and terms written, in the written order, with names and quoted text verbatim. Layout carries no meaning: any whitespace (including Unicode and line breaks), comments between tokens, either quote style and productions sharing or spanning lines give the same grammar, and the same goes for reading a single term, expression or production.",
 ["inputs"],"all plain grammars x all layouts (whitespace, comments, quote style, line structure)",
 "Tests use a few fixed layouts; the reader has two separate code paths and its own whitespace/comment logic.",
 ["src/parsers/mod.rs","src/parsers/bnf.rs","src/parsers/nom_xt.rs","src/term.rs","src/expression.rs","src/production.rs"],
 [("whitespace_plus_comments","src/parsers/mod.rs"),("plain and extended reading paths","src/parsers/mod.rs: grammar_complete"),("xt_list_with_separator","src/parsers/nom_xt.rs")],
 ["str::parse for Term, Expression, Production, Grammar","Grammar::parse_from::<BNF>"])
p("C08","Any text is read as its meaning or rejected with a parse error",
 "For any text whatsoever, reading a grammar, production, expression or term returns: either the value the text denotes or a parse error, never a panic, an endless loop or a partial result. Text that is not well formed as a whole (unterminated quote or name, missing or dangling separator, empty alternative, unbalanced or empty group, trailing garbage) is rejected.",
 ["inputs"],"all strings (random text, token soup, mutated and truncated valid grammars), for BNF and ABNF reading",
 "Tests list a few malformed strings; the set of malformed texts is unbounded and the backtracking reader can silently accept or drop pieces.",
 ["src/parsers/mod.rs","src/parsers/augmented.rs","src/parsers/bnf.rs","src/parsers/nom_xt.rs","src/error.rs"],
 [("all_consuming and end-of-production lookahead","src/parsers/mod.rs"),("Error::from nom errors","src/error.rs")],
 ["str::parse for all four types","Grammar::parse_from::<BNF>","Grammar::parse_from::<ABNF>"])
p("C09","Groups and optionals mean what they say and never capture names",
 "Text using ( ) groups and [ ] optionals, nested to any depth and in BNF or ABNF, is read as a plain grammar deriving exactly the strings the extended text denotes, with the written productions kept in order (the first stays the start). The nonterminals added for groups are named afresh, different from every nonterminal defined or referred to in the text.",
 ["inputs"],"all extended grammars (nesting, several groups per rule, user names resembling generated ones) x all inputs",
 "Tests try a few single-level groups and inputs; name clashes and nesting combinations are unbounded.",
 ["src/parsers/mod.rs"],
 [("normalize_parsed_grammar, fresh_anon_name","src/parsers/mod.rs"),("grammar_has_extended_syntax chooses the path","src/parsers/mod.rs")],
 ["Grammar::from_str","Grammar::parse_from","GrammarParser::parse_input"])
p("C10","The same grammar written in ABNF and in BNF reads as the same value",
 "A grammar written in ABNF notation (bare names, =, /, and =/ for incremental alternatives) reads as the same value as its BNF spelling, and text is recognised as BNF or ABNF from its first significant character, so plain parsing agrees with reading in the explicit format. Incremental alternatives extend the language of the rule they continue.",
 ["inputs"],"all grammars expressible in both notations x layouts",
 "Tests convert a few fixed ABNF snippets.",
 ["src/parsers/augmented.rs","src/parsers/mod.rs","src/grammar.rs"],
 [("is_format_standard_bnf autodetection","src/parsers/mod.rs"),("Format for ABNF","src/parsers/augmented.rs"),("opt(alternative_separator) after the production separator","src/parsers/mod.rs")],
 ["Grammar::from_str","Grammar::parse_from::<ABNF>"])
p("C11","Printing a grammar and reading it back gives the same grammar",
 "For every term, expression, production and grammar whose names contain no '>' and whose terminals do not contain both quote characters, the printed text reads back as an equal value. In particular every grammar obtained by reading BNF text, including one with groups and optionals, survives print and read unchanged.",
 ["inputs"],"all printable terms, expressions, productions and grammars",
 "Tests round-trip random grammars over a tame alphabet with quickcheck; special characters, quotes, comment and bracket characters inside names and terminals are not explored.",
 ["src/term.rs","src/expression.rs","src/production.rs","src/grammar.rs","src/parsers/mod.rs"],
 [("Display implementations","src/term.rs, src/expression.rs, src/production.rs, src/grammar.rs")],
 ["Display and FromStr of all four types"])
p("C12","Every generated sentence belongs to the grammar's language",
 "A sentence produced by any generation entry point with any of the strategies is derivable from the start symbol of the grammar (its first production), and parsing it with the same grammar succeeds. A nonterminal without a production is printed as its name in angle brackets.",
 ["inputs"],"all grammars x all seeds x all strategies x entry points",
 "Tests generate a few sentences from a few grammars and rarely check membership.",
 ["src/grammar.rs","src/generation.rs"],
 [("traverse_with_strategy","src/grammar.rs"),("GenerationStrategy implementations","src/generation.rs")],
 ["Grammar::generate*","GrammarParser::parse_input"])
p("C13","Generation succeeds when it can and errors instead of running forever",
 "If every nonterminal reachable from the start can be expanded to finite text, generation returns a sentence. If the grammar is empty, its start cannot reach a terminal state, or the expansion enters a rule that can never finish, generation returns a generation error: it never recurses or loops endlessly on a rule that cannot terminate. A rule without alternatives, or whose only alternative has no terms, cannot be expanded in this sense; a nonterminal without any production expands to its name in angle brackets, but a start that can only finish through such nonterminals does not reach a terminal state.",
 ["inputs"],"all grammars (productive, unproductive, partly unproductive, duplicated rules) x seeds x strategies",
 "Tests cover a few unproductive grammars; termination needs a fixpoint over arbitrary rule graphs.",
 ["src/grammar.rs","src/production.rs","src/expression.rs"],
 [("terminates()","src/grammar.rs"),("has_terminating_expression","src/production.rs")],
 ["Grammar::generate_seeded","Grammar::generate_seeded_with_strategy","Grammar::generate_callback"])
p("C14","Seeded generation is reproducible and entry points agree",
 "Generation is a function of the grammar's value and the random state: equal seeds give equal results for equal grammars (cloned, re-read from text or deserialised), for every strategy and for whole sequences of calls. The variants without a callback behave as the callback variants with an always-true callback, and the strategy-less variants as the uniform random strategy.",
 ["inputs","histories"],"all grammars x seeds x sequences of calls x entry points",
 "Tests check one seed of one grammar.",
 ["src/grammar.rs","src/generation.rs"],
 [("seed drawn from the caller's rng","src/grammar.rs: generate_seeded"),("from_seed constructors","src/generation.rs")],
 ["Grammar::generate_seeded","Grammar::generate_seeded_callback","Grammar::generate_seeded_with_strategy","Grammar::generate_seeded_callback_with_strategy"])
p("C15","Generation follows the strategy's choices and the callback's verdicts",
 "With any user-supplied strategy, generation asks it for each nonterminal as it is expanded left to right, passing that nonterminal's production and its depth (start at 0, one more per nesting), and the sentence is exactly the expansion of the chosen alternatives. The callback sees every finished nonterminal with its name and text; on a false verdict just that nonterminal is expanded anew, and if the strategy declines generation returns an error.",
 ["inputs","histories"],"all grammars x all scripted strategies (including declining) x all callback verdict sequences",
 "Tests use built-in strategies and one or two callbacks; the call protocol is not checked.",
 ["src/grammar.rs","src/generation.rs"],
 [("traverse_with_strategy / eval_terminal_with_strategy","src/grammar.rs")],
 ["Grammar::generate_seeded_callback_with_strategy with a custom GenerationStrategy"])
p("C16","Depth-bounded generation stops expanding at the bound",
 "The depth-bounded strategy always picks one of the production's alternatives; at or beyond its maximum depth it picks one made only of terminals whenever the production has one. Hence, in a grammar where every rule has a terminal-only alternative, no nonterminal is expanded deeper than the bound; below the bound every alternative can be picked, also as first choice of strategies made without a seed.",
 ["inputs"],"all productions/grammars x bounds x depths x seeds",
 "Tests use one or two grammars and bounds.",
 ["src/generation.rs"],[("fill_eligible_and_choose_index","src/generation.rs")],
 ["DepthBounded::choose","Grammar::generate_seeded_with_strategy"])
p("C17","Coverage-guided generation tries every alternative before repeating",
 "For each production it is asked about, the coverage-guided strategy picks alternatives not picked before as long as there are any, so the first k visits to a production with k alternatives pick all k. This holds across interleaved productions and across generation calls sharing the strategy, and afterwards it keeps picking valid alternatives.",
 ["inputs","histories"],"all grammars and interleavings of visits x seeds",
 "Tests cover one small grammar.",
 ["src/generation.rs"],[("fill_uncovered_and_choose_index","src/generation.rs")],
 ["CoverageGuided::choose","Grammar::generate_seeded_with_strategy"])
p("C18","Random and weighted strategies choose with the promised probabilities",
 "The uniform strategy picks each alternative with equal probability, also as first choice of instances made without a seed. The weighted strategy picks each alternative with probability proportional to its weight, recursive weight if the alternative mentions the production's own nonterminal and the other weight if not; zero-weight alternatives are never picked unless all weights are zero, when the choice is uniform, and weights of any size are usable.",
 ["inputs"],"all productions x all weight pairs x seeds",
 "Tests assert a few outcomes of fixed seeds; distributions and extreme weights are not examined.",
 ["src/generation.rs"],[("weighted_random_index, fill_weights","src/generation.rs"),("random_index","src/generation.rs")],
 ["RandomWalk::choose","Weighted::choose"])
p("C19","Printing a parse tree shows exactly its nodes and structure",
 "A printed parse tree has one line per node in preorder: a nonterminal as its name, ::= and its children, a terminal in double quotes, each behind branch glyphs that show its depth, whether it is a last child and which ancestors have further children. This holds for trees of any depth and width, and for trees edited in place.",
 ["inputs"],"all trees of all grammars and inputs, and in-place edits of them",
 "Tests snapshot a few trees; the glyph logic keeps mutable column state along the recursion.",
 ["src/grammar.rs"],[("ParseTree::fmt, fmt_node_prefix, depth_format_set","src/grammar.rs")],
 ["ParseTree Display","ParseTree::rhs_iter_mut"])
p("C20","Mermaid output draws exactly the parse tree, labels escaped reversibly",
 "The Mermaid form of a tree is a flowchart with one edge per parent-child pair in preorder, nodes numbered in preorder from 0 with the same label at every mention, so the tree can be rebuilt from it. Labels are escaped so that quotes, ampersands, angle and square brackets, backslashes, hashes, semicolons and line breaks never appear raw, all other characters appear unchanged, and decoding the entity codes gives back the label.",
 ["inputs"],"all trees; all label strings",
 "Tests snapshot one tree and a few labels.",
 ["src/grammar.rs"],[("MermaidParseTree::fmt","src/grammar.rs"),("escape_mermaid_label","src/grammar.rs")],
 ["ParseTree::mermaid","escape_mermaid_label"])
p("C21","Building and editing grammars behaves like editing nested lists",
 "Adding appends, removing takes out and returns the first equal element (or returns nothing and changes nothing), iteration reflects the current content in order, and mutable iteration edits in place, for expressions, productions and grammars over any history of edits; removing a production never disturbs the others' content or, unless it was the first, the start rule. The + operators build the expression made of both operands' terms without changing the operands, and values are equal exactly when their content is.",
 ["histories"],"all sequences of add/remove/iterate/mutate/concatenate operations",
 "Tests make one edit at a time on fixed values.",
 ["src/expression.rs","src/production.rs","src/grammar.rs","src/term.rs"],
 [("add_term/remove_term, add_to_rhs/remove_from_rhs, add_production/remove_production, ops::Add","src/expression.rs, src/production.rs, src/grammar.rs, src/term.rs")],
 ["public editing API of Term, Expression, Production, Grammar"])
p("C22","Serialising and deserialising preserves every value exactly",
 "With serde support, any term, expression, production or grammar, whatever characters or degenerate shape it has, serialises and deserialises to an equal value, whose printed text and parses are the same as the original's.",
 ["inputs"],"all values, including unprintable ones (empty expressions, both quote kinds, control characters)",
 "Tests round-trip one grammar.",
 ["src/term.rs","src/expression.rs","src/production.rs","src/grammar.rs"],
 [("derived Serialize/Deserialize","src/term.rs, src/expression.rs, src/production.rs, src/grammar.rs")],
 ["serde_json round trip"])
p("C23","The macros build the same values as the text they mirror",
 "term!, expression!, production! and grammar! build the same value, with the same order of productions, alternatives and terms, as reading the equivalent BNF text. An alternative left empty in the macros is an alternative without terms.",
 ["programs"],"all macro invocations over identifiers and string literals",
 "Macro expansion happens at compile time; tests contain a few fixed invocations whose order mistakes went unnoticed.",
 ["src/term.rs","src/expression.rs","src/production.rs","src/grammar.rs"],
 [("token-munching macro_rules","src/production.rs, src/grammar.rs, src/expression.rs, src/term.rs")],
 ["compiled programs using the macros"])
p("C24","Cargo features and build profiles never change results",
 "Reading, printing, validating, parsing, seeded generating and rendering give identical results with and without the ABNF (for BNF text), serde, tracing and unstable features, and in debug and optimised builds. Optional features add capabilities only.",
 ["configurations","inputs"],"feature combinations x build profiles x grammars and inputs",
 "The test suite runs in a single configuration.",
 ["Cargo.toml","src/tracing.rs","src/grammar.rs","src/lib.rs"],
 [("cfg(feature) variants of FromStr, serde derives and tracing macros","src/grammar.rs, src/tracing.rs")],
 ["digest programs built per configuration"])
p("C25","Grammars in a user-defined notation read as in the built-in ones",
 "For a user-defined format (its own name delimiters or none, production separator and alternative separator), text written in that notation, with groups, optionals and any layout, reads as the same value as the BNF spelling of the grammar, and malformed text is rejected with a parse error.",
 ["inputs","configurations"],"a family of user formats x all grammars x layouts",
 "Tests only use the two built-in formats.",
 ["src/parsers/mod.rs"],[("generic readers over Format","src/parsers/mod.rs")],
 ["Grammar::parse_from::<F>"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
