import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
I=["inputs"]; H=["inputs","histories"]; C=["inputs","configurations"]
p("G01","Symbols are fresh, dense and keep their names",
 "Every symbol a symbol source generates is different from all symbols generated before it: the n-th generated symbol has index n-1, the source counts exactly the symbols generated and not truncated away, and it panics (with debug assertions on) rather than handing out a symbol twice when its symbol space is used up. A symbol keeps the name given at its creation, whatever is generated later; a symbol without a name is displayed by a name built from its index. Converting a symbol to its index or its serialized form and back yields the same symbol.",
 H,"every sequence of generation, naming, truncation and cloning operations, and every symbol value of every width (8, 16 and 32 bits)",
 "Tests generate a handful of symbols in one order and never reach the end of the symbol space, truncate, or go through each width.",
 ["cfg-symbol/src/symbol.rs","cfg-symbol/src/source.rs"],
 [("Symbolic implementations and NonZero representation","cfg-symbol/src/symbol.rs"),("SymbolSource::next_sym, sym, with_names, generate, truncate, name_of, name_map","cfg-symbol/src/source.rs")],
 ["SymbolSource public API","serialization of Symbol"])
p("G02","Symbol sets contain exactly the symbols they are defined to contain",
 "For every grammar, the set of terminals holds exactly the symbols that are no rule's left-hand side, the set of nulling symbols exactly the left-hand sides of empty rules, the sets of used and unused symbols exactly the symbols occurring, or not occurring, in rules. Set operations (membership, assignment, union, negation, iteration, the all and empty tests, resizing) agree with mathematical sets of symbols.",
 I,"every grammar and every sequence of set operations on sets over its symbols",
 "Tests use the sets indirectly on a few fixed grammars; most operations have no test.",
 ["cfg-grammar/src/symbol_bit_set.rs"],
 [("SymbolBitSet::terminal/nulling/productive/used/unused/subtract_productive","cfg-grammar/src/symbol_bit_set.rs"),("SymbolBitSet::set/iter/union/negate/all/is_empty/reserve","cfg-grammar/src/symbol_bit_set.rs")],
 ["SymbolBitSet public API"])
p("G03","Property closure over right-hand sides is the least fixpoint",
 "Closing a set of symbols over a grammar, in the 'all' or the 'any' mode, yields exactly the smallest set that includes the given symbols and includes the left-hand side of each rule with a non-empty right-hand side of which all, respectively any, symbols are in the set. The closure always terminates, leaves the grammar unchanged, and gives the same result when repeated.",
 I,"every grammar, every initial set, both modes, every order of rules",
 "Tests see the closure through a few grammars; order of rules, cycles and repeated symbols vary without bound.",
 ["cfg-grammar/src/cfg.rs","cfg-grammar/src/occurence_map.rs"],
 [("Cfg::rhs_closure worklist","cfg-grammar/src/cfg.rs"),("OccurenceMap::from_rules, get","cfg-grammar/src/occurence_map.rs")],
 ["Cfg::rhs_closure, rhs_closure_for_all, rhs_closure_for_any"])
p("G04","Closure with values computes minimal sums",
 "Closing a table of optional symbol values over a grammar gives every symbol that can be built, through rules with non-empty right-hand sides, from initially valued symbols the smallest total value of any such way of building it (or its initial value if that is smaller), and leaves all other symbols without a value. The computation always terminates, also with zero values and cyclic rules.",
 I,"every grammar, every initial table whose minimal sums fit in the value type",
 "The only test goes through minimal distances on one grammar; ties, cycles, zero weights and rule order are not sampled.",
 ["cfg-grammar/src/cfg.rs","cfg-grammar/src/occurence_map.rs"],
 [("Cfg::rhs_closure_with_values worklist","cfg-grammar/src/cfg.rs"),("OccurenceMap","cfg-grammar/src/occurence_map.rs")],
 ["Cfg::rhs_closure_with_values"])
p("G05","Limiting right-hand side length preserves the language",
 "After limiting right-hand sides to at most k symbols (k at least 2), every rule has at most k symbols, later additions included, and every symbol that existed before derives exactly the strings it derived before. Rules are split through symbols that are new and used for that one rule only, a rule within the limit is kept as it is, and adding a rule returns the number of rules it became. Repeating the operation changes nothing.",
 H,"every grammar, every limit of at least 2 or no limit, every later sequence of rule additions",
 "Tests binarize a few grammars and compare with expected rules; other limits, repeated limits and later additions are not covered, and language equality is never checked.",
 ["cfg-grammar/src/cfg.rs","cfg-grammar/src/rule_builder.rs"],
 [("Cfg::limit_rhs_len, add_rule, rule_rhs_len_allowed_range","cfg-grammar/src/cfg.rs"),("RuleBuilder::rhs","cfg-grammar/src/rule_builder.rs")],
 ["Cfg::add_rule, limit_rhs_len, rule, rules"])
p("G06","Nulling elimination keeps the language except the empty string",
 "After binarization with nulling elimination no rule is empty or longer than two symbols, and every symbol that existed before derives exactly the non-empty strings over the original terminals that it derived before. The grammar returned besides holds the nulling part: in it a symbol derives the empty string exactly if it did in the original grammar. Doing it again finds nothing more to eliminate.",
 I,"every grammar",
 "Tests compare the rule list for two grammars; interplay of nullable, nulling and unproductive symbols is not sampled and the language is never compared.",
 ["cfg-grammar/src/cfg.rs"],
 [("Cfg::binarize_and_eliminate_nulling_rules","cfg-grammar/src/cfg.rs"),("BinarizedRhsRange","cfg-history/src/lib.rs")],
 ["Cfg::binarize_and_eliminate_nulling_rules"])
p("G07","Sequence rules derive exactly the counted, separated repetitions",
 "Rewriting a sequence of an item with minimum m, maximum n (or unbounded) and a separator policy makes its left-hand side derive exactly the repetitions of the item with a count between m and n, separated as the policy says: none, proper (between items only), trailing (after each item) or liberal (either; zero repetitions derive the empty string). The rewrite terminates for every range whose start does not exceed its end, adds rules only for the left-hand side and new symbols, and uses a number of rules logarithmic in the bounds.",
 C,"every range over 32-bit bounds with start not above end, every separator policy, any number of sequences rewritten into one grammar",
 "Tests check a few small ranges by comparing rule lists; large bounds and combinations of range and separator are infinite.",
 ["cfg-sequence/src/rewrite.rs","cfg-sequence/src/lib.rs","cfg-sequence/src/builder.rs"],
 [("SequencesToProductions::rewrite/reduce/recurse","cfg-sequence/src/rewrite.rs"),("Separator::prefix_separator, Sequence::range/inclusive","cfg-sequence/src/lib.rs"),("SequenceRuleBuilder","cfg-sequence/src/builder.rs")],
 ["SequencesToProductions::rewrite, Cfg::sequence"])
p("G08","FIRST and LAST sets are exact",
 "For every grammar, the FIRST set of a nonterminal contains exactly the terminals reachable as a first symbol under its rules, where leading nullable symbols may be skipped, and reports emptiness exactly for nullable symbols; the same holds for the FIRST set of any string of symbols. LAST sets are the mirror image. The computation leaves the grammar unchanged and terminates.",
 I,"every grammar and every string of its symbols",
 "Tests compute the sets for two or three grammars.",
 ["cfg-predict-sets/src/first.rs","cfg-predict-sets/src/last.rs","cfg-predict-sets/src/sets.rs"],
 [("FirstSets::new/collect_from/process_rule/first_set_collect/first_set_for_string","cfg-predict-sets/src/first.rs"),("LastSets::new","cfg-predict-sets/src/last.rs")],
 ["CfgSetsExt::first_sets, last_sets; FirstSets::first_set_for_string"])
p("G09","FOLLOW sets are exact, including the end of input",
 "For every grammar and every nonterminal, the FOLLOW set contains exactly the terminals that can come right after the nonterminal by the rules of the grammar, and reports the end of input exactly for roots and for nonterminals at a nullable tail of a rule whose left-hand side can be followed by the end of input. The computation terminates.",
 I,"every grammar and choice of roots",
 "Tests compute the sets for one or two grammars and never look at the end of input.",
 ["cfg-predict-sets/src/follow.rs"],
 [("FollowSets::new fixpoint","cfg-predict-sets/src/follow.rs")],
 ["CfgSetsExt::follow_sets_with_first, PredictSets::predict_sets"])
p("G10","LL(1) classification agrees with the parse-table definition",
 "A nonterminal with at least one table entry is classified as LL(1) exactly if no terminal selects two of its rules, and the same holds for every nonterminal reachable through its rules; a rule is selected by the terminals of its right-hand side's FIRST set and, if that is nullable, of the nonterminal's FOLLOW set.",
 I,"every grammar",
 "One test classifies one grammar.",
 ["cfg-classify/src/ll.rs"],
 [("LlParseTable::new, classify","cfg-classify/src/ll.rs")],
 ["LlParseTable, LlClassification::classes"])
p("G11","Usefulness analysis is exact and pruning preserves the language",
 "A symbol is reported productive exactly if it derives some terminal string, reachable exactly if it occurs in a derivation from a root (symbols in no rule count as reachable), and a rule useful exactly if its left-hand side is reachable and all symbols on its right-hand side are productive. Removing useless rules keeps exactly the useful ones and leaves the strings of original terminals that each root derives unchanged; the grammar is reported all-useful or all-productive exactly when nothing is useless or unproductive.",
 I,"every grammar and choice of roots",
 "Tests prune two small grammars.",
 ["cfg-classify/src/useful.rs","cfg-classify/src/lib.rs"],
 [("Usefulness::new/all_useful/all_productive/useless_rules/remove_useless_rules","cfg-classify/src/useful.rs"),("CfgClassifyExt::make_proper","cfg-classify/src/lib.rs")],
 ["CfgClassifyExt::usefulness, make_proper"])
p("G12","Cycle detection is exact and cycle rewriting preserves the language",
 "A grammar is reported cycle-free exactly if no symbol derives itself in one or more steps of single-symbol rules between different symbols, and a single-symbol rule is reported cyclical exactly if its right-hand symbol derives its left-hand side by such steps. Removing cycles removes exactly the cyclical rules; rewriting cycles yields a cycle-free grammar in which each root, and each symbol not merged with another, derives the same terminal strings as before.",
 I,"every grammar and choice of roots",
 "Tests rewrite one or two grammars with a single cycle.",
 ["cfg-classify/src/cyclical.rs"],
 [("Cycles::cycle_free/classify/cycle_participants/remove_cycles/rewrite_cycles","cfg-classify/src/cyclical.rs"),("UnitDerivationMatrix","cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs")],
 ["CfgClassifyExt::cycles, cycles_mut"])
p("G13","Reachability relations and recursion kinds are exact",
 "Two symbols are directly related exactly if the second occurs in a rule of the first, related by reachability exactly if connected by one or more direct steps (or equal, for the reflexive relation), and by unit derivation exactly if connected by one or more single-symbol rules between different symbols. A rule is reported recursive exactly if a symbol on its right-hand side reaches its left-hand side, as left, right or middle recursion depending on whether such a symbol is first, last or in between.",
 I,"every grammar",
 "Tests query a few entries on a few grammars.",
 ["cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs","cfg-classify/src/recursive.rs"],
 [("ReachabilityMatrix, UnitDerivationMatrix, DirectDerivationMatrix constructors","cfg-symbol-bit-matrix/src/symbol_bit_matrix.rs"),("RecursiveRules","cfg-classify/src/recursive.rs")],
 ["CfgSymbolBitMatrixExt, CfgClassifyExt::recursion"])
p("G14","Symbol remapping renames consistently and loses nothing",
 "Reordering symbols, or removing unused ones, renames all occurrences in rules, roots and wrapped roots by one injective renaming, under which names follow their symbols and no rule is lost, added or changed otherwise; the new numbering follows the given order. After removal exactly the symbols occurring in rules remain, densely numbered. The mapping returned, composed over all steps, translates the old symbols to the new ones and back.",
 H,"every grammar, every order on symbols, every sequence of remappings",
 "Tests remap one or two grammars.",
 ["cfg-symbol-bit-matrix/src/remap_symbols.rs"],
 [("Remap::reorder_symbols, remove_unused_symbols, remap_symbols, Mapping","cfg-symbol-bit-matrix/src/remap_symbols.rs")],
 ["CfgRemapSymbolsExt","Remap, Mapping"])
p("G15","Precedenced rules are exactly the standard precedence stratification",
 "Rules built with the precedence builder have one new symbol per precedence level, each looser level deriving the next tighter one and the symbol itself deriving the loosest. In an alternative, the leftmost (left associativity, the default) or rightmost (right associativity) occurrence of the symbol stands for the same level and its other occurrences for the next tighter level, or the same one at the tightest level; with group associativity all occurrences stand for the loosest level. All other symbols are kept, and nothing else is added to the grammar.",
 I,"every list of precedence levels with every list of alternatives and associativities",
 "Tests build one operator table.",
 ["cfg-grammar/src/precedenced_rule.rs"],
 [("PrecedencedRuleBuilder::finalize, ScopedPrecedencedRuleBuilder","cfg-grammar/src/precedenced_rule.rs")],
 ["Cfg::precedenced_rule"])
p("G16","Wrapping the input wraps each root exactly once",
 "Wrapping gives every root its own three new symbols, adds exactly one rule from a new root to start-of-input, the old root and end-of-input, makes the new symbols the roots in the same order, and records the quadruples in that order; all other rules are unchanged. The wrapped grammar counts as empty exactly when it has no rules besides those of its roots.",
 H,"every grammar, every list of roots, repeated wrapping",
 "Tests wrap one grammar with one root.",
 ["cfg-grammar/src/cfg.rs"],
 [("Cfg::wrap_input, wrapped_roots, is_empty","cfg-grammar/src/cfg.rs")],
 ["Cfg::wrap_input, wrapped_roots, roots, is_empty"])
p("G17","Rule histories keep the origin and original dot positions",
 "Through binarization exactly one of the rules a rule is split into carries the origin of the original rule, and every dot of the binarized rules that corresponds to a dot of the original rule is traced to that rule and position, the others to nothing. Nulling elimination records which symbol on which side was eliminated and keeps the origin; weights and sequence details attach without disturbing the rest.",
 H,"every history value, every chain of history updates, every rule length",
 "Tests compare the histories of two binarized grammars for equality of some fields only.",
 ["cfg-history/src/earley/mod.rs","cfg-history/src/earley/rule_dot.rs","cfg-history/src/lib.rs","cfg-grammar/src/cfg.rs"],
 [("History::binarize, eliminate_nulling, process_linked, dot","cfg-history/src/earley/mod.rs"),("Cfg::add_rule history assignment","cfg-grammar/src/cfg.rs")],
 ["CfgRule::history, Cfg::column"])
p("G18","Random generation yields sentences of the grammar",
 "Without negative rules and for any source of randomness, a successfully generated string consists of terminals, is derivable from the start symbol, and is no longer than the limit; a string that would exceed the limit is reported as a failure, and no other is. The characters returned are those the caller's function gives for the terminals, in order. Each alternative of a symbol is chosen for a share of the random draws that is its share of the total weight.",
 I,"every grammar, every start symbol, every limit, every sequence of random draws",
 "Tests draw a few samples with fixed seeds and check lengths only.",
 ["cfg-generate/src/weighted/random.rs","cfg-generate/src/weighted/weighted_rhs_by_lhs.rs"],
 [("Random::random","cfg-generate/src/weighted/random.rs"),("WeightedRhsByLhs::pick_rhs","cfg-generate/src/weighted/weighted_rhs_by_lhs.rs")],
 ["Random::random and friends"])
p("G19","Minimal distances are sound and locally consistent",
 "For every grammar whose symbols are all productive, a reported distance from a rule position to the nearest requested position is never below the true shortest number of terminals between them and never above the shortest one within the same rule. In a single direction, a position's distance never exceeds that of the next position plus the shortest derivation of the symbol between them, and the end of a rule is at most as far as the position after each occurrence of its left-hand side.",
 C,"every grammar with productive symbols, every set of target positions, each direction",
 "One example, in the forward direction only, is tested.",
 ["cfg-predict-distance/src/lib.rs"],
 [("MinimalDistance::minimal_distances","cfg-predict-distance/src/lib.rs"),("Cfg::rhs_closure_with_values","cfg-grammar/src/cfg.rs")],
 ["MinimalDistance::minimal_distances, distances"])
p("G20","Rule list operations change exactly what they say",
 "Reversing mirrors each right-hand side and nothing else, and doing it twice restores the grammar; sorting permutes the rules into order by left-hand side and right-hand side; deduplication removes exactly the rules equal to their predecessor; retaining keeps exactly the accepted rules in order; extending appends the other grammar's rules. Comparison for equivalence holds exactly for equal rule lists, and each column lists, for every rule in order, the symbols before and after that dot position.",
 H,"every grammar, every sequence of these operations",
 "Tests use these operations as preparation on fixed grammars and never check them in general.",
 ["cfg-grammar/src/cfg.rs","cfg-grammar/src/compare.rs"],
 [("Cfg::reverse, sort, sort_by, dedup, retain, extend, clear_rules, column","cfg-grammar/src/cfg.rs"),("Cfg::equivalent","cfg-grammar/src/compare.rs")],
 ["Cfg public API"])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
