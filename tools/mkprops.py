"""Writes /verif/properties.jsonl (single source for ids, titles, statements)."""
import json, pathlib
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b) for a,b in state],mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d["anchors"]["observe_at"]=list(observe)
    P.append(d)

p("C01","Lookups of a match list agree with its content after any mutations",
  "After any sequence of insertions, appends, extensions, replacements (by index or slice), deletions, pops, removals, reversals and clears on a collection of matches, the lookups by name, tag, start, end and index, and the lists of names and tags, return exactly the matches currently in the collection that satisfy the criterion, in collection order and each once. Lookups already used before a mutation are no exception, several names are answered in the order asked, and predicate and index arguments filter and select from that exact list. Each lookup hands back a list of its own: changing it changes neither the collection nor later lookups.",
  ["histories","inputs"],"every finite history of public mutations and lookups, over every collection of matches (names, tags, spans), for matches whose attributes are not changed while they are in the collection",
  "Tests run a few fixed add/remove sequences; the caches are built lazily, so each (cache built or not) x (mutation) x (lookup) combination and every content matters.",
  ["rebulk/match.py","rebulk/loose.py"],
  [("lazy lookup dictionaries","rebulk/match.py:_BaseMatches._name_dict/_tag_dict/_start_dict/_end_dict/_index_dict"),("incremental upkeep","rebulk/match.py:_BaseMatches._add_match, _reset_lookups, insert, __setitem__, __delitem__, remove"),("selection","rebulk/loose.py:filter_index")],
  [("delegate list","the matches in order"),("lookup dictionaries","None, or for every key the matches having that key, in order")],["Matches.named","Matches.tagged","Matches.starting","Matches.ending","Matches.at_index","Matches.names","Matches.tags"])

p("C02","Positional queries return exactly the matches they describe",
  "For any collection of matches: a range query returns, sorted by position, exactly the matches that overlap the given range (clipped to the end of the text or of the last match); a conflict query returns every match sharing at least one index with the given match other than the given match itself, each once; a span query returns exactly the matches covering the first or the last index of the span. The previous query returns the matches with the greatest end not after the start of the given match, and the next query those with the smallest start strictly after it; both are empty when there are none.",
  ["inputs","histories"],"every collection content (any number of overlapping, nested, duplicate or zero-length matches), any query argument, any earlier history",
  "Tests query a handful of hand-made layouts; overlap boundaries and scans over positions must be right for every layout.",
  ["rebulk/match.py"],
  [("range/conflicting/at_span/at_match","rebulk/match.py:_BaseMatches.range, conflicting, at_span, at_match"),("scans","rebulk/match.py:_BaseMatches.previous, next, max_end")],(),["Matches.range","Matches.conflicting","Matches.at_span","Matches.at_match","Matches.previous","Matches.next","Matches.max_end"])

p("C03","Holes are exactly the uncovered parts of the queried range",
  "Asked for holes over a range, a collection answers with non-empty spans in ascending order that never overlap each other, lie inside the range, and contain no index covered by a match that is not ignored. Without separators they are the maximal uncovered runs, so every uncovered index of the range lies in exactly one hole. With separators, no hole contains a separator character after its first index, and every uncovered index of the range that is not a separator lies in a hole.",
  ["inputs"],"every collection content, range, ignore function and separator set, for non-negative range starts; coverage by matches starting at or after the beginning of the text",
  "Tests check a few layouts; the scan has open/close states whose every interleaving with match and separator positions must come out right.",
  ["rebulk/match.py"],[("hole scan","rebulk/match.py:_BaseMatches.holes, _hole_start, _hole_end")],(),["Matches.holes"])

p("C04","Chained neighbours stop exactly at the first gap",
  "Walking forward or backward from a position (or from a match), the chained matches are exactly the matches accepted by the predicate that cover an index reached before the first index which no accepted match covers and whose character is not a separator. Each is returned once, in the order it is reached, and none lies wholly beyond the given bound or the end of the text.",
  ["inputs"],"every collection content, text, separator set, starting position, bound and predicate",
  "Tests try a few sentences; the stop condition combines coverage, predicate and separators at every position.",
  ["rebulk/match.py"],[("walks","rebulk/match.py:_BaseMatches.chain_before, chain_after")],(),["Matches.chain_before","Matches.chain_after"])

p("C05","Cropping and splitting partition a match exactly",
  "Cropping a match by any list of spans returns non-empty pieces that together cover exactly the indices of the match lying in none of the spans, each index once; splitting by separator characters returns, in order, exactly the maximal runs of non-separator characters of the match. The original match is left unchanged, every piece is a new object keeping the name, tags, value settings and formatter of the original.",
  ["inputs"],"every match (non-empty span with its text), every list of non-empty crop spans or matches, every separator set",
  "Tests crop one match by one or two spans; order, nesting, touching and overlapping of crops all matter.",
  ["rebulk/match.py"],[("crop and split","rebulk/match.py:Match.crop, split")],(),["Match.crop","Match.split"])

p("C06","Literal search finds exactly the leftmost non-overlapping occurrences",
  "Searching a text for a string pattern reports, in ascending order, exactly the leftmost non-overlapping occurrences of the literal inside the given bounds, each with a span as long as the literal, and always terminates, including for an empty literal (no match). With case ignored, the occurrences are those of the lower-cased literal in the lower-cased text, and every reported index refers to the original text.",
  ["inputs"],"every text, literal (including empty and self-overlapping), bounds and case option",
  "Tests use a few words; self-overlap, empty literals, bounds and case folding that changes length are input-dependent.",
  ["rebulk/utils.py","rebulk/pattern.py"],[("scan","rebulk/utils.py:find_all"),("matches of a literal","rebulk/pattern.py:StringPattern._match")],(),["Rebulk.string","find_all"])

p("C07","Regex and functional patterns report exactly what they found",
  "For a regular expression, the raw matches are exactly the non-empty matches of the expression in the text, in order, and each has as children exactly its participating non-empty groups (every repeated capture when these are enabled), in group order, named by group name or else by the pattern name. For a function, the raw matches are exactly the non-empty spans it returned (a single span, a list of them, tuples or dictionaries), with the options it returned for a span taking precedence over those of the pattern, for that span only. The text a match reports is the slice of the input text at its span.",
  ["inputs","programs"],"every expression and text, every shape of function result, every pattern option",
  "Tests use a few expressions and return shapes; optional groups, empty groups, and option precedence vary per match.",
  ["rebulk/pattern.py","rebulk/match.py"],[("regex","rebulk/pattern.py:RePattern._match"),("functional","rebulk/pattern.py:FunctionalPattern._match"),("raw text","rebulk/match.py:Match.raw")],(),["Rebulk.regex","Rebulk.functional","Match.children","Match.raw"])

p("C08","Each match gets the value, formatter, validation and visibility configured",
  "A value, formatter or validator configured per name applies to a match of that name; otherwise the one configured for all children or all parents (whichever the match is) applies, otherwise the general one. A match is dropped with all its children exactly when a validator applying to it or to one of its children (to those returned, or to all when asked to validate all) rejects it; a private flag is set exactly when the pattern is private or the configuration makes that name, the parents or the children private. The parent is returned unless only children are asked for (or its privacy is explicitly requested), children are returned when asked for, and ignored names are never returned.",
  ["inputs","configurations"],"every combination of pattern options, every match and children, every validator and formatter",
  "The options interact (children, every, private_parent, private_children, private_names, ignore_names, format_all, validate_all, dictionaries with special keys): thousands of combinations, tests sample a few.",
  ["rebulk/pattern.py","rebulk/utils.py","rebulk/loose.py"],[("configuration lookup","rebulk/pattern.py:Pattern._process_match_* and _match_config_property_keys, utils.get_first_defined, loose.ensure_dict"),("dispatch","rebulk/pattern.py:Pattern._process_matches, matches")],(),["Pattern.matches"])

p("C09","A chain match is an adjacent sequence of its parts within repeat bounds",
  "Every match of a chain comes from one attempt, in which each part of the chain, in order, was searched, in the context given, in the text from where the part before ended: what the parts found is a run of consecutive pieces without a gap, each piece found by the part it is attributed to, part after part, the number of pieces of each part within its repeat bounds (a number, '+', '*', '?', '{n,m}'). The match spans exactly the pieces of the run that were accepted and are visible; these are its children (with theirs), with the match as parent and spans and text relative to the whole input. Pieces of hidden parts, pieces rejected by the validators of their part (and later pieces of that part), and pieces refused by the chain breaker belong to the run but are not returned as children. A match rejected by the validators of its chain is tried again without the last repetitions of its last part, never below the bounds of a part, and dropped unchanged otherwise. (Provided the pieces of a part, as its expression finds them, ascend without overlapping and are not empty.)",
  ["inputs","programs"],"every chain of string, regex and functional parts, repeaters, hidden flags, and every text",
  "Tests use a handful of chains on one text; resuming after a failed attempt and offsets into the rest of the text depend on the input.",
  ["rebulk/chain.py"],[("search and resume","rebulk/chain.py:Chain._match, _to_next_chain_part, _fix_matches_offset"),("the match","rebulk/chain.py:Chain._build_chain_match, _process_match, _minimum_repetitions"),("repeaters","rebulk/chain.py:ChainPart._truncate_repeater, _validate_repeater, repeater")],(),["Rebulk.chain"])

p("C10","Conflict resolution removes only, and always one of, conflicting matches",
  "With the default rules, for each pair of distinct overlapping public matches for which the solver in force names one to remove, at least one of the two is gone after conflict resolution; the default solver names the match whose outermost parent is the shorter of the two, and neither when those are equally long. Every match removed was named for removal by the solver in force for a pair formed with an overlapping public match: the solver of the other match when it has one, else its own, else the default one, each being skipped when it defers to the default. Private matches neither cause a removal nor are removed at this stage, and markers never take part.",
  ["inputs","programs"],"every set of matches (any overlaps, privacy, solvers)",
  "Tests resolve a few overlapping pairs; outcomes depend on the order in which many overlapping matches are visited and removed.",
  ["rebulk/processors.py","rebulk/match.py"],[("resolution","rebulk/processors.py:ConflictSolver.when, _default_conflict_solver"),("removal","rebulk/rules.py:RemoveMatch.then"),("overlap","rebulk/match.py:_BaseMatches.conflicting")],(),["Rebulk.matches"])

p("C11","Results hold no private match, and markers stay apart",
  "With the default rules, the result of a search never holds a private match, and every public match found and not removed by a rule is in it. Markers are never among the matches and matches never among the markers: each match found lands in exactly the collection its marker flag says, and putting one in the wrong collection is refused leaving the collection as it was.",
  ["inputs","configurations"],"every configuration of patterns and every text",
  "Tests check single patterns; privacy can be set at five places and combines with rules and markers.",
  ["rebulk/processors.py","rebulk/match.py","rebulk/rebulk.py"],[("private removal","rebulk/processors.py:PrivateRemover.when"),("separation","rebulk/match.py:Matches._add_match, Markers._add_match"),("routing","rebulk/rebulk.py:Rebulk._matches_patterns")],(),["Rebulk.matches","Matches.markers"])

p("C12","Rules run by priority, dependencies first, each enabled rule once",
  "Rules run in descending priority; within one priority a rule runs after every rule it depends on, and otherwise in the order they were added among rules that become ready together. Each enabled rule has its condition evaluated exactly once and its consequence run exactly when the condition returned something truthy, with that value; a disabled rule does neither, and the pairs of rule and response returned are exactly those triggered, in order. Circular dependencies and two rules of one class at one priority raise an error rather than run in a wrong order. Loading adds, after the rules there and in the order given, each rule given, an instance of each rule class given, and for a module an instance of each class it defines, by name.",
  ["configurations","programs"],"every set of rules, priorities and dependency graphs",
  "Tests use a few small rule sets; the schedule must be right for every graph.",
  ["rebulk/rules.py","rebulk/toposort.py"],[("schedule","rebulk/rules.py:Rules.execute_all_rules, execute_rule, toposort_rules"),("topological sort","rebulk/toposort.py:toposort, toposort_flatten"),("loading","rebulk/rules.py:Rules.load, load_module, load_class")],(),["Rules.execute_all_rules","toposort"])

p("C13","Consequences change exactly the matches they are given",
  "Removing, appending, renaming and tagging consequences applied to a match, or to any iterable of matches, change exactly those matches: removal takes out each given match that is present, appending adds each given match that is absent, renaming and adding or removing tags keep the set of matches and change only the name or the tags of the given ones that are present. All other matches keep their order, and lookups reflect the change at once. When several consequences are given, each receives its own part of the response, in order.",
  ["inputs"],"every collection and every response (single match, list, set, generator; present or absent matches; zero-length matches)",
  "Tests apply each consequence to one or two matches.",
  ["rebulk/rules.py","rebulk/match.py"],[("consequences","rebulk/rules.py:RemoveMatch, AppendMatch, RenameMatch, AppendTags, RemoveTags, Rule.then")],(),["Consequence.then"])

p("C14","Defaults apply by precedence and never leak between patterns",
  "An option given to a pattern wins over the default of its kind, which wins over the general default; list options accumulate, the more general values first, dictionary options merge key by key with the more specific winning, and options named as overrides replace instead of accumulate. A later definition of a default wins over an earlier one, and a request to clear drops what was defined before. Building a pattern changes neither the defaults nor any object the caller passed, so patterns built later get the same options, and a chain starts from the defaults of its builder without changing them.",
  ["configurations","histories"],"every sequence of default definitions and pattern declarations, every option value",
  "Tests check single levels; aliasing of shared lists and dictionaries only shows after several declarations.",
  ["rebulk/builder.py","rebulk/loose.py"],[("merge","rebulk/loose.py:set_defaults"),("building","rebulk/builder.py:PatternFactory.build_*, overrides, _inherit_keys, _apply_key; ChainBuilder._inherit_defaults")],(),["Rebulk.defaults","Rebulk.regex_defaults","Rebulk.regex","Rebulk.chain"])

p("C15","Dictionaries and typed projections carry exactly the matched values",
  "Converting a collection to a dictionary gives one entry per match name, holding the distinct values of the matches of that name in position order (a bare value when there is one and lists are not enforced; the first only when asked), and the matches and value lists attached to it agree. Retrieval by typed key returns the value of the first match of that name or nothing, all values by key come in collection order, and projecting onto a dataclass or typed dictionary fills each field with all values (list field) or the first value of that name, raising when a field type contradicts the declared key type. None of these changes the matches or their values.",
  ["inputs","programs"],"every collection of matches with values of any type, every combination of flags and model",
  "Tests convert small samples; duplicates, list values and flag combinations multiply.",
  ["rebulk/match.py"],[("dictionary","rebulk/match.py:_BaseMatches.to_dict"),("typed access","rebulk/match.py:_BaseMatches.__getitem__, all, to, _contradicts, _element_type")],(),["Matches.to_dict","Matches.to","Matches.all","Matches.__getitem__"])

p("C16","The declared-type check rejects exactly the wrongly typed values",
  "When enabled, the declared-type check raises a type error exactly when some public match with a declared name, whose value is neither missing nor a literal fixed by the pattern, holds a value that is not an instance of the declared type; otherwise it changes nothing. The names reported as declared but unused are exactly the declared ones that no pattern, nested chain part or allowance can produce, sorted.",
  ["inputs","configurations"],"every set of matches, keys, patterns and values",
  "Tests check single matches; exemptions combine and must hold for each match of a long list.",
  ["rebulk/match.py","rebulk/rebulk.py"],[("type check","rebulk/match.py:_BaseMatches.check_declared_keys"),("unused keys","rebulk/rebulk.py:Rebulk.check_keys, _producible_names")],(),["Matches.check_declared_keys","Rebulk.check_keys"])

p("C17","A composed rebulk runs exactly its enabled parts, once each",
  "The patterns, rules and declared keys in effect are the own ones followed by those of every child that is not disabled for the context, in order, each pattern or rule equal to one already listed being left out, and own keys winning over those of children. A disabled rebulk finds nothing and runs no rule; a disabled pattern finds nothing; the context given reaches every disabling function. Introspection describes exactly the effective public patterns and the effective rules.",
  ["configurations"],"every composition of rebulks, patterns, rules, disabling functions and contexts",
  "Tests compose one or two children; duplicates, order and enabling depend on the composition.",
  ["rebulk/rebulk.py","rebulk/utils.py","rebulk/introspector.py"],[("composition","rebulk/rebulk.py:Rebulk.effective_patterns, effective_rules, effective_keys, _matches_patterns, _execute_rules"),("union","rebulk/utils.py:extend_safe"),("introspection","rebulk/introspector.py:Introspection")],(),["Rebulk.effective_patterns","Rebulk.effective_rules","Rebulk.effective_keys","introspect"])

p("C18","Comparing matches is a lawful equality, hash and order",
  "Equality of matches is an equivalence that holds exactly when span, value, name and parent are equal, and inequality is its exact negation; equal matches have equal hashes, and the hash of a match does not change when its value, name or tags change. The order compares spans and is total and transitive, with its four operators mutually consistent; comparison with anything else is refused, not guessed. The length of a match is the length of its span, the value is the fixed literal if any, else the formatted text, else the text. The names of a match are those of its children, its own when it has none; it is named or tagged with any one of those asked exactly when it has that one; its initiator is its outermost parent.",
  ["inputs"],"all triples of matches, all values with a lawful equality",
  "Laws quantify over all pairs and triples; tests compare a few matches.",
  ["rebulk/match.py"],[("comparison","rebulk/match.py:Match.__eq__, __ne__, __lt__, __gt__, __le__, __ge__, __hash__, __len__, value, span, raw"),("family","rebulk/match.py:Match.names, named, tagged, initiator")],(),["Match"])

p("C19","User functions are called with exactly the arguments they can take",
  "Calling a user function, method, class or callable object with surplus arguments passes positional arguments up to the number it can take (all if it is variadic) and exactly the keyword arguments it names (all if it takes any), unchanged and in order. The result of the function is returned as is, its exceptions propagate, and the arguments given are not modified.",
  ["programs","inputs"],"every signature (plain, bound, class, callable object, variadic, keyword-only, defaults) and every argument list",
  "Tests call a few signatures.",
  ["rebulk/loose.py"],[("signature adaptation","rebulk/loose.py:call, function_args, constructor_args, argspec_args")],(),["rebulk.loose.call"])

p("C20","Searching leaves the configuration untouched and repeats exactly",
  "Running a search changes no pattern, default, rule, declared key or option object of the rebulk, and hands out no match, collection, tag list or key table shared with another result: two searches of the same text with the same context give equal results, however many other searches, or changes to earlier results, happened in between. Validator and formatter helpers obey their definition: a chain of validators accepts exactly when all accept, a chain of formatters applies them left to right, and the surrounding-character validators accept exactly at the text bounds or when the neighbouring character is allowed.",
  ["histories","inputs"],"every configuration, every sequence of searches and of changes to their results",
  "Leaks show only in the second search after a particular first one; tests search once per configuration.",
  ["rebulk/rebulk.py","rebulk/pattern.py","rebulk/match.py","rebulk/validators.py","rebulk/formatters.py"],[("search","rebulk/rebulk.py:Rebulk.matches"),("match construction","rebulk/pattern.py:filter_match_kwargs, StringPattern._match, RePattern._match, FunctionalPattern._match; rebulk/match.py:Match.__init__"),("helpers","rebulk/validators.py, rebulk/formatters.py")],(),["Rebulk.matches"])

pathlib.Path(__file__).resolve().parent.parent.joinpath("properties.jsonl").write_text("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
