"""Writes properties.jsonl (kept as code so that it is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    a = {"files": ["graphtransliterator/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": list(observe), "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "The least costly applicable rule is matched; match_all finds every rule",
  "At any position, matching returns a rule whose cost is the least among all rules that apply there, and returns nothing exactly when no rule applies. "
  "When all matches are requested, it returns every applicable rule exactly once, in order of nondecreasing cost.",
  ["inputs", "configurations"], "every rule set, token sequence and position",
  "The tests match a few hand-written rule sets; rule interaction (shared prefixes, rules with and without contexts, custom costs) is unbounded.",
  ["core.py", "initialize.py"],
  [("best-first search over the rule graph", "core.py GraphTransliterator.match_at"), ("edge costs and ordered children", "initialize.py _graph_from")],
  [("frontier", "edges still to try, least costly first", "core.py match_at"), ("edge cost", "least cost of any rule reachable through the edge", "initialize.py _graph_from")],
  ["GraphTransliterator.match_at", "GraphTransliterator.transliterate"])
p("C02", "A rule applies exactly where its tokens and all its contexts are found",
  "A rule is matched at a position exactly when its own tokens start there and its preceding tokens, preceding classes, following tokens and following classes are each found at the adjoining positions (classes outside tokens), all within the bounds of the input including the added whitespace. "
  "No part of a rule's context is ever ignored, misplaced or read beyond either end of the input.",
  ["inputs", "configurations"], "every rule with any combination of contexts, every token sequence and every position, including both boundaries",
  "Tests use a handful of rules mostly with one kind of context and away from the boundaries; combinations of five rule parts with lengths and positions are unbounded.",
  ["core.py", "initialize.py"],
  [("constraints stored on the edge to a rule", "initialize.py _graph_from"), ("constraint matching with boundary checks", "core.py _match_constraints, _match_tokens")],
  observe=["GraphTransliterator.match_at"])
p("C03", "Rules that require more tokens cost less, and explicit costs are kept",
  "The cost computed for a rule depends only on how many tokens it requires, counting its own tokens, preceding and following tokens and preceding and following classes, and is strictly lower for a rule that requires more. "
  "A cost given explicitly is used as it is, and validated settings always hold their rules sorted by cost, keeping the given order among equal costs.",
  ["inputs", "configurations"], "every rule and every rule set",
  "Tests compare a few costs; the guarantee ranges over all combinations of rule parts and over explicit costs.",
  ["initialize.py", "schemas.py"],
  [("cost function", "initialize.py _cost_of, _num_tokens_of"), ("cost default when building a rule", "initialize.py _transliteration_rule_of"), ("sorting", "schemas.py SettingsSchema.sort_rules_by_cost")],
  observe=["GraphTransliterator.rules", "TransliterationRuleSchema.load"])
p("C04", "On-match insertions: the first applicable rule, once, before the production",
  "When a rule is matched, the output of the first on-match rule (in the order given) whose preceding classes end just before the match and whose following classes start at the match is inserted exactly once, immediately before the rule's production. "
  "No insertion is made when no on-match rule applies, and classes are checked in full on both sides within the bounds of the input.",
  ["inputs", "configurations"], "every set of on-match rules, token classes and input",
  "Tests use one or two on-match rules with one class on each side; longer class sequences and several competing rules are not sampled.",
  ["core.py", "initialize.py"],
  [("lookup by current and previous token", "initialize.py _onmatch_rules_lookup"), ("selection and insertion", "core.py transliterate")],
  observe=["GraphTransliterator.transliterate"])
p("C05", "Tokenization takes the longest token, literally, and skips no input",
  "At every position of the input the longest of all defined tokens that is there is taken, the text of tokens being matched literally whatever characters it holds. "
  "Tokens are kept in order of the input and every character of the input is either part of exactly one token taken or handled as unrecognizable.",
  ["inputs", "configurations"], "every set of tokens (including regular-expression metacharacters, newlines and tokens that are prefixes of others) and every input",
  "Tests tokenize short ASCII strings with few tokens.",
  ["core.py", "initialize.py"],
  [("token pattern, longest first and escaped", "initialize.py _tokenizer_pattern_from"), ("tokenizer loop", "core.py tokenize")],
  observe=["GraphTransliterator.tokenize", "GraphTransliterator.tokenizer_pattern"])
p("C06", "Input is framed by whitespace, and whitespace consolidated as configured",
  "The tokens of any input start and end with the default whitespace token. "
  "When consolidation is on, every run of whitespace is reduced to a single default whitespace token and whitespace at either end of the input is dropped; when it is off, every whitespace token of the input is kept as it is.",
  ["inputs", "configurations"], "every input, every set of whitespace tokens, consolidation on and off",
  "Tests try single spaces and one default token; runs mixing several whitespace tokens and runs at the ends are not sampled.",
  ["core.py"], [("tokenizer loop", "core.py tokenize")],
  observe=["GraphTransliterator.tokenize", "GraphTransliterator.last_input_tokens"])
p("C07", "Errors are always logged, and raised exactly when not ignored",
  "An unrecognizable character and a position where no rule matches are each logged as a warning, and raise the library's own exception for that error (derived from its common base exception) when errors are not ignored. "
  "When errors are ignored neither raises: exactly the offending character or token is skipped and the rest of the input is processed as usual, according to the setting at the time of the call.",
  ["inputs", "configurations", "histories"], "every input with any number of errors at any position, either setting, changed at any time",
  "Tests try one error at one position.",
  ["core.py", "exceptions.py"],
  [("tokenizer error branch", "core.py tokenize"), ("match error branch", "core.py transliterate"), ("exception hierarchy", "exceptions.py")],
  observe=["GraphTransliterator.tokenize", "GraphTransliterator.transliterate", "GraphTransliterator.ignore_errors"])
p("C08", "Tokenizing, matching and transliterating always make progress and terminate",
  "Each step of tokenizing consumes at least one character, each step of transliterating at least one token and each step of matching at least one edge of a finite acyclic rule graph, so every call terminates for every input. "
  "Settings that would allow an empty token or a rule without tokens are refused by every validating constructor.",
  ["inputs", "configurations"], "every input and every accepted configuration",
  "A test that does not terminate is never written, and those that do terminate say nothing about other inputs.",
  ["core.py", "schemas.py", "initialize.py"],
  [("loop variables", "core.py tokenize, transliterate, match_at"), ("length validation", "schemas.py, core.py GraphTransliteratorSchema")],
  observe=["GraphTransliterator.transliterate"])
p("C09", "Output depends only on settings and input, not on earlier or concurrent calls",
  "Tokenizing, matching and transliterating read nothing that an earlier or concurrent call left behind and change nothing but the report of the last transliteration. "
  "The same input therefore gives the same output after any history of calls on any transliterators, including failed ones and calls from other threads.",
  ["histories", "schedules"], "every sequence and interleaving of calls on any number of transliterators in a process",
  "Tests call each transliterator a few times in one order, from one thread.",
  ["core.py", "initialize.py", "graphs.py"],
  [("no state but the report of the last call is written", "core.py tokenize, match_at, transliterate")],
  [("last tokens and rule keys", "report of the last transliteration only", "core.py transliterate")],
  ["GraphTransliterator.transliterate"])
p("C10", "Objects passed by the caller and transliterators being dumped stay unchanged",
  "Constructing, loading, pruning, compressing, decompressing, dumping and transliterating never modify the settings, rules, tokens, configurations or other objects that the caller passed in. "
  "Dumping does not change what the transliterator holds either.",
  ["inputs", "histories"], "every public entry point and every argument, however it is reused afterwards",
  "Tests rarely use an argument again after the call.",
  ["core.py", "initialize.py", "schemas.py", "compression.py", "graphs.py", "process.py"],
  [("copies are changed, not the originals", "schemas.py make_graph, core.py load, loads")],
  observe=["GraphTransliterator.load", "GraphTransliterator.from_dict", "compress_config", "decompress_config"])
p("C11", "Uncompressed serialization carries everything that determines behaviour",
  "A dump without compression holds every setting that determines how a transliterator behaves (tokens with classes, rules with all contexts and costs, whitespace, on-match rules, metadata, error setting, generated tables and graph, and version), and loading hands each of them to the new transliterator unchanged. "
  "Anything a transliterator can hold, such as no metadata or no on-match rules, can be dumped and loaded.",
  ["configurations"], "every transliterator that can be constructed",
  "Tests round-trip a few complete configurations and compare a few outputs.",
  ["core.py", "schemas.py"],
  [("serialization fields", "core.py GraphTransliteratorSchema; schemas.py"), ("constructor parameters", "core.py GraphTransliterator.__init__")],
  observe=["GraphTransliterator.dump", "GraphTransliterator.load", "GraphTransliterator.dumps", "GraphTransliterator.loads"])
p("C12", "Compression loses nothing that decompression needs",
  "For every configuration and every compression level, decompressing the compressed settings gives back the tokens with their classes, the rules with all their parts and costs, whitespace, on-match rules and metadata; level 1 gives back the graph as well. "
  "Each part is written to and read from the same place with the same encoding, absent parts and zero values included.",
  ["configurations"], "every configuration, including rules with any combination of contexts, zero, integer and custom costs",
  "Tests compress two configurations.",
  ["compression.py"],
  [("writer", "compression.py compress_config"), ("reader", "compression.py decompress_config")],
  observe=["compress_config", "decompress_config", "GraphTransliterator.dump"])
p("C13", "Dumps of equal transliterators are identical",
  "Dumping, compressing and generating tests give the same text for equal settings on every run: nothing in the output depends on the order in which a set happens to be iterated, on time, on object identity or on randomness.",
  ["configurations", "histories"], "every configuration, every hash seed and process",
  "A test process has one hash seed and compares dumps with themselves.",
  ["core.py", "schemas.py", "compression.py", "transliterators/bundled.py"],
  [("sorting of whatever is held as a set", "core.py sort_sets; compression.py; bundled.py sample_token")],
  observe=["GraphTransliterator.dumps", "compress_config", "Bundled.generate_yaml_tests"])
p("C14", "Options given to any constructor or command reach the transliterator",
  "Whatever way a transliterator is built (dictionary, easy reading, YAML text or file, JSON, compressed settings, bundled, pruning, command line), the error and ambiguity options given by the caller take effect, and override serialized values. "
  "When they are not given, the documented defaults or the serialized values apply.",
  ["configurations", "programs"], "every construction path, with every combination of options",
  "Tests give options to some constructors only.",
  ["core.py", "cli.py", "transliterators/bundled.py", "transliterators/__init__.py"],
  [("keyword parameters passed on", "core.py from_dict, from_easyreading_dict, from_yaml, from_yaml_file, load, loads, pruned_of; bundled.py; cli.py load_transliterator")],
  observe=["GraphTransliterator.ignore_errors", "AmbiguousTransliterationRulesException"])
p("C15", "Settings from a later version are refused, others accepted",
  "Loading serialized settings, compressed or not, raises the incorrect version exception exactly when they are marked with a later version than the library's own, comparing the numbers of the versions one by one. "
  "Settings with the same, an earlier or no version are accepted.",
  ["inputs"], "every pair of versions",
  "The test tries one very large version.",
  ["core.py"], [("version gate before loading", "core.py GraphTransliteratorSchema.check_version_and_compression")],
  observe=["GraphTransliterator.load", "GraphTransliterator.loads"])
p("C16", "Invalid settings are always refused with a validation error",
  "Building from a dictionary refuses, with a validation error, settings in which any rule part, on-match rule part or whitespace setting names a token or token class that is not defined, or in which a required part is missing. "
  "Every token and class in every position of every rule is checked, and valid settings are accepted.",
  ["inputs", "configurations"], "every settings dictionary",
  "Tests try a few invalid settings, each with a single error.",
  ["schemas.py", "core.py"],
  [("cross-reference validation", "schemas.py SettingsSchema.validate_tokens, validate_token_classes"), ("required fields", "schemas.py")],
  observe=["GraphTransliterator.from_dict"])
p("C17", "Every ambiguity among rules is detected, and only those",
  "Checking a transliterator raises the ambiguity exception exactly when two rules of equal cost can match the same tokens and no single strictly less costly rule matches all of those. "
  "Every pair of equal-cost rules is compared position by position, with preceding and following contexts aligned on the start of the rules' own tokens.",
  ["inputs", "configurations"], "every rule set",
  "Tests check a few small rule sets with one ambiguous pair.",
  ["ambiguity.py", "core.py"],
  [("pairwise intersection", "ambiguity.py check_for_ambiguity")],
  observe=["check_for_ambiguity", "GraphTransliterator.__init__"])
p("C18", "Pruning removes exactly the rules with the given productions",
  "Pruning productions gives a new transliterator with exactly those rules, in the same order, whose whole production is not among the given productions, whether one string or several are given. "
  "Tokens, whitespace, on-match rules, metadata and options are kept, and everything derived from the rules is generated anew.",
  ["inputs", "configurations"], "every transliterator and every production or list of productions",
  "The test prunes two productions that are not part of one another.",
  ["core.py"], [("pruning", "core.py pruned_of")],
  observe=["GraphTransliterator.pruned_of"])
p("C19", "Coverage is complete exactly when everything was visited while transliterating",
  "Checking coverage succeeds exactly when every node and edge of the graph and every on-match rule has been visited by matching since the last clearing, and otherwise fails, naming what was missed: by exception when asked to raise, else by returning false. "
  "Checking, dumping or copying is not a visit, clearing forgets all visits, and logging visits does not change results.",
  ["histories", "configurations"], "every history of transliterating, dumping, checking and clearing",
  "Tests check coverage of one transliterator after all or none of its tests.",
  ["graphs.py", "core.py"],
  [("visit logging containers", "graphs.py"), ("coverage checks", "graphs.py check_coverage; core.py CoverageTransliterator")],
  [("visited", "keys visited since the last clearing", "graphs.py VisitLoggingList, VisitLoggingDict")],
  ["CoverageTransliterator.check_coverage"])
p("C20", "The report of the last transliteration matches that transliteration",
  "After transliterating, the reported input tokens, matched rules and matched rule tokens are those of that call: all matched rules in order of the input, one for each match, and nothing of earlier calls. "
  "Before the first call they are empty, and after a failed call they describe the part that was processed.",
  ["histories", "inputs"], "every history of calls, including failed ones",
  "Tests look at the report once after one successful call.",
  ["core.py"], [("report reset and filled", "core.py transliterate; last_input_tokens, last_matched_rules, last_matched_rule_tokens")],
  observe=["GraphTransliterator.last_input_tokens", "GraphTransliterator.last_matched_rules", "GraphTransliterator.last_matched_rule_tokens"])
p("C21", "A directed graph never holds invalid or inconsistent edges",
  "Adding an edge or node either succeeds completely or raises a value error and changes nothing; edges are accepted exactly between existing nodes given as integers. "
  "The list of edges always names each edge of the graph exactly once, and a graph that is built from edges alone lists all of them.",
  ["histories", "inputs"], "every sequence of additions, valid or not, on graphs built in any way",
  "Tests try each invalid argument once on an empty graph.",
  ["graphs.py"], [("validation before change", "graphs.py DirectedGraph.add_edge, add_node, __init__")],
  [("edge, edge_list", "the same edges twice, as mapping and as list", "graphs.py DirectedGraph")],
  ["DirectedGraph.add_edge", "DirectedGraph.add_node"])
p("C22", "Configuration and input are never executed as code",
  "No content of YAML, JSON, settings or transliteration input can make the library run code: YAML is only read with the safe loader, and evaluation, unpickling, dynamic imports and shell commands are never applied to such content.",
  ["inputs", "programs"], "every path from external content to the interpreter",
  "Tests contain no hostile configuration.",
  ["core.py", "cli.py", "process.py", "transliterators/bundled.py", "transliterators/__init__.py"],
  [("safe loading only", "core.py from_yaml; bundled.py load_yaml_tests")],
  observe=["GraphTransliterator.from_yaml", "graphtransliterator command"])
p("C23", "Each bundled JSON configuration agrees with the YAML it is made from",
  "For every bundled transliterator, the JSON configuration describes the same tokens, classes, rules, on-match rules, whitespace and metadata as the YAML configuration, in a version that the library accepts, and each bundled directory holds the files its transliterator needs.",
  ["configurations"], "every bundled transliterator and every entry of its configuration",
  "Tests construct from either file and run sample transliterations; an entry that is not sampled can differ.",
  ["transliterators/__init__.py", "transliterators/bundled.py"],
  [("generated by the make-json command", "cli.py make_json"), ("bundled files", "transliterators/*/")],
  observe=["Bundled.new"])
p("C24", "Files are read and written as UTF-8 whatever the locale",
  "Every configuration and test file that the library or its command reads or writes as text is opened as UTF-8, so that results do not depend on the locale or platform, and every file is closed on all paths.",
  ["configurations", "programs"], "every place where a file is opened, on every platform and locale",
  "Tests run in one locale.",
  ["core.py", "cli.py", "transliterators/bundled.py"],
  [("explicit encoding", "calls of open")],
  observe=["GraphTransliterator.from_yaml_file", "graphtransliterator command"])
p("C25", "Each part of an easy reading rule becomes the matching part of the settings",
  "Converting easy reading settings keeps every rule, on-match rule, whitespace setting, token and metadata, in order: the classes and tokens before, in and after each rule are assigned to preceding classes, preceding tokens, tokens, following tokens and following classes respectively, with its production. "
  "A rule or on-match rule that is not in easy reading notation is refused rather than partly read.",
  ["inputs"], "every easy reading rule and on-match rule",
  "Tests convert one example of each form.",
  ["process.py", "core.py", "schemas.py"],
  [("role of each group of the rule pattern", "process.py _process_rule, _process_onmatch_rules"), ("pattern validation", "schemas.py EasyReadingSettingsSchema")],
  observe=["GraphTransliterator.from_easyreading_dict", "GraphTransliterator.from_yaml"])
p("C26", "Commands output exactly what the library gives for the same arguments",
  "The transliterate command transliterates every input given, in order, and prints the plain result for one input and the list for several, as Python or as JSON; the other commands print the dump, tests or names that the library gives. "
  "Each command passes every option it offers on to the library, and reports failure by raising.",
  ["inputs", "programs"], "every command with every combination of options and arguments",
  "Tests run each command with few combinations.",
  ["cli.py"], [("commands", "cli.py")],
  observe=["graphtransliterator command"])
p("C27", "Named Unicode escapes become exactly the named character",
  "Reading YAML text replaces every escape naming a Unicode character, with any letters, digits, spaces or hyphens in the name, by that character and changes nothing else; an unknown name raises, and replacement is skipped exactly when it is turned off.",
  ["inputs"], "every text and every character name",
  "Tests try two names.",
  ["core.py", "initialize.py"], [("replacement", "initialize.py _unescape_charnames; core.py from_yaml")],
  observe=["GraphTransliterator.from_yaml"])
p("C28", "Generated tables and graph reflect tokens and rules exactly",
  "The table of tokens by class, the on-match lookup and the rule graph generated for a transliterator hold exactly what follows from its tokens, on-match rules and rules: each token under each of its classes, each on-match rule (in order) under each pair of current and preceding token it may apply to, and each rule reachable along its tokens. "
  "The cost of every edge is the least cost of the rules reachable through it.",
  ["configurations"], "every set of tokens, rules and on-match rules",
  "Tests look at the tables of one small configuration.",
  ["initialize.py", "core.py"],
  [("tables", "initialize.py _tokens_by_class_of, _onmatch_rules_lookup"), ("graph", "initialize.py _graph_from")],
  observe=["GraphTransliterator.tokens_by_class", "GraphTransliterator.onmatch_rules_lookup", "GraphTransliterator.graph"])
p("C29", "Generated tests exercise every rule and on-match rule with its own output",
  "Generating tests for a transliterator gives an input for every rule and every on-match rule, made of a token for each required class and each required token in the order of the rule, with the output that the transliterator itself gives for it. "
  "Running tests compares every given test exactly and raises an assertion error on the first difference, however Python is run.",
  ["configurations"], "every transliterator that is given to test generation, every set of tests",
  "Tests compare the generated tests of one transliterator.",
  ["transliterators/bundled.py"],
  [("test generation", "bundled.py generate_yaml_tests"), ("test running", "bundled.py run_tests, run_yaml_tests")],
  observe=["Bundled.generate_yaml_tests", "Bundled.run_tests", "Bundled.run_yaml_tests"])
p("C30", "A loaded dump transliterates every input exactly as the original",
  "For every transliterator, every compression level and every input, the transliterator loaded from its dump gives the same output or error as the original.",
  ["inputs", "configurations"], "every transliterator, level and input",
  "Tests compare a few inputs.",
  ["core.py", "schemas.py", "compression.py"],
  [("dump and load", "core.py dump, dumps, load, loads")], observe=["GraphTransliterator.loads"])
p("C31", "Transliteration time grows reasonably with the length of the input",
  "For a fixed configuration, the time needed to tokenize and transliterate grows no faster than the length of the input times a constant of the configuration.",
  ["inputs"], "every input length", "Tests use short inputs.",
  ["core.py"], [("single pass over input", "core.py tokenize, transliterate")], observe=["GraphTransliterator.transliterate"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
