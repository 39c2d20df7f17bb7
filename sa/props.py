"""Which obligations decide which property."""
import re


VGT = "value-graph (gated SSA) comparison with a reference definition, from the syntax tree"
NOTE = ("Held: the source computes, for every input, what the reference definition in specs/ computes, up to the modelled equalities. "
        "Parts the analysis cannot relate are reported as undecided, not as violations. Trusts the model of Python and of marshmallow, yaml and click in sa/.")


def P(how, *obl, level="other", technique=VGT, note=NOTE, **kw):
    return dict(how=how, obligations=[o if isinstance(o, tuple) else (o, None) for o in obl], level=level, technique=technique, note=note, **kw)


VG = "Value graphs (gated single assignment, inlined calls, normalised loops) of the functions and of a reference definition are compared."

DECL = "declaration rules over the marshmallow field model, from the syntax tree"
CALLS = "call-site rules over resolved names, from the syntax tree"
EFFECT = "effect analysis: what a call reads, writes and leaves behind, over value graphs"
ORDER = "order-dependence (taint) analysis of value graphs, and effect rules over resolved calls"
DATA = "comparison of parsed YAML and JSON sources, and rules over class declarations"

PROPS = {
    "C01": P(VG, "match_at", "derived_graph"),
    "C02": P(VG, "match_at", "derived_graph"),
    "C03": P(VG, "rule_hooks", "settings_post_load"),
    "C04": P(VG, "transliterate", "derived_onmatch_rules_lookup"),
    "C05": P(VG, "tokenize", "derived_tokenizer_pattern"),
    "C06": P(VG, "tokenize"),
    "C07": P(VG + " The hierarchy of exceptions is read from the class declarations.", "tokenize", "transliterate", "exceptions", technique=VGT + "; class hierarchy"),
    "C08": P(VG + " Progress follows from the definitions; that tokens and rules are never empty is read from the declared fields.",
             "schema_empty", "tokenize", "transliterate", "match_at", technique=VGT + "; " + DECL),
    "C09": P("Value graphs of the three calls are evaluated with every place that any of them writes holding an unknown value left behind by another call; results, errors and log entries must not contain it.",
             "history", technique=EFFECT),
    "C10": P("The final contents of every object passed, and of all that a transliterator holds, are compared with the initial ones, on returning and on raising.", "arguments", technique=EFFECT),
    "C11": P(VG + " Fields of the schemas are compared with what each must let through.", "dump", "load", "loads", "schema_post_dump", "schema_post_load", "rule_hooks", "graph_hooks", "constructor", "schema_dump",
             technique=VGT + "; " + DECL),
    "C12": P(VG, "compress", "decompress"),
    "C13": P("Value graphs are searched for values in the order of which a set was iterated, and resolved calls for those whose result differs from run to run.",
             "set_order", "sets_sorted", "moment", technique=ORDER),
    "C14": P(VG + " Options of commands are read from their decorators.", "from_dict", "from_easyreading_dict", "from_yaml", "from_yaml_file", "load", "loads", "pruned_of", "cli_load", "cli", "constructor", "bundled",
             "bundled_classes", "schema_defaults", "commands", technique=VGT + "; " + DECL),
    "C15": P(VG, "version"),
    "C16": P(VG + " Required fields and nested schemas are read from their declarations.", "settings_validates", "from_dict", "schema_validates", "schema_required", "schema_empty", "schema_settings", technique=VGT + "; " + DECL),
    "C17": P(VG, "ambiguity", "check_on_construction"),
    "C18": P(VG, "pruned_of"),
    "C19": P(VG, "graph_coverage", "onmatch_coverage", "visit_logging", "coverage_transliterator"),
    "C20": P(VG, "report"),
    "C21": P(VG, "graph_edits", "graph_new"),
    "C22": P("Every resolved call in the package is classified: none runs or imports code named by content, and YAML is read by safe loaders only.", "no_code", technique=CALLS),
    "C23": P("The YAML and JSON files of each bundled transliterator are parsed and compared part by part.", "bundled_files", technique=DATA),
    "C24": P("Every call that opens a file is resolved, its encoding folded, and its closing followed on every path.", "files_utf8", "files_closed", technique=CALLS),
    "C25": P(VG + " The patterns that declared fields require are compared as regular languages.", "easyreading", "schema_easy", technique=VGT + "; comparison of regular expressions"),
    "C26": P(VG + " Options and arguments are read from their decorators.", "cli", "cli_load", "commands", technique=VGT + "; " + DECL),
    "C27": P(VG, "unescape", "from_yaml"),
    "C28": P(VG, "derived_tokens_by_class", "derived_onmatch_rules_lookup", "derived_graph"),
    "C29": P(VG, "run_tests", "generate_tests", "bundled_tests"),
}


NOT_APPLICABLE = {
    "C30": "Equality of transliteration of the original and of the loaded dump for every input is a relation between two runs through marshmallow, JSON and the search; "
           "no static argument in reach composes them (C11, C12 and C28 decide the parts: what is written, read and generated).",
    "C31": "Time is a runtime quantity: the constant of a configuration, the regular expression engine and heap operations have no static bound in reach (C08 decides progress and termination).",
}
