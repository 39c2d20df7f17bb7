"""Uses of the public interface, and what they must give. Each drive_x is
compared with want_x from the same state."""
import os

from graphtransliterator import (
    CoverageTransliterator,
    DirectedGraph,
    GraphTransliterator,
    NoMatchingTransliterationRuleException,
    UnrecognizableInputTokenException,
    __version__,
)
from graphtransliterator.ambiguity import check_for_ambiguity
from graphtransliterator.graphs import VisitLoggingDict, VisitLoggingDirectedGraph, VisitLoggingList

from spec_derive import graph, onmatch_rules_lookup, tokenizer_pattern, tokens_by_class


# -------------------------------------------------------------- constructor


def drive_new(tokens, rules, whitespace, onmatch_rules, metadata, ignore_errors, check_ambiguity,
              onmatch_rules_lookup, tokens_by_class, graph, tokenizer_pattern, graphtransliterator_version):
    gt = GraphTransliterator(
        tokens, rules, whitespace, onmatch_rules=onmatch_rules, metadata=metadata, ignore_errors=ignore_errors,
        check_ambiguity=check_ambiguity, onmatch_rules_lookup=onmatch_rules_lookup, tokens_by_class=tokens_by_class,
        graph=graph, tokenizer_pattern=tokenizer_pattern, graphtransliterator_version=graphtransliterator_version)
    return (gt.tokens, gt.rules, gt.whitespace, gt.onmatch_rules, gt.metadata, gt.ignore_errors,
            gt.onmatch_rules_lookup, gt.tokens_by_class, gt.graph, gt.tokenizer_pattern, gt.graphtransliterator_version)


def want_new(tokens, rules, whitespace, onmatch_rules, metadata, ignore_errors, check_ambiguity,
             onmatch_rules_lookup, tokens_by_class, graph, tokenizer_pattern, graphtransliterator_version):
    if not onmatch_rules:
        onmatch_rules = None
        onmatch_rules_lookup = None
    return (tokens, rules, whitespace, onmatch_rules, metadata, ignore_errors,
            onmatch_rules_lookup, tokens_by_class, graph, tokenizer_pattern, graphtransliterator_version)


def drive_defaults(tokens, rules, whitespace, tokens_by_class, graph, tokenizer_pattern):
    gt = GraphTransliterator(tokens, rules, whitespace, check_ambiguity=False, tokens_by_class=tokens_by_class, graph=graph, tokenizer_pattern=tokenizer_pattern)
    return (gt.ignore_errors, gt.onmatch_rules, gt.metadata, gt.onmatch_rules_lookup, gt.graphtransliterator_version,
            gt.last_input_tokens, gt.last_matched_rules, gt.last_matched_rule_tokens)


def want_defaults(tokens, rules, whitespace, tokens_by_class, graph, tokenizer_pattern):
    return (False, None, None, None, __version__, [], [], [])


def drive_setter(gt, value):
    before = gt.ignore_errors
    gt.ignore_errors = value
    return before, gt.ignore_errors, gt.productions


def want_setter(gt, value):
    return gt.ignore_errors, value, [r.production for r in gt.rules]


# ------------------------------------------------------------------- report


def drive_report(gt, input):
    gt.transliterate(input)
    return gt.last_input_tokens, gt.last_matched_rules, gt.last_matched_rule_tokens


def want_report(gt, input):
    tokens = gt.tokenize(input)
    keys = []
    i = 1
    while i < len(tokens) - 1:
        key = gt.match_at(i, tokens)
        if key is None:
            if not gt.ignore_errors:
                raise NoMatchingTransliterationRuleException
            i += 1
            continue
        keys.append(key)
        i += len(gt.rules[key].tokens)
    return tokens, [gt.rules[k] for k in keys], [gt.rules[k].tokens for k in keys]


def drive_report_failed(gt, earlier, input):
    try:
        gt.transliterate(earlier)
    except (UnrecognizableInputTokenException, NoMatchingTransliterationRuleException):
        pass
    try:
        gt.transliterate(input)
    except (UnrecognizableInputTokenException, NoMatchingTransliterationRuleException):
        pass
    return gt.last_input_tokens, gt.last_matched_rules, gt.last_matched_rule_tokens


def want_report_failed(gt, earlier, input):
    tokens = []
    keys = []
    try:
        tokens = gt.tokenize(input)
        i = 1
        while i < len(tokens) - 1:
            key = gt.match_at(i, tokens)
            if key is None:
                if not gt.ignore_errors:
                    raise NoMatchingTransliterationRuleException
                i += 1
                continue
            keys.append(key)
            i += len(gt.rules[key].tokens)
    except (UnrecognizableInputTokenException, NoMatchingTransliterationRuleException):
        pass
    return tokens, [gt.rules[k] for k in keys], [gt.rules[k].tokens for k in keys]


# ----------------------------------------------------------- visit logging


def drive_list_item(nodes, i):
    v = VisitLoggingList(nodes)
    x = v[i]
    return x, v.visited, [y for y in v], len(v)


def want_list_item(nodes, i):
    return nodes[i], {i}, [y for y in nodes], len(nodes)


def drive_list_other(nodes):
    v = VisitLoggingList(nodes)
    n = len(v)
    out = []
    for x in v:
        out.append(x)
    return n, out, v.visited


def want_list_other(nodes):
    return len(nodes), [x for x in nodes], set()


def drive_list_clear(nodes, i):
    v = VisitLoggingList(nodes)
    v[i]
    v.clear_visited()
    return v.visited


def want_list_clear(nodes, i):
    return set()


def drive_dict_item(edges, k):
    v = VisitLoggingDict(edges)
    x = v[k]
    return x, v.visited, len(v)


def want_dict_item(edges, k):
    return edges[k], {k}, len(edges)


def drive_dict_other(edges):
    v = VisitLoggingDict(edges)
    out = []
    for k, x in v.items():
        out.append((k, x))
    for x in v.values():
        out.append(x)
    for k in v:
        out.append(k)
    for k in v.keys():
        out.append(k)
    return out, v.visited


def want_dict_other(edges):
    out = []
    for k in edges:
        out.append((k, edges[k]))
    for k in edges:
        out.append(edges[k])
    for k in edges:
        out.append(k)
    for k in edges:
        out.append(k)
    return out, set()


def drive_dict_clear(edges, k):
    v = VisitLoggingDict(edges)
    v[k]
    v.clear_visited()
    return v.visited


def want_dict_clear(edges, k):
    return set()


def drive_graph_logging(graph, i, h):
    if not graph.edge or not graph.edge_list:
        return None
    v = VisitLoggingDirectedGraph(graph)
    node = v.node[i]
    tails = v.edge[h]
    return (node, tails, v.node.visited, v.edge.visited, v.node.data, sorted(v.edge_list))


def want_graph_logging(graph, i, h):
    if not graph.edge or not graph.edge_list:
        return None
    return (graph.node[i], VisitLoggingDict(graph.edge[h]), {i}, {h}, graph.node, sorted(graph.edge_list))


# --------------------------------------------------------- graph constructor


def drive_graph(node, edge, edge_list):
    g = DirectedGraph(node=node, edge=edge, edge_list=edge_list)
    return g.node, g.edge, sorted(g.edge_list)


def want_graph(node, edge, edge_list):
    if not edge:
        return node or [], {}, []
    if edge_list:
        return node or [], edge, sorted(edge_list)
    return node or [], edge, sorted([(h, t) for h in edge for t in edge[h]])


def drive_graph_edges_only(node, edge):
    g = DirectedGraph(node=node, edge=edge)
    return g.node, g.edge, sorted(g.edge_list)


def want_graph_edges_only(node, edge):
    if not edge:
        return node or [], {}, []
    return node or [], edge, sorted([(h, t) for h in edge for t in edge[h]])


# ------------------------------------------------------------------ coverage


def drive_coverage_new(tokens, rules, whitespace, onmatch_rules, metadata, ignore_errors,
                       onmatch_rules_lookup, tokens_by_class, graph, tokenizer_pattern, graphtransliterator_version):
    if not graph.edge or not graph.edge_list or not onmatch_rules:
        return None
    gt = CoverageTransliterator(
        tokens, rules, whitespace, onmatch_rules=onmatch_rules, metadata=metadata, ignore_errors=ignore_errors,
        check_ambiguity=False, onmatch_rules_lookup=onmatch_rules_lookup, tokens_by_class=tokens_by_class,
        graph=graph, tokenizer_pattern=tokenizer_pattern, graphtransliterator_version=graphtransliterator_version)
    return (gt.tokens, gt.rules, gt.whitespace, [r for r in gt.onmatch_rules.data], gt.metadata, gt.ignore_errors,
            gt.onmatch_rules_lookup, gt.tokens_by_class, gt.graph.node.data, sorted(gt.graph.edge_list), gt.tokenizer_pattern,
            gt.graphtransliterator_version, gt.onmatch_rules.visited, gt.graph.node.visited, gt.graph.edge.visited)


def want_coverage_new(tokens, rules, whitespace, onmatch_rules, metadata, ignore_errors,
                      onmatch_rules_lookup, tokens_by_class, graph, tokenizer_pattern, graphtransliterator_version):
    if not graph.edge or not graph.edge_list or not onmatch_rules:
        return None
    return (tokens, rules, whitespace, [r for r in onmatch_rules], metadata, ignore_errors,
            onmatch_rules_lookup, tokens_by_class, graph.node, sorted(graph.edge_list), tokenizer_pattern,
            graphtransliterator_version, set(), set(), set())


def drive_coverage_clear(gt, i, h, k):
    gt.graph.node[i]
    gt.graph.edge[h]
    if not gt.onmatch_rules.data:
        return None
    gt.onmatch_rules[k]
    gt.clear_visited()
    return gt.graph.node.visited, gt.graph.edge.visited, gt.onmatch_rules.visited


def want_coverage_clear(gt, i, h, k):
    if not gt.onmatch_rules.data:
        return None
    return set(), set(), set()


def drive_coverage_clear_graph(gt, i, h):
    gt.graph.node[i]
    gt.graph.edge[h]
    gt.clear_visited()
    return gt.graph.node.visited, gt.graph.edge.visited


def want_coverage_clear_graph(gt, i, h):
    return set(), set()


def drive_graph_clear_all(vg):
    vg.clear_visited()
    return vg.node.visited, vg.edge.visited, [len(vg.edge.data[h].visited) for h in vg.edge.data]


def want_graph_clear_all(vg):
    return set(), set(), [0 for h in vg.edge.data]


def drive_check_coverage(gt, raise_exception):
    return gt.check_coverage(raise_exception=raise_exception)


def want_check_coverage(gt, raise_exception):
    if not gt.graph.check_coverage(raise_exception=raise_exception):
        return False
    return gt.check_onmatchrules_coverage(raise_exception=raise_exception)


# ------------------------------------------------------------------- bundled


def drive_bundled_yaml(b, options):
    b.from_YAML(**options)
    return (b.tokens, b.rules, b.whitespace, b.onmatch_rules, b.metadata, b.ignore_errors,
            b.onmatch_rules_lookup, b.tokens_by_class, b.graph, b.tokenizer_pattern)


def want_bundled_yaml(b, options):
    gt = GraphTransliterator.from_yaml_file(os.path.join(b.directory, b.name + ".yaml"), **options)
    return (gt.tokens, gt.rules, gt.whitespace, gt.onmatch_rules, gt.metadata, gt.ignore_errors,
            gt.onmatch_rules_lookup, gt.tokens_by_class, gt.graph, gt.tokenizer_pattern)
