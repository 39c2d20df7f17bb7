"""Graphs and what was visited of them."""
from graphtransliterator.exceptions import (
    IncompleteGraphCoverageException,
    IncompleteOnMatchRulesCoverageException,
)


def new_graph(self, node, edge, edge_list):
    self.node = node or []
    self.edge = edge or {}
    if edge and edge_list:
        self.edge_list = sorted(edge_list)
    elif edge:
        self.edge_list = sorted([(h, t) for h in edge for t in edge[h]])
    else:
        self.edge_list = []


def add_edge(g, head, tail, edge_data):
    data = {} if edge_data is None else edge_data
    for end in (head, tail):
        if type(end) is not int:
            raise ValueError
    if not (0 <= head < len(g.node) and 0 <= tail < len(g.node)):
        raise ValueError
    if type(data) is not dict:
        raise ValueError
    if head not in g.edge:
        g.edge[head] = {}
    if tail not in g.edge[head]:
        g.edge_list.append((head, tail))
    g.edge[head][tail] = data
    return data


def add_node(g, node_data):
    data = {} if node_data is None else node_data
    if type(data) is not dict:
        raise ValueError
    g.node.append(data)
    return len(g.node) - 1, data


def graph_covered(graph, raise_exception):
    """Whether all nodes and edges were visited."""
    covered = True
    for i in range(len(graph.node.data)):
        if i not in graph.node.visited:
            covered = False
    for head in graph.edge.data:
        for tail in graph.edge.data[head].data:
            if tail not in graph.edge.data[head].visited:
                covered = False
    if not covered and raise_exception:
        raise IncompleteGraphCoverageException
    return covered


def onmatch_covered(rules, raise_exception):
    covered = True
    for i in range(len(rules.data)):
        if i not in rules.visited:
            covered = False
    if not covered and raise_exception:
        raise IncompleteOnMatchRulesCoverageException
    return covered


# drivers: both sides are run from the same state


def drive_onmatch(gt, visited, raise_exception):
    gt.onmatch_rules.visited = visited
    return gt.check_onmatchrules_coverage(raise_exception=raise_exception)


def want_onmatch(gt, visited, raise_exception):
    gt.onmatch_rules.visited = visited
    return onmatch_covered(gt.onmatch_rules, raise_exception)
