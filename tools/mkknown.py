"""Writes /verif/KNOWN_FINDINGS.txt (run by hand, never by a check)."""
import subprocess
F = [
 ('bac019c', 'P02', 'DiGraph.reverse_direction kept the cached matrices and neighbour lists of the old direction'),
 ('0166d55', 'P10', "Graph.v2v(aggr='softmax_then_sum') took no softmax of the adjacency rows"),
 ('0e881a3', 'P10', 'mean aggregation with custom weights multiplied by the total weight instead of dividing (graphs; also P11 for hypergraphs)'),
 ('1e99fb6', 'P03', "Hypergraph.add/remove_hyperedges modified the caller's hyperedge list (also P05)"),
 ('10e0d3e', 'P05', 'Hypergraph copies (clone, state dict, save/load, drop) lost the vertex weights (also P06, P14)'),
 ('aab2a4c', 'P14', 'Hypergraph.subgraph lost the weight of hyperedges that become equal'),
 ('c65cf79', 'P04', 'Hypergraph.clear lost the vertex weights, W_v failed afterwards (also P09)'),
 ('f49f31a', 'P13', 'Graph.from_hypergraph_clique ignored miu'),
 ('a965581', 'P15', 'the fast G(n,p) generators crashed at probability 0 and 1'),
 ('43388e6', 'P15', 'graph_Gnm and digraph_Gnm rejected the complete graph'),
 ('1c355fa', 'P16', 'remap_adj_list(s) raised KeyError for a vertex on a line of its own'),
 ('7d6dab4', 'P17', 'split_by_num/split_by_ratio lost the vertices of non-contiguous labels'),
 ('e34a07c', 'P19', 'recommender metrics raised NameError when a ratio was given'),
 ('eb45c97', 'P19', 'retrieval rr/mrr were nan where nothing relevant is in the top k'),
 ('8ebdef0', 'P19', 'retrieval ap/map ignored k and ratio'),
 ('f0bc47d', 'P19', 'retrieval pr_curve ignored k and ratio and crashed on rows without a relevant item'),
 ('de70861', 'P20', 'BaseEvaluator.test_epoch_res changed the results of earlier epochs'),
 ('18de88a', 'P21', 'UniGINConv weighted the hyperedges instead of the vertex by 1+eps'),
 ('e20be60', 'P21', 'GATConv and UniGATConv crashed on a structure with a single connection'),
 ('d1f55fe', 'P13', 'from_hypergraph_hypergcn(with_mediator=True) crashed when no hyperedge has more than two vertices'),
 ('1471f34', 'P24', 'download_and_check crashed for a missing file outside of the cache root'),
 ('277039d', 'P25', "BaseTask.experiment stored no model when the direction is 'minimize'"),
 ('9c07ce2', 'P28', 'force_layout gave nan for a single vertex'),
 ('fcafe50', 'P28', 'colour lists of a wrong length were accepted'),
 ('c9faee5', 'P28', 'label lists of a wrong length silently dropped vertices from the drawing'),
 ('5074d75', 'P25', 'BaseTask crashed for a recommender task without structure'),
 ('49f4c40', 'P28', 'drawing a hypergraph crashed when two groups share a hyperedge'),
]
if __name__ == '__main__':
    out = ['# One line per finding.',
           '# "known: {json}" lists a defect that is recorded, not repaired: property, id, case, match, what. Checks print KNOWN-FINDING for it.',
           '# "fixed: ..." lists a repaired defect; it suppresses nothing.']
    for h, p, w in F:
        full = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short=10', h], text=True).strip()
        out.append('fixed: property=%s %s %s' % (p, full, w))
    open('/verif/KNOWN_FINDINGS.txt', 'w').write('\n'.join(out) + '\n')
