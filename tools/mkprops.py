"""Regenerates /verif/properties.jsonl (kept as a script so wording and anchors stay reviewable)."""
import json, os
B = 'dhg/structure/base.py'; G = 'dhg/structure/graphs/graph.py'; D = 'dhg/structure/graphs/directed_graph.py'
BI = 'dhg/structure/graphs/bipartite_graph.py'; H = 'dhg/structure/hypergraphs/hypergraph.py'
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p('P01', 'Undirected graph contents follow the history of edge operations',
  'After any sequence of construction, adding edges, removing edges and self-loop operations, a simple graph contains exactly the edges that history implies: an edge and its reversal are the same edge, the orientation in which endpoints are given never matters, and every insertion of an edge already present merges the weights with the requested rule (mean, sum or max of the stored and the new weight, in insertion order). '
  'Self-loops are edges of their own, removing an absent edge changes nothing, and an edge with an endpoint not below the vertex count is rejected before anything changes. '
  'The reported edge list, weights and edge count (including the optional extra self-loop on every vertex) describe exactly that content.',
  ['histories', 'inputs'], 'all vertex counts, all operation sequences, all edge lists, weights and merge rules',
  'The tests replay a few short fixed histories; the guarantee quantifies over every history and every edge list length.',
  [G, B], [('Graph.add_edges sorts endpoints and merges', G + ':Graph.add_edges'), ('BaseGraph._add_edge', B + ':BaseGraph._add_edge'), ('BaseGraph._remove_edge', B + ':BaseGraph._remove_edge'), ('Graph.remove_edges', G + ':Graph.remove_edges'), ('BaseGraph._format_edges', B + ':BaseGraph._format_edges'), ('BaseGraph.e / num_e', B + ':BaseGraph.e')],
  [('edge and self-loop dictionaries', 'edges keyed by endpoint pair with their weight', B + ':BaseGraph.clear')], ['g.e', 'g.num_e', 'g.e_both_side'])
p('P02', 'Directed and bipartite graph contents follow the history of operations',
  'After any sequence of construction, adding and removing edges, a directed graph and a bipartite graph contain exactly the ordered (source, target) respectively (U-vertex, V-vertex) pairs the history implies, with repeated insertions merged by the requested rule in insertion order and orientation never confused. '
  'Endpoints outside the vertex range (for bipartite graphs: outside the range of their own side) are rejected before anything changes. '
  'Reversing a directed graph reverses every edge, swapping the sides of a bipartite graph swaps every edge, and doing either twice gives back the original graph.',
  ['histories', 'inputs'], 'all vertex counts, operation sequences, edge lists, weights and merge rules',
  'Tests use a handful of tiny fixed graphs and histories.',
  [D, BI, B], [('DiGraph edge operations', D + ':DiGraph.add_edges'), ('DiGraph.reverse_direction', D + ':DiGraph.reverse_direction'), ('BiGraph edge operations', BI + ':BiGraph.add_edges'), ('BiGraph.switch_uv', BI + ':BiGraph.switch_uv'), ('_add_edge', B + ':BaseGraph._add_edge')],
  [('edge dictionary', 'ordered pair to weight', B + ':BaseGraph.clear')], ['g.e', 'g.num_e', 'g.A'])
p('P03', 'Hypergraph contents follow the history of hyperedge operations',
  'After any sequence of construction, adding and removing hyperedges and removing groups, each hyperedge group of a hypergraph contains exactly the hyperedges the history implies: the order in which the vertices of a hyperedge are listed never matters, inserting a hyperedge already in the group merges its weight by the requested rule in insertion order, and operations on one group leave every other group untouched. '
  'Removing a hyperedge without naming a group removes it from all groups. '
  'Reported hyperedges, weights, counts and group names, per group and overall in group order, describe exactly that content.',
  ['histories', 'inputs'], 'all vertex counts, operation sequences, group names, hyperedge lists, weights and merge rules',
  'Tests replay short fixed histories with at most two groups.',
  [H, B], [('Hypergraph.add_hyperedges', H + ':Hypergraph.add_hyperedges'), ('BaseHypergraph._add_hyperedge', B + ':BaseHypergraph._add_hyperedge'), ('_merge_hyperedges', B + ':BaseHypergraph._merge_hyperedges'), ('_format_e_list', B + ':BaseHypergraph._format_e_list'), ('remove_hyperedges', H + ':Hypergraph.remove_hyperedges'), ('remove_group', H + ':Hypergraph.remove_group'), ('e / e_of_group', H + ':Hypergraph.e_of_group')],
  [('hyperedge groups', 'group name to hyperedge to weight, in insertion order', B + ':BaseHypergraph._clear_raw')], ['hg.e', 'hg.num_e', 'hg.e_of_group', 'hg.group_names'])
p('P04', 'Derived quantities never go stale',
  'Whatever was queried before and whatever mutations happened in between, every derived quantity of a graph, directed graph, bipartite graph or hypergraph (edge lists, adjacency and incidence matrices, degrees, Laplacians, neighbourhoods, per-group variants) equals the one a freshly built structure with the same content reports. '
  'Querying is observationally pure: it never changes the content of the structure or the answer of a later query, even when the returned tensors or lists of copying accessors are modified.',
  ['histories', 'inputs'], 'all interleavings of queries and mutations, of any length, over all structures',
  'Cache invalidation bugs need a particular query before a particular mutation; tests cover only a few such orders.',
  [B, G, D, BI, H], [('_clear_cache of graphs', B + ':BaseGraph._clear_cache'), ('_clear_cache of hypergraphs', B + ':BaseHypergraph._clear_cache'), ('every mutator', G + ':Graph.add_edges'), ('reverse_direction', D + ':DiGraph.reverse_direction'), ('switch_uv', BI + ':BiGraph.switch_uv')],
  [('cache, group_cache', 'memoised derived quantities', B + ':BaseGraph._clear_cache')], ['A', 'D_v', 'H', 'L_*', 'e', 'N_v', 'deg_v'])
p('P05', 'Copies are equal and independent; inputs are never modified',
  'A clone of any structure, and a structure rebuilt from a state dictionary, has the same vertices, edges, weights, vertex weights and groups as the original, and from then on mutations of either one are never visible through the other. '
  'Constructing a structure from, or adding to it or removing from it, lists supplied by the caller or another structure leaves those lists and that structure exactly as they were.',
  ['histories', 'inputs'], 'all structures, all mutation sequences on either copy after copying, all caller-supplied lists',
  'Aliasing shows only when a particular mutation follows a copy; tests compare copies once, right after copying.',
  [G, D, BI, H, B], [('clone methods', G + ':Graph.clone'), ('Hypergraph.clone', H + ':Hypergraph.clone'), ('from_state_dict', H + ':Hypergraph.from_state_dict'), ('_format_e_list', B + ':BaseHypergraph._format_e_list')],
  [('raw dictionaries and caches', 'must not be shared between copies', G + ':Graph.clone')], ['clone()', 'from_state_dict()', 'caller lists'])
p('P06', 'Saving and loading a structure loses nothing',
  'Saving any structure and loading it back, through its own class or through the generic loader, yields a structure of the same class with identical vertices, edges, weights, self-loop settings, vertex weights and hyperedge groups in the same order. '
  'The same holds for exporting and re-importing the state dictionary, and loading a file of a different structure class is rejected.',
  ['inputs', 'histories'], 'all structures reachable by any history',
  'Tests save and load one small structure per class and compare a few fields.',
  [G, D, BI, H, B], [('state_dict', H + ':Hypergraph.state_dict'), ('save/load', H + ':Hypergraph.save'), ('load_structure', B + ':load_structure')],
  [], ['save', 'load', 'load_structure', 'state_dict'])
p('P07', 'Matrices of simple graphs satisfy their defining formulas',
  'For every simple graph with non-negative weights, the adjacency matrix is symmetric and holds at (i, j) the weight of edge ij (plus one per extra self-loop on the diagonal), degrees are its row sums, inverse and inverse-square-root degrees are zero where the degree is zero, L = D - A, L_sym = I - D^-1/2 A D^-1/2 and L_rw = I - D^-1 A are formed without self-loops, and the GCN matrix is D^-1/2 (A+I) D^-1/2 with its own degrees. '
  'GCN smoothing multiplies features by the latter matrix and generic smoothing returns X + lamb * L X.',
  ['inputs'], 'all graphs (any size, weights, self-loops), all feature matrices',
  'Tests compare with dense recomputation on a few random graphs of fixed size.',
  [G, B], [('A', G + ':Graph.A'), ('D_v', G + ':Graph.D_v'), ('D_v_neg_1', G + ':Graph.D_v_neg_1'), ('L_sym', G + ':Graph.L_sym'), ('L_GCN', G + ':Graph.L_GCN'), ('smoothing', B + ':BaseGraph.smoothing')],
  [], ['A', 'D_v', 'D_v_neg_1', 'D_v_neg_1_2', 'L', 'L_sym', 'L_rw', 'L_GCN', 'deg_v', 'smoothing_with_GCN'])
p('P08', 'Matrices of directed and bipartite graphs satisfy their formulas',
  'For every directed graph the adjacency matrix holds the weight of edge i->j at (i, j), in- and out-degrees are its column and row sums and their inverses are zero where the degree is zero. '
  'For every bipartite graph the biadjacency matrix holds the edge weights, the adjacency matrix is its symmetric block embedding, U- and V-degrees are its row and column sums with inverses zero at zero degree, and the GCN matrix is the symmetrically normalised block adjacency matrix with self-loops.',
  ['inputs'], 'all directed and bipartite graphs of any size, all weights',
  'Tests compare with dense recomputation on a few random graphs of fixed size.',
  [D, BI], [('DiGraph.A', D + ':DiGraph.A'), ('D_v_in/D_v_out', D + ':DiGraph.D_v_in'), ('BiGraph.A', BI + ':BiGraph.A'), ('BiGraph.B', BI + ':BiGraph.B'), ('D_u/D_v', BI + ':BiGraph.D_u'), ('BiGraph.L_GCN', BI + ':BiGraph.L_GCN')],
  [], ['A', 'B', 'D_v_in', 'D_v_out', 'D_u', 'D_v', 'L_GCN', 'deg_*'])
p('P09', 'Matrices of hypergraphs satisfy their defining formulas, per group and overall',
  'For every hypergraph and each of its groups the incidence matrix has a one exactly where the vertex lies in the hyperedge, columns follow the reported hyperedge order, hyperedge degrees count member vertices, vertex degrees sum the weights of incident hyperedges, inverses are zero at zero degree, the HGNN matrix is Dv^-1/2 H W De^-1 H^T Dv^-1/2, the symmetric Laplacian is I minus it and the random-walk Laplacian is I - Dv^-1 H W De^-1 H^T. '
  'Overall matrices concatenate groups in group order, with vertex degrees summed over groups.',
  ['inputs'], 'all hypergraphs with any number of groups, hyperedges, weights',
  'Tests compare a few fixed or random hypergraphs, mostly with one or two groups.',
  [H, B], [('_fetch_H_of_group', B + ':BaseHypergraph._fetch_H_of_group'), ('H/H_T', H + ':Hypergraph.H'), ('W_e', H + ':Hypergraph.W_e'), ('D_v', H + ':Hypergraph.D_v_of_group'), ('D_e', H + ':Hypergraph.D_e_of_group'), ('L_HGNN', H + ':Hypergraph.L_HGNN'), ('L_sym', H + ':Hypergraph.L_sym'), ('L_rw', H + ':Hypergraph.L_rw')],
  [], ['H', 'H_T', 'W_e', 'D_v', 'D_e', 'L_HGNN', 'L_sym', 'L_rw', '*_of_group'])
p('P10', 'Message passing on graphs aggregates exactly over neighbours',
  'Message passing on a simple, directed or bipartite graph gives each target vertex the aggregation of the features of exactly its in-neighbours along existing edges: the weighted sum for sum, the weighted sum divided by the total weight for mean, and the softmax-of-weights weighted sum for softmax-then-sum, using stored weights by default or caller-supplied per-edge weights aligned with the reported edge order. '
  'Vertices without incoming messages receive zero, and the graph is unchanged.',
  ['inputs'], 'all graphs, feature matrices, aggregation names, directions, default or custom edge weights',
  'Tests check a few random graphs and not every combination of aggregation and custom weight.',
  [G, D, BI], [('Graph.v2v', G + ':Graph.v2v'), ('DiGraph.v2v', D + ':DiGraph.v2v'), ('BiGraph.u2v', BI + ':BiGraph.u2v'), ('BiGraph.v2u', BI + ':BiGraph.v2u')],
  [], ['v2v', 'u2v', 'v2u'])
p('P11', 'Message passing on hypergraphs aggregates exactly over incidences',
  'Vertex-to-hyperedge and hyperedge-to-vertex message passing, overall or within one group, aggregates over exactly the existing incidences: the weighted sum for sum, divided by the total incidence (respectively weighted degree) normaliser for mean, softmax-weighted for softmax-then-sum, with caller-supplied incidence weights aligned with the reported incidence order. '
  'Hyperedge features are then scaled by the stored or supplied hyperedge weights, and the vertex-to-vertex operation is the composition of the two steps with their own aggregation settings.',
  ['inputs'], 'all hypergraphs, groups, feature matrices, aggregation names and custom weights',
  'Tests check a few random hypergraphs and not every combination.',
  [H], [('v2e_aggregation', H + ':Hypergraph.v2e_aggregation'), ('v2e_update', H + ':Hypergraph.v2e_update'), ('e2v_aggregation', H + ':Hypergraph.e2v_aggregation'), ('v2v', H + ':Hypergraph.v2v')],
  [], ['v2e', 'e2v', 'v2v', '*_of_group'])
p('P12', 'Degree and neighbour queries agree with the edges',
  'For every structure and vertex or hyperedge, the neighbour queries return exactly the vertices (or hyperedges) adjacent to it, each once, in the direction asked for, per group and overall with hyperedges numbered consistently with the reported hyperedge order; k-hop neighbour queries on graphs return exactly the vertices reachable by a walk of exactly that length. '
  'Degree lists are the sums of the corresponding edge weights in index order.',
  ['inputs'], 'all structures, all vertices, hyperedges, groups and hop counts',
  'Tests query a few vertices of fixed structures.',
  [G, D, BI, H], [('Graph.N_v', G + ':Graph.N_v'), ('DiGraph.N_v_in', D + ':DiGraph.N_v_in'), ('BiGraph.N_v', BI + ':BiGraph.N_v'), ('Hypergraph.N_e', H + ':Hypergraph.N_e'), ('Hypergraph.N_v', H + ':Hypergraph.N_v')],
  [], ['nbr_v', 'nbr_u', 'nbr_e', 'nbr_v_in', 'nbr_v_out', 'deg_*'])
p('P13', 'Conversions between structures preserve the relation they encode',
  'Star expansion of a hypergraph links each vertex to a node for each hyperedge containing it and to nothing else, clique expansion links exactly the vertex pairs sharing a hyperedge (weighted by how many), the bipartite conversion links exactly incident pairs and converting back recovers the hyperedges, and building from a graph makes each edge a hyperedge with its weight. '
  'Building from k-hop neighbourhoods gives each vertex together with the vertices reachable within k hops (or by a walk of exactly k steps), building from features gives each vertex its k nearest, and building from adjacency lists gives exactly the listed edges.',
  ['inputs'], 'all hypergraphs, graphs, feature matrices, adjacency lists, option settings',
  'Tests convert a few fixed structures.',
  [G, D, BI, H], [('from_hypergraph_star', G + ':Graph.from_hypergraph_star'), ('from_hypergraph_clique', G + ':Graph.from_hypergraph_clique'), ('from_hypergraph_hypergcn', G + ':Graph.from_hypergraph_hypergcn'), ('BiGraph.from_hypergraph', BI + ':BiGraph.from_hypergraph'), ('from_bigraph', H + ':Hypergraph._e_list_from_bigraph'), ('kHop', H + ':Hypergraph._e_list_from_graph_kHop'), ('kNN', H + ':Hypergraph._e_list_from_feature_kNN'), ('from_adj_list', G + ':Graph.from_adj_list')],
  [], ['from_* constructors', 'add_hyperedges_from_*'])
p('P14', 'Subgraphs and edge dropping keep only what they should',
  'Dropping edges or hyperedges at any rate returns a structure whose edges are a subset of the original with unchanged weights, vertices and self-loop settings (all of them at rate zero, none at rate one, other groups untouched when one group is dropped), and leaves the original unchanged. '
  'A sub-hypergraph on a vertex set relabels those vertices consecutively in ascending order and contains exactly the traces of the original hyperedges on that set, with their weights and the vertex weights, per group, omitting hyperedges that become empty (or single-vertex when asked); hyperedges that become identical are merged, not silently lost.',
  ['inputs', 'histories'], 'all structures, drop rates, random draws, vertex subsets',
  'Tests use fixed subsets and check sizes statistically.',
  [B, G, D, BI, H], [('subgraph', B + ':BaseHypergraph.subgraph'), ('_subgraph_filter_hyperedge', B + ':BaseHypergraph._subgraph_filter_hyperedge'), ('drop_edges', G + ':Graph.drop_edges'), ('drop_hyperedges', H + ':Hypergraph.drop_hyperedges'), ('drop_hyperedges_of_group', H + ':Hypergraph.drop_hyperedges_of_group')],
  [], ['subgraph', 'drop_edges', 'drop_hyperedges', 'drop_hyperedges_of_group'])
p('P15', 'Random generators only return valid structures of the requested size',
  'For every admissible parameter choice and every sequence of random draws, a generated graph, directed graph, bipartite graph or hypergraph has the requested vertex count and is simple: no self-loops, no repeated edges, endpoints in range, uniform hyperedges of exactly the requested size. '
  'Fixed-count generators return exactly the requested number of edges, and probability generators return no edges at probability zero and all possible edges at probability one.',
  ['inputs', 'configurations'], 'all parameters and all outcomes of the random source',
  'Tests sample a few parameter values with one random outcome each.',
  ['dhg/random/graphs/graph.py', 'dhg/random/graphs/directed_graph.py', 'dhg/random/graphs/bipartite_graph.py', 'dhg/random/hypergraphs/hypergraph.py', 'dhg/utils/math.py'],
  [('Gnp/Gnm', 'dhg/random/graphs/graph.py:graph_Gnm'), ('digraph', 'dhg/random/graphs/directed_graph.py:digraph_Gnm'), ('bigraph', 'dhg/random/graphs/bipartite_graph.py:bigraph_Gnm'), ('hypergraph', 'dhg/random/hypergraphs/hypergraph.py:hypergraph_Gnm')], [], ['returned structure'])
p('P16', 'Edge-list, adjacency-list and relabelling utilities are faithful',
  'Converting an edge list to adjacency form keeps every (source, target) pair with its multiplicity and order per source, and converting back yields the same pairs. '
  'Relabelling replaces each distinct raw label consistently, across all supplied lists, by a distinct integer, the integers being exactly 0..n-1 in the sorted order of the labels as text (separately per side for bipartite data), preserves shape and order of the lists, and returns the map actually used.',
  ['inputs'], 'all edge and adjacency lists of any length, any labels, bipartite or not, single or several lists',
  'Tests use a few fixed lists.',
  ['dhg/utils/structure.py'], [('edge_list_to_adj_dict', 'dhg/utils/structure.py:edge_list_to_adj_dict'), ('adj_list_to_edge_list', 'dhg/utils/structure.py:adj_list_to_edge_list'), ('remap_edge_list', 'dhg/utils/structure.py:remap_edge_list'), ('remap_adj_list', 'dhg/utils/structure.py:remap_adj_list')], [], ['returned lists and maps'])
p('P17', 'Dataset splits are disjoint and have the requested sizes',
  'For every labelling and every random outcome, a split by number or by ratio returns train, validation and test masks that are pairwise disjoint, contain per class exactly the requested number (or the floor of the requested fraction) of vertices, limited by what the class has left, and together cover every vertex when no test size is given. '
  'Splitting a user-item graph partitions the neighbours of each user into train and test parts of the requested sizes, with no item in both and none lost.',
  ['inputs', 'configurations'], 'all label vectors, sizes, ratios, graphs and random outcomes',
  'Tests check a couple of sizes on one labelling.',
  ['dhg/utils/dataset_split.py'], [('split_by_num', 'dhg/utils/dataset_split.py:split_by_num'), ('split_by_ratio', 'dhg/utils/dataset_split.py:split_by_ratio'), ('UI splits', 'dhg/utils/dataset_split.py:split_by_num_for_UI_bigraph')], [], ['masks', 'adjacency lists'])
p('P18', 'User-item samples and masks are correct',
  'In training, every sample drawn from a user-item dataset is a (user, positive, negative) triple where the positive item is a recorded interaction of that user and the negative item is in range and is never one. '
  'In testing, the sample for a user masks exactly the items of the training interactions of that user with minus infinity and marks exactly the recorded test interactions with one; the dataset length is the number of interactions in training and of users in testing.',
  ['inputs', 'configurations'], 'all interaction lists, users, indices and random outcomes',
  'Tests iterate one small dataset with one random outcome.',
  ['dhg/utils/dataset_wrapers.py', 'dhg/utils/structure.py'], [('sample_neg_item', 'dhg/utils/dataset_wrapers.py:UserItemDataset.sample_neg_item'), ('sample_triplet', 'dhg/utils/dataset_wrapers.py:UserItemDataset.sample_triplet'), ('__getitem__', 'dhg/utils/dataset_wrapers.py:UserItemDataset.__getitem__')], [], ['dataset[i]', 'len(dataset)'])
p('P19', 'Ranking metrics equal their definitions',
  'For every batch of binary relevance rows (graded for NDCG) and prediction scores without ties, with any cut-off k or ratio, precision, recall and NDCG equal hits-in-top-k over k, hits-in-top-k over the number of relevant items, and the discounted gain of the top k over that of the ideal top k, with zero where nothing is relevant; results lie in [0, 1]. '
  'Mean average precision, mean reciprocal rank and the precision-recall curve equal their documented definitions, the batch result is the list of per-row values, and otherwise the mean over rows is returned.',
  ['inputs'], 'all batches, sizes, scores, relevance values, cut-offs',
  'Tests compare a few random batches with one reference implementation, for few cut-offs.',
  ['dhg/metrics/retrieval.py', 'dhg/metrics/recommender.py'], [('retrieval metrics', 'dhg/metrics/retrieval.py:precision'), ('recommender metrics', 'dhg/metrics/recommender.py:precision'), ('ap/map', 'dhg/metrics/retrieval.py:ap'), ('rr/mrr', 'dhg/metrics/retrieval.py:rr'), ('_pr_curve', 'dhg/metrics/retrieval.py:_pr_curve')], [], ['metric values'])
p('P20', 'Evaluators report the mean over all samples of exactly one epoch',
  'Whatever way the samples of an epoch are divided into batches, the epoch result of an evaluator for each configured metric equals the mean of the per-sample metric over all samples added since the previous epoch result, and no sample is counted in two epochs or lost. '
  'Each result is labelled with its metric and parameters, validation uses the selected metric, parameters given in the configuration are applied, and results already handed out are not altered by later epochs.',
  ['histories', 'inputs'], 'all sequences of batches, batch sizes and epochs, all metric configurations',
  'Tests use equal batches and a single epoch.',
  ['dhg/metrics/base.py'], [('validate_add_batch', 'dhg/metrics/base.py:BaseEvaluator.validate_add_batch'), ('validate_epoch_res', 'dhg/metrics/base.py:BaseEvaluator.validate_epoch_res'), ('test_add_batch', 'dhg/metrics/base.py:BaseEvaluator.test_add_batch'), ('test_epoch_res', 'dhg/metrics/base.py:BaseEvaluator.test_epoch_res'), ('format_metric_configs', 'dhg/metrics/base.py:format_metric_configs')], [('accumulated batch results', 'per metric list of batch arrays', 'dhg/metrics/base.py:BaseEvaluator.__init__')], ['validate_epoch_res', 'test_epoch_res', 'validate', 'test'])
p('P21', 'Convolution layers compute their published propagation rule',
  'In evaluation mode every graph and hypergraph convolution layer equals its rule for all inputs, structures and parameters: a linear map of the features, then the propagation of that layer (GCN and HGNN smoothing matrix, JHConv with the input added; mean aggregation for GraphSAGE, HGNN+ and HNHN; attention-softmax aggregation for GAT and UniGAT; the vertex itself weighted by 1+eps plus the sum over its neighbours or hyperedges for GIN and UniGIN; degree-normalised sum for UniGCN; residual sum for UniSAGE; expansion-graph smoothing for HyperGCN), then, unless it is the last layer, activation and optional batch normalisation. '
  'The last-layer, bias, batch-norm and aggregation options select exactly what they name, and multi-head wrappers combine heads by the selected readout.',
  ['inputs', 'configurations'], 'all structures, features, parameters and option settings',
  'Tests check output shapes of the layers only.',
  ['dhg/nn/convs/graphs', 'dhg/nn/convs/hypergraphs', 'dhg/nn/convs/common.py'], [('GCNConv', 'dhg/nn/convs/graphs/gcn_conv.py:GCNConv.forward'), ('HGNNConv', 'dhg/nn/convs/hypergraphs/hgnn_conv.py:HGNNConv.forward'), ('UniGNN convs', 'dhg/nn/convs/hypergraphs/unignn_conv.py:UniGCNConv.forward'), ('MultiHeadWrapper', 'dhg/nn/convs/common.py:MultiHeadWrapper.forward')], [], ['layer(X, structure)'])
p('P22', 'Recommender losses and embedding models equal their definitions',
  'The Bayesian personalised ranking loss is the mean of minus log sigmoid of (alpha * positive - beta * negative score) in both of its formulations, and the embedding regulariser is the weight decay times the sum over embeddings of the mean over rows of the p-th power sum divided by p. '
  'LightGCN returns, for users and items separately and in order, the mean over all layers (input included) of repeated propagation with the user-item GCN matrix; NGCF and the hypergraph recommender combine their layers likewise, and the stacked models (classification and bipartite) apply their layers in order with dropout only where configured.',
  ['inputs', 'configurations'], 'all scores, embeddings, graphs, layer counts and parameters',
  'Tests check shapes and a couple of values.',
  ['dhg/nn/loss.py', 'dhg/nn/regularization.py', 'dhg/models/graphs', 'dhg/models/hypergraphs'], [('BPRLoss', 'dhg/nn/loss.py:BPRLoss.forward'), ('EmbeddingRegularization', 'dhg/nn/regularization.py:EmbeddingRegularization.forward'), ('LightGCN', 'dhg/models/graphs/lightgcn.py:LightGCN.forward'), ('NGCF', 'dhg/models/graphs/ngcf.py:NGCF.forward')], [], ['loss values', 'model outputs'])
p('P23', 'Data pipes and lazily loaded datasets return what they promise',
  'Composed pipes apply every pipe once, in order; feature normalisation divides each row by its norm (leaving zero rows zero) and min-max scaling maps the smallest and largest entry to the requested bounds linearly. '
  'A dataset item is loaded from its own files and preprocessed at most once, repeated access returns the same value, raw access returns the unprocessed value, and accessing one item never affects another.',
  ['inputs', 'histories'], 'all tensors, pipe lists, dataset contents and access sequences',
  'Tests run single calls on fixed inputs.',
  ['dhg/datapipe/common.py', 'dhg/datapipe/normalize.py', 'dhg/datapipe/loader.py', 'dhg/data/base.py'], [('compose_pipes', 'dhg/datapipe/common.py:compose_pipes'), ('norm_ft', 'dhg/datapipe/normalize.py:norm_ft'), ('min_max_scaler', 'dhg/datapipe/normalize.py:min_max_scaler'), ('BaseData.__getitem__', 'dhg/data/base.py:BaseData.__getitem__'), ('BaseData.raw', 'dhg/data/base.py:BaseData.raw')], [], ['data[key]', 'data.raw(key)'])
p('P24', 'A downloaded file is only ever used when its checksum matches',
  'Fetching a dataset file succeeds only if the file on disk has the expected checksum afterwards; an already present valid file is used without any network access; a file with a wrong checksum is never left behind as if valid and the failure is reported. '
  'Transient network errors are retried a bounded number of times and a failed primary source falls back to the backup source only for the official location.',
  ['fault_sequences', 'inputs'], 'all file contents, checksums, initial disk states and sequences of network outcomes',
  'Tests would need a network; corruption, partial failure and fallback paths are not exercised.',
  ['dhg/utils/download.py'], [('check_file', 'dhg/utils/download.py:check_file'), ('_retry', 'dhg/utils/download.py:_retry'), ('download_and_check', 'dhg/utils/download.py:download_and_check'), ('download_file', 'dhg/utils/download.py:download_file')], [], ['download_and_check', 'check_file'])
p('P25', 'An experiment keeps the model of its best validation epoch',
  'After training for any number of epochs with any sequence of validation scores, a trial reports the best score in the configured direction and stores the parameters the model had at the first epoch reaching it, not those of the last epoch. '
  'Every epoch trains before validating and reports its own score, a pruned trial stores nothing, and the task finally tests the stored model and structure of the best trial; training looks at the training part of the data only, validation at the validation part and the test at the test part, the latter two in evaluation mode.',
  ['histories', 'inputs'], 'all score sequences, epoch counts and both directions',
  'Tests train one model for a couple of epochs and look at no stored parameters.',
  ['dhg/experiments/base.py', 'dhg/experiments/vertex_classification.py', 'dhg/experiments/recommender.py'], [('BaseTask.experiment', 'dhg/experiments/base.py:BaseTask.experiment'), ('BaseTask.run', 'dhg/experiments/base.py:BaseTask.run')], [('best score and model', 'updated when an epoch improves', 'dhg/experiments/base.py:BaseTask.experiment')], ['returned score', 'saved model file'])
p('P26', 'Random dropout of sparse matrices keeps or zeroes entries, never moves them',
  'For every sparse matrix, drop rate and random outcome, sparse dropout returns a matrix of the same shape whose every stored entry is either the original entry at the same position or the fill value, changing nothing at rate zero and filling every entry at rate one, and leaves its input unchanged. '
  'Every propagation operation called with a positive drop rate uses such a thinned matrix and with rate zero uses the exact one.',
  ['inputs', 'configurations'], 'all sparse matrices, drop rates and random outcomes',
  'Tests check statistics of one matrix.',
  ['dhg/utils/sparse.py', G, BI, D, H], [('sparse_dropout', 'dhg/utils/sparse.py:sparse_dropout'), ('callers', G + ':Graph.v2v')], [], ['sparse_dropout', 'drop_rate arguments'])
p('P27', 'Seeding makes every random result reproducible',
  'After setting the same seed, any sequence of calls to the random generators, samplers, splits and dropout operations produces the same results again, in any process and however often it is repeated, and the seed reported is the seed that was set. ',
  ['histories', 'inputs'], 'all seeds and all sequences of random operations',
  'A relation between two runs over all call sequences; tests compare none.',
  ['dhg/random/_seed.py', 'dhg/random/graphs/graph.py', 'dhg/utils/dataset_split.py'], [('set_seed', 'dhg/random/_seed.py:set_seed'), ('seed', 'dhg/random/_seed.py:seed')], [], ['dhg.random.set_seed', 'dhg.random.seed'])
p('P28', 'Drawing arguments are expanded to one valid value per element',
  'For every structure and every scalar or per-element style argument, the sizes, colours, line widths and labels used for drawing are exactly one per vertex or edge in order, with scalars broadcast and per-element lists kept, and lists of a wrong length rejected. '
  'Computed layouts give one finite position per vertex inside the drawing area.',
  ['inputs'], 'all structures and style arguments',
  'Tests only check that drawing does not crash.',
  ['dhg/visualization/structure/defaults.py', 'dhg/visualization/structure/layout.py', 'dhg/visualization/structure/utils.py'], [('defaults', 'dhg/visualization/structure/defaults.py:default_style'), ('layout', 'dhg/visualization/structure/layout.py:force_layout')], [], ['default_style', 'force_layout'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        x['statement'] = x['statement'].strip()
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
