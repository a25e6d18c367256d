"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': [f[3:] if f.startswith('../') else 'onnx_tool/' + f for f in files],
                          'mechanism': [{'name': a, 'where': b} for a, b in mech], 'observe_at': observe, 'hook_needed': None}})


p('C01', 'Inferred shapes and types of arithmetic, reduction and matrix operators',
  'For every legal elementwise, broadcasting, comparison, logical, reduction, normalisation, quantise/dequantise and matrix-product node with concrete input shapes, '
  'shape inference gives every output exactly the shape and element type the ONNX operator specification defines, for every attribute setting, axis (negative or positive), keepdims, optional input and opset form. '
  'It answers for every such node rather than failing.',
  ['inputs', 'configurations'],
  'all nodes of the listed operator classes x all attribute combinations x all input shapes up to rank 4 over small dimensions, plus every axis and broadcasting pattern',
  'The tests run a few whole models and check almost no intermediate shapes; the attribute/axis/rank cross product is never visited.',
  ['node.py', 'tensor.py'],
  [('broadcast helper and pointwise nodes', 'onnx_tool/node.py:_broadcast_shape, NpMathBase'), ('reductions', 'onnx_tool/node.py:ReduceMeanNode.reduce'),
   ('matrix products', 'onnx_tool/node.py:GemmNode, MatMul'), ('dtype propagation', 'onnx_tool/tensor.py:Tensor.update_dtype')],
  ['Graph.shape_infer', 'Tensor.get_shape', 'Tensor.dtype'])

p('C02', 'Inferred shapes of convolution, pooling, transposed convolution and resize',
  'For every legal convolution, quantised convolution, pooling, transposed-convolution and resize node, shape inference gives exactly the output shape that counting window placements (or applying the ONNX scale/size rule) gives, '
  'for every combination of kernel, stride, dilation, explicit padding, automatic padding, ceil mode, group, output padding, output shape, scales, sizes and axes in one, two and three spatial dimensions.',
  ['inputs', 'configurations'],
  'all attribute combinations over small ranges x all spatial sizes over small ranges x 1 to 3 spatial dimensions',
  'Sampled models use a handful of square kernels; off-by-one errors in one padding side, dilation, ceil mode or one spatial axis are invisible there.',
  ['node.py'],
  [('window arithmetic', 'onnx_tool/node.py:_conv_output_shape,_pooling_shape_calc,_auto_pad_*'), ('transposed convolution', 'onnx_tool/node.py:ConvTransposeNode'),
   ('resize/upsample', 'onnx_tool/node.py:ResizeNode')],
  ['Graph.shape_infer', 'Tensor.get_shape'])

p('C03', 'Inferred shapes and types of data-movement, indexing and recurrent operators',
  'For every legal node that moves, selects, joins, splits, pads, repeats, gathers, scatters, generates or recurrently processes data (reshape, transpose, slice, concat, split, gather families, pad, tile, expand, squeeze, one-hot, '
  'range, where, space/depth conversions, recurrent layers and the like), shape inference gives every output exactly the shape and element type of the ONNX specification, including negative axes and indices, negative steps, defaulted or empty optional inputs and special size values.',
  ['inputs', 'configurations'],
  'all nodes of the listed classes x all attribute and index-tensor values over small ranges x all input shapes up to rank 4 over small dimensions',
  'Corner values (negative steps, clamped bounds, 0/-1 in reshape, repeated indices, uneven splits) do not occur in the sampled models.',
  ['node.py'],
  [('data-movement nodes', 'onnx_tool/node.py:ReshapeNode, SliceNode, GatherNode, ConcatNode, SplitNode, PadNode, TileNode, ExpandNode, ...'),
   ('recurrent nodes', 'onnx_tool/node.py:LSTMNode, GRUNode')],
  ['Graph.shape_infer', 'Tensor.get_shape', 'Tensor.dtype'])

p('C04', 'Evaluating a node gives the values the ONNX specification defines',
  'Whenever the tool evaluates a node on concrete data (constant folding, shape computation, value inference), every output has the exact shape, element type and values defined by the ONNX operator specification; '
  'an operator whose evaluation is not supported is refused with an error, and never answered with a wrong value.',
  ['inputs', 'configurations'],
  'all single-node programs of every operator family the tool implements x attribute settings x small input shapes with data containing signs, ties, fractions and zeros',
  'Tests never compare evaluated values with a reference; integer rounding, modulo sign, default attributes or tie handling only show on particular values.',
  ['node.py', 'graph.py'],
  [('value inference', 'onnx_tool/node.py:*.value_infer'), ('evaluation loop', 'onnx_tool/graph.py:Graph.value_infer')],
  ['Graph.value_infer', 'Tensor.numpy'])

p('C05', 'Reported MACs equal the arithmetic of the operator',
  'For every convolution (plain, grouped, quantised, integer, transposed), matrix product, generalised matrix product, tensor contraction, recurrent layer, pooling, reduction and elementwise node, the profiled multiply-accumulate count equals the count given by the operator definition on the inferred shapes: '
  'one per multiply-accumulate of the contraction, plus one per output element for a bias, one per window element for pooling and one per input element for reductions. '
  'Data-movement operators count zero. (Nodes whose results are rank-0 scalars are outside this statement: the tool counts scalar volumes as zero by convention.)',
  ['inputs', 'configurations'],
  'all attribute and shape combinations of the compute operators over small ranges',
  'Tests print tables but do not compare MAC numbers with an independent count; transposed/grouped/batched/1-D/3-D variants are not exercised.',
  ['node.py', 'graph.py'],
  [('per-node cost', 'onnx_tool/node.py:*._profile_core'), ('profile loop', 'onnx_tool/graph.py:Graph.profile')],
  ['Node.macs after Graph.profile'])

p('C06', 'Whole-graph shape inference equals the shapes of actual execution',
  'For every model built from supported operators, including models whose shapes are themselves computed in the graph (shape, gather, arithmetic, concat, slice, cast feeding reshape, expand, resize, slice, pad, tile, range, reductions), '
  'inferring shapes from concrete input shapes alone yields for every intermediate and output tensor the shape obtained by really executing the model, in whatever order the nodes appear among valid orders and with constant folding on or off.',
  ['programs', 'inputs'],
  'all programs of a small grammar of shape-computing chains and data paths up to a bounded number of nodes x small input shapes x folding on/off',
  'The sampled models contain a few exporter-produced chains; the space of chains, consumers and shared sub-chains is combinatorial.',
  ['graph.py', 'node.py'],
  [('selection of shape-computing nodes', 'onnx_tool/graph.py:Graph.__find_shape_tensors__'), ('inference loop', 'onnx_tool/graph.py:Graph.shape_infer')],
  ['Graph.shape_infer', 'Graph.tensormap'])

p('C07', 'Loading and saving a model preserves the model',
  'Loading any valid model (without model-local functions, sparse initialisers or training information) and saving it again yields a model that passes ONNX checking, has the same graph inputs and outputs (names, types, shapes), the same opset imports, the same operators with the same attributes, connections, domains and optional-input positions, and computes the same outputs on the same inputs. '
  'This holds with and without saved intermediate shapes, and a second round trip changes nothing.',
  ['programs', 'configurations'],
  'all models of a bounded space: attribute kinds, initialiser element types and encodings, optional inputs and outputs, unnamed or custom-domain nodes, graph wiring patterns, save options',
  'Tests save a few models and at most check that loading works; attribute kinds, encodings and wiring corner cases are not crossed.',
  ['graph.py', 'node.py', 'tensor.py', 'model.py'],
  [('export', 'onnx_tool/graph.py:Graph.make_graph_onnx, save_model'), ('node export', 'onnx_tool/node.py:Node.make_nodeproto'), ('tensor export', 'onnx_tool/tensor.py:Tensor.make_tensor_proto, make_value_proto')],
  ['Model.save_model', 'onnx.checker', 'ONNX reference execution'])

p('C08', 'Constant folding never changes what a model computes',
  'For every model and every mix of constant and dynamic inputs, the graph obtained by loading with constant folding computes exactly the same outputs as the original, removes only nodes all of whose inputs are constant, leaves every remaining node well connected, and keeps every graph output available. '
  'With folding off no node disappears.',
  ['programs', 'configurations'],
  'all wiring patterns up to a bounded number of nodes over a small operator set x all assignments of constant/dynamic to the inputs x folding on/off',
  'Tests load models whose constants form simple chains; partially constant diamonds, multi-output nodes and outputs that are themselves constant do not occur.',
  ['graph.py'],
  [('constant search', 'onnx_tool/graph.py:Graph.__constant_search__'), ('pruning', 'onnx_tool/graph.py:Graph.__update_nodes_tensors__')],
  ['Graph after loading', 'saved model execution'])

p('C09', 'Node reordering yields a valid order for every graph',
  'Reordering the nodes of any acyclic graph, whatever order its nodes were given in, yields an order that contains every node exactly once and places every producer before all of its consumers, and does not change connections or the computed function.',
  ['programs', 'schedules'],
  'all DAG wirings up to a bounded number of nodes x all permutations of node order, including repeated inputs and multi-output producers',
  'Tests reorder one or two already nearly sorted models.',
  ['graph.py'],
  [('Kahn sort', 'onnx_tool/graph.py:Graph.topsort_nodes'), ('reorder', 'onnx_tool/graph.py:Graph.graph_reorder_nodes')],
  ['Graph.graph_reorder_nodes', 'Graph.nodemap order'])

p('C10', 'The memory plan never lets two live tensors overlap',
  'For every graph and execution order, the activation memory plan gives every live tensor (graph inputs, intermediates, graph outputs) an aligned block at least as large as the tensor inside the reported total size, and two tensors whose lifetimes intersect never share bytes; '
  'lifetimes run from production (or start) to the last consumer, and to the end for graph outputs. The reported total never exceeds the sum of all padded sizes. (Rank-0 tensors occupy no planned memory by the tool\'s convention and are outside this statement.)',
  ['programs', 'configurations'],
  'all wirings up to a bounded number of nodes x all assignments of sizes from a size alphabet that forces splits, merges, best-fit ties and growth x padding sizes',
  'One or two real models exercise few alloc/free interleavings; block split/merge/growth corner cases depend on a particular history of sizes.',
  ['graph.py'],
  [('liveness and allocation', 'onnx_tool/graph.py:Graph.compress_memory')],
  ['Graph.compress_memory return value'])

p('C11', 'Extracting subgraphs preserves computation and accounts for every node',
  'For every graph and every choice of boundary tensors, splitting by boundary puts every node in exactly one of the three parts (before, between, after), and extracting any set of nodes gives a model whose inputs and outputs are the crossing tensors and graph outputs (results of extracted nodes that nobody uses may be listed as outputs too); '
  'running the parts in order reproduces the outputs of the whole model.',
  ['programs', 'inputs'],
  'all wirings up to a bounded number of nodes x all boundary choices / node subsets',
  'Tests cut one or two known models at hand-picked places.',
  ['graph.py', 'utils.py', '__init__.py'],
  [('partition', 'onnx_tool/graph.py:Graph.__get_subnodes_byio__'), ('boundary computation', 'onnx_tool/graph.py:Graph.get_iotensors'), ('extraction', 'onnx_tool/graph.py:Graph.get_onnxgraph_by_nodenames, get_subgraph')],
  ['Graph.get_subgraph', 'Graph.get_onnxgraph_by_nodenames', 'Graph.get_iotensors'])

p('C12', 'Fusion pattern search returns exactly the matching, safely fusible node groups',
  'For every graph and every pattern, each group of nodes the pattern search reports matches the described operator types, attributes and connections node for node, groups do not share nodes, fusing the reported groups cannot create a cycle, in in-place mode no result passed inside a group is visible outside it, a description derived from a node set names exactly the connections among these nodes, and every occurrence that is disjoint from and jointly acyclic with the groups found earlier in scan order is found.',
  ['programs', 'configurations'],
  'all graphs up to a bounded number of nodes over a small operator set x a family of chain, branch and attribute patterns',
  'Tests run fixed patterns on a few networks and look at counts at most.',
  ['fusion.py'],
  [('node matching', 'onnx_tool/fusion.py:NodeDesc'), ('pattern search', 'onnx_tool/fusion.py:FusionPattern.search_pattern')],
  ['FusionPattern.search_pattern'])

p('C13', 'Fusing nodes keeps the graph connected and the model equivalent',
  'Replacing any reported or chosen group of nodes (convex: no path leaves the group and returns) by one fused node gives the fused node exactly the group\'s external inputs and outputs (results nobody uses may stay as extra outputs), keeps all other nodes, the graph inputs and outputs and the producer/consumer relations intact, and keeps all information needed to recover the operators and attributes; '
  'fusing by boundary tensors fuses exactly the nodes between them; post-operation fusion leaves the main node\'s inputs and outputs in their positions; folding batch normalisation into a convolution keeps the computed function.',
  ['programs', 'histories'],
  'all graphs up to a bounded number of nodes x all connected groups, post-op chains and convolution/normalisation variants',
  'Tests fuse one pattern in a few networks and only re-run inference.',
  ['graph.py', 'fusion.py'],
  [('group fusion', 'onnx_tool/graph.py:Graph.fuse_subgraph_node_names'), ('post-op fusion', 'onnx_tool/graph.py:Graph.fuse_postop_node_names'), ('convolution/batch-norm folding', 'onnx_tool/fusion.py:ConvBNFusion')],
  ['Graph after fusion', 'execution of the saved model'])

p('C14', 'Any sequence of graph edits leaves the graph consistent',
  'After any sequence of node removals, node skips, dangling-node removals, subtree removals, reorders, initialiser additions and reloads, the producer and consumer relations agree with the nodes\' inputs and outputs, every node and tensor mentioned exists, graph outputs are still produced, and skipping a node with one non-constant input and one output rewires all of its consumers to that input (any other node is left as it is).',
  ['histories', 'programs'],
  'breadth-first search over all edit sequences up to a bounded depth from a set of small graphs',
  'Tests perform one edit on one model; stale relations only show after a second, dependent edit.',
  ['graph.py'],
  [('edits', 'onnx_tool/graph.py:Graph.remove_node, skip_node, remove_subtree, remove_dangling_nodes, add_initial'), ('relation rebuild', 'onnx_tool/graph.py:Graph.update_tensor_relations')],
  ['Graph.nodemap', 'Graph.producedby', 'Graph.consumedby', 'Graph.input', 'Graph.output'])

p('C15', 'The dynamic-shape engine predicts the shapes inference would give',
  'For every model whose tensor dimensions are each an integer linear function, or the floor or ceiling of a division (overall divisor at most 16), of one declared input variable or one earlier dimension, the engine built from ranges of the variables that span several periods of the divisions predicts, for every value of the variables in range, the same shapes for all tensors as running shape inference at that value, whatever value was queried before.',
  ['programs', 'inputs'],
  'all models from a small family of convolution, pooling, resize, concat, slice and reshape stacks x one or two variables x all values within range',
  'Tests build one engine and query at a few points, without comparing every tensor with real inference.',
  ['graph.py'],
  [('expression fit', 'onnx_tool/graph.py:ValueExpr'), ('engine', 'onnx_tool/graph.py:ShapeEngine, Graph.shape_regress')],
  ['ShapeEngine.get_tensorshape'])

p('C16', 'The compute graph keeps exactly the real computation',
  'The compute graph derived from a model drops only nodes that serve shape computation, keeps every other node with its connections, keeps the graph inputs and outputs, and, given the shapes already inferred, computes the same outputs; deriving it does not damage the graph it was derived from.',
  ['programs'],
  'all models of the shape-chain grammar up to a bounded number of nodes',
  'Tests build it for a few networks and only save it.',
  ['graph.py'],
  [('derivation', 'onnx_tool/graph.py:Graph.get_compute_graph')],
  ['Graph.get_compute_graph'])

p('C17', 'Profile totals, tables and exclusions are consistent',
  'For every model, the totals of MACs, parameters and memory equal the sums over the profiled nodes, parameters of a node equal the elements of its constant inputs (each input position counted, rank-0 constants counting zero), the de-duplicated total counts every constant used by a profiled node exactly once, excluded operator types contribute nothing and nothing else is excluded; '
  'the printed and CSV tables list every profiled node once with those same numbers, and the FLOPs metric is exactly twice the MACs.',
  ['programs', 'configurations'],
  'all small graphs with shared, repeated and unused constants x all exclusion sets x output formats x metrics',
  'Tests print profiles without checking sums, sharing or exclusions.',
  ['graph.py', 'utils.py', 'model.py', '__init__.py'],
  [('profile', 'onnx_tool/graph.py:Graph.profile'), ('table', 'onnx_tool/graph.py:Graph.print_node_map'), ('number formatting', 'onnx_tool/utils.py:num2str, print_table')],
  ['Graph.macs/params/memory/dedup_params', 'CSV file contents'])

p('C18', 'Results do not depend on what was analysed before',
  'Loading, inferring, profiling, saving, fusing or exporting one model, with any options, never changes the result of analysing another model or of repeating the same analysis: the same call on the same input gives the same answer in a fresh process and after any history of other calls, and inputs passed by the caller are not modified.',
  ['histories'],
  'all sequences up to a bounded length of API calls from an alphabet (load, infer with different input shapes, profile with and without exclusions, build a language model, fuse, save) on a few models',
  'Every test runs a single call per model; leaked module-level or shared state shows only for particular call sequences.',
  ['__init__.py', 'graph.py', 'llm.py', 'utils.py', 'node.py'],
  [('module-level configuration tables', 'onnx_tool/llm.py:ArchMap, onnx_tool/__init__.py:model_profile'), ('per-node cached attributes', 'onnx_tool/node.py')],
  ['all public entry points'])

p('C19', 'Weight quantisation bounds the error and packing is lossless',
  'For every finite two-dimensional float32 or float64 weight, every width from 2 bits, symmetric or asymmetric mode and tensor/row/block granularity, quantising then dequantising changes no value by more than half a quantisation step of its group plus rounding noise, produces only integers in the range of the bit width and finite scales, '
  'with zero points inside that range, also for zero and constant groups; packing 4-bit integers, signed or unsigned, with any row length, loses none of them (low nibble first).',
  ['inputs', 'configurations'],
  'all small weight tensors over a value alphabet (zero, equal, single-sign, mixed, outlier groups) x bit widths x modes x granularities',
  'Tests quantise one model and look at nothing but that it runs; zero or constant channels and saturating codes are corner values.',
  ['quantization.py'],
  [('quantisers', 'onnx_tool/quantization.py'), ('packing', 'onnx_tool/quantization.py:pack_4bits')],
  ['quantize_* functions'])

p('C20', 'Quantising a graph preserves its function up to rounding',
  'Quantising the weights of a model replaces each float matrix weight, in place in the input list of every node that reads it, by integer data, scales and, in asymmetric mode, zero points, and marks every such node with the setting. Putting the dequantised data back into the saved model gives the original model, node for node, with no weight value changed by more than half a quantisation step of its group: nothing else changes. A weight that cannot be treated like that (not a float matrix, unused, a graph output, read by a conditional body, read in two layouts) is left as it was, and the producer/consumer tables of the graph stay correct.',
  ['programs', 'configurations'],
  'all small models with shared, transposed, non-constant and multiply consumed weights x all quantisation settings',
  'Tests quantise a single model without executing the result.',
  ['quantization.py', 'graph.py'],
  [('graph rewrite', 'onnx_tool/quantization.py:graph_quantize')],
  ['saved model read back'])

p('C21', 'The binary model format is self-consistent and complete',
  'Serialising a graph, a shape engine or a memory plan to its compact binary file writes data from which an independent reader of the layout recovers everything exactly: all nodes in order with names, types, inputs, outputs and attributes, all constants with type, shape and data; all variables, shape descriptions and expressions of an engine, giving the same shapes as the engine for every value; every block and size of a memory plan. Content the format cannot hold (other attribute kinds, integers beyond 32 bits, element types outside its table, embedded terminators) is refused with an error, leaving an existing file as it was, rather than written wrongly.',
  ['programs', 'inputs'],
  'all graphs of a bounded space crossing attribute kinds and values, element types, tensor ranks and wiring',
  'Tests only write files.',
  ['serialization.py'],
  [('writers', 'onnx_tool/serialization.py')],
  ['serialised bytes'])

p('C22', 'Branch selection, fixed top-k and dangling removal keep the selected computation',
  'Resolving conditional nodes to a fixed branch yields a valid graph without them, with the same outputs, that computes what the model computes when every condition takes that branch; fixing k makes every top-k node return k entries and nothing else changes. Nodes that only computed a condition or a k are gone, shared ones stay, and producer/consumer tables, node order and inferred shapes are right. '
  'Removing dangling nodes removes exactly the nodes from which no graph output is reachable.',
  ['programs', 'configurations'],
  'all small models with conditionals, shared condition producers, branches using outer values, top-k nodes and unreachable subgraphs',
  'No test model has conditionals with shared conditions or partially dead regions.',
  ['graph.py'],
  [('branch resolution', 'onnx_tool/graph.py:Graph.__remove_if__'), ('fixed k', 'onnx_tool/graph.py:Graph.__set_fixed_topk'), ('dangling removal', 'onnx_tool/graph.py:Graph.remove_dangling_nodes')],
  ['loaded graph', 'saved model execution'])

p('C23', 'Language-model graphs: shapes, parameters, MACs and latency follow the config',
  'For every language-model configuration (architecture family, sizes, grouped heads, explicit head size, gating, biases, fused projections, hybrid linear-attention layers, experts, latent attention, rotary or learned positions, soft-capping), with or without a key/value cache, the built graph has exactly the weights, and the projection, attention, expert and feed-forward MACs, that the architecture definition gives for its batch, sequence and past length, also after it is re-inferred at others; every declared tensor shape agrees with the connected operators, and attention and normalisation nodes carry the configured head counts, capping and epsilon; the vision encoder likewise. '
  'The projected latency of each node is the larger of its compute time and its memory time on the given device and precision (plus link time), with totals equal to sums, and the printed table shows these numbers in the units it names.',
  ['configurations', 'inputs'],
  'all combinations of architecture family x flags x small sizes x sequence/batch/cache lengths x device and precision settings',
  'Tests build a few published configurations and print them.',
  ['llm.py', 'node.py', 'device.py'],
  [('builder', 'onnx_tool/llm.py:Builder'), ('attention cost', 'onnx_tool/node.py:SDPANode'), ('latency model', 'onnx_tool/llm.py:Builder.profile')],
  ['Builder.graph', 'Builder.llm_profile'])

p('C24', 'Model-level utilities do exactly what they are asked',
  'The model-level operations (profiling with a saved report and a saved model, export of initialiser values, input/output shape modification, sub-model extraction, fusion, reordering, constant folding, shape regression, dumping of inner tensors) do what is asked and nothing else, from a model given as object, path string or path: '
  'the report and the saved files are exactly those asked for; a saved model is valid, keeps nodes, attributes, operator sets, initialisers, inputs and outputs of the source except for what was requested, gives the same results, and every shape it records is the actual one; modified inputs and outputs have exactly the requested shapes; every requested initialiser is exported with its exact values (halved only in precision when asked), '
  'none is lost when names contain slashes; the model and the arguments passed by the caller are not modified. The command line gives the same as the library call for the same request, understands inputs of any numeric data type, shape and data, and reports an invalid request instead of writing a file.',
  ['programs', 'configurations'],
  'all combinations of options of each utility and of the command line on small models (ONNX models below 2 GB without conditionals for the operations that infer shapes)',
  'Each utility is called at most once by the tests, with one option set.',
  ['__init__.py', '__main__.py', 'utils.py', 'graph.py'],
  [('utilities', 'onnx_tool/__init__.py'), ('front end', 'onnx_tool/__main__.py')],
  ['saved files'])

p('C25', 'The sparsity report is truthful',
  'For every weight initialiser the sparsity analysis covers (rank 2 or 4, more than 4096 elements, floating-point, int8, int32 or uint8, whose zero is 128), the reported zero ratio is the exact fraction of zero elements; above a zero ratio of 0.4 the reported block size and block ratio describe blocks of that size that really tile the weight and are really all-zero in that proportion, and no larger power-of-two block that stays within the tolerance at every doubling is missed. The printed table shows the same numbers.',
  ['inputs'],
  'all zero/non-zero masks of small matrices and convolution kernels',
  'Tests profile one pruned model and print the table.',
  ['tensor.py'],
  [('sparsity search', 'onnx_tool/tensor.py:search_sparse_blocksize and friends')],
  ['Tensor.sparsity'])

p('C26', 'Tensor import and export is lossless for every element type and encoding',
  'Reading any constant tensor, in any element type and any of the encodings the format allows (raw bytes or typed fields, any rank including scalars and empty), yields exactly its values, type and shape; writing it back yields a tensor that decodes to the same; element sizes used for memory accounting match the type.',
  ['inputs', 'configurations'],
  'all element types x encodings x ranks 0 to 3 x boundary values of each type',
  'Test models contain raw-encoded float32 and int64 tensors only.',
  ['tensor.py'],
  [('decoder', 'onnx_tool/tensor.py:tensorproto2ndarray'), ('encoder', 'onnx_tool/tensor.py:Tensor.make_tensor_proto'), ('element size', 'onnx_tool/tensor.py:Tensor.get_elementsize')],
  ['Tensor.numpy', 'Tensor.make_tensor_proto'])

p('C27', 'Evaluating a whole graph gives what executing the model gives',
  'For every model whose operators the tool can evaluate, evaluating the graph on given inputs returns, for every graph output in order, the values and element type that executing the model on those inputs gives, and leaves every inner tensor with its executed value and shape: '
  'whatever the wiring (results, inputs, initialisers or repeated tensors as outputs, tensors read twice, several results, omitted operands), with constant folding on or off, after shape inference, reordering or added dump tensors, and for every further evaluation with other values and other shapes. Weights, the arrays the caller passes and results returned earlier are not modified.',
  ['programs', 'inputs', 'histories'],
  'all small programs and wirings x folding x sequences of two or three evaluations (operators declined as not implemented excluded; default values of inputs are overridden only without folding)',
  'Tests never compare the values of an evaluated graph with an execution.',
  ['graph.py', 'node.py', 'tensor.py'],
  [('evaluation', 'onnx_tool/graph.py:Graph.value_infer'), ('tensor state', 'onnx_tool/tensor.py:Tensor.update_tensor')],
  ['Graph.value_infer', 'Graph.tensormap'])

p('C28', 'Operators registered by the user are treated like built-in ones',
  'A node type the user registers (a class deriving from Node, implementing shape inference, value inference, MAC counting or all of them), in the default or a custom domain, is used for every node of that type in graphs loaded afterwards: a graph in which any subset of nodes is replaced by registered twins of their built-in operators gets the same shapes, values, folding, MACs and totals as the built-in graph, also when re-inferred at other shapes; '
  'registering, overriding or restoring a type affects only that type and only graphs loaded later; an operator type nobody registered is refused, not silently given a shape.',
  ['programs', 'histories', 'configurations'],
  'all subsets of nodes of a set of programs x ways to implement and register a type, and all short registration histories (classes deriving from a built-in base that the tool recognises by type are excluded)',
  'Tests register no operator at all.',
  ['node.py', 'utils.py', 'graph.py'],
  [('registry', 'onnx_tool/utils.py:Registry'), ('node creation', 'onnx_tool/node.py:create_node')],
  ['NODE_REGISTRY', 'loaded graph'])

p('C29', 'The inference engine computes the model at every shape and in any call order',
  'For every model whose operators have a kernel, a GraphInfer built once (load with folding, shape regression, compute graph, memory plan, memory pool) returns, for every sequence of calls with inputs whose shapes lie in the declared ranges, exactly the output names, shapes and values (up to float32 rounding) the ONNX model defines for that call, whatever calls came before, in whatever order inputs are fed and whichever input carries which shape variable; '
  'it does not modify the inputs. A MemoryPool gives every tensor exactly its planned block, as a view of the requested shape and type, refuses a request larger than the block and refuses a plan outside the pool. (Not covered: Resize, fused operators other than those of language models, element types the float32 pool cannot hold.)',
  ['programs', 'inputs', 'histories', 'configurations'],
  'all wirings of few nodes, networks with one or two shape variables and the attribute space of every kernel x walks over every ordered pair of shapes in range with changing data x all small pool plans and accesses',
  'The repository has no test of the engine that runs without downloaded models; aliasing of planned memory and stale shapes show only at particular sequences of shapes.',
  ['../inference/infer.py', '../inference/kernels.py', '../inference/memory_pool.py', 'graph.py', 'shape_engine.py'],
  [('engine', 'inference/infer.py:GraphInfer'), ('kernels', 'inference/kernels.py:KernelRegistry'), ('pool', 'inference/memory_pool.py:MemoryPool'),
   ('plan', 'onnx_tool/graph.py:Graph.compress_memory'), ('compute graph and shape engine', 'onnx_tool/graph.py:Graph.get_compute_graph, Graph.shape_regress')],
  ['GraphInfer.forward', 'MemoryPool.get'])

p('C30', 'A language model built from its configuration generates its own definition',
  'For every supported decoder configuration (Llama, Qwen2, Qwen3: grouped heads, explicit head size, biases, tied embeddings, query/key norms, rotary base, layers, batch) exported by the builder and run by the inference engine with weights in the published file layout, the logits of every position equal those of the transformer the configuration defines; '
  'with a key/value cache they are the same for every way of splitting a token sequence into prefill and decode steps and for every conversation run on the same engine; greedy generation returns exactly the tokens those logits select.',
  ['configurations', 'inputs', 'histories'],
  'all listed small configurations x with and without cache x every composition of a short token sequence into steps, two conversations per engine x every prompt length for generation',
  'No test runs a built model; cache offsets, head grouping and plan aliasing are only visible in numbers.',
  ['llm.py', '../inference/llm_infer.py', '../inference/infer.py', '../inference/kernels.py', '../benchmark/llm_test.py', 'graph.py'],
  [('builder', 'onnx_tool/llm.py:Builder'), ('generation', 'inference/llm_infer.py:LLMInfer.generate'), ('weights', 'inference/infer.py:GraphInfer._preload_constants'),
   ('attention, rotary and norm kernels', 'inference/kernels.py:SDPAKernel, RopeKernel, LayerNormKernel'), ('memory plan with cache', 'benchmark/llm_test.py:compress_memory_with_kv_cache')],
  ['GraphInfer.forward', 'LLMInfer.generate'])

p('C31', 'The analysis of a model does not depend on how the model is written down',
  'For every model and every equivalent way of writing it down - another valid order of the nodes, other tensor or node names (or no node names), constants as initialisers, as initialisers also listed among the inputs, or as Constant nodes in any of their value forms, raw or typed data, default attribute values written out, omitted optional operands absent or given as the empty name, recorded or missing types of inner tensors, another order of inputs, outputs and initialisers - '
  'the shapes and types found for all tensors, the cost of every node and the totals, the compute graph, what constant folding leaves, the computed values, and the shapes the shape engine predicts are the same, tensor for tensor and node for node. (Equal node names, which ONNX forbids, only with node_rename.)',
  ['programs', 'configurations'],
  '38 models over all operator families that treat operands or constants specially x all node orders, renamings, constant spellings, omissions and, in the thorough tier, their pairs',
  'Each test model exists in one spelling only; dependence on names, order or constant form needs two spellings of one model to show.',
  ['graph.py', 'node.py', 'tensor.py', 'model.py', 'shape_engine.py'],
  [('loading', 'onnx_tool/graph.py:Graph.__init_graph_from_onnxproto__'), ('constants and folding', 'onnx_tool/graph.py:Graph.__constant_search__'), ('shape operands', 'onnx_tool/graph.py:Graph.__find_shape_tensors__'),
   ('attribute defaults', 'onnx_tool/node.py:Node.add_default_value'), ('symbolic shapes', 'onnx_tool/graph.py:Graph.shape_regress')],
  ['Graph.tensormap', 'Graph.nodemap', 'profile results'])

p('C32', 'The files written for deployment are enough to run the model',
  'For every model the documented deployment pipeline accepts (load, shape regression, shape inference at the maximal shapes, compute graph, any sequence of ConvBN fusion, fusion of element-wise operators and of residual blocks recorded as attributes, removal of flattening, reordering, then memory plan), the three files it writes - graph, shape engine, memory plan - describe an executable program: '
  'interpreting the graph file node by node, with the shapes the engine file gives for the actual input sizes and every activation kept in its planned block of one arena, yields the outputs of the source model at every input shape within the declared ranges, whatever the arena contained before. (Groups whose inner result is visible outside, and additions of a value to itself, are not fused: a recorded operator has no operand for them.)',
  ['programs', 'configurations', 'inputs', 'histories'],
  'all wirings of few nodes and 14 networks x folding x every order of the passes x every shape in range, ascending and descending',
  'The tests write these files and never read them; that fusion, plan, engine and files agree can only be seen by executing them.',
  ['serialization.py', 'graph.py', 'fusion.py', 'shape_engine.py'],
  [('files', 'onnx_tool/serialization.py:serialize_graph, serialize_shape_engine, serialize_memory_compression'), ('fusion', 'onnx_tool/graph.py:Graph.fuse_postop_node_names'), ('normalisation folding', 'onnx_tool/fusion.py:ConvBNFusion'),
   ('plan', 'onnx_tool/graph.py:Graph.compress_memory'), ('compute graph', 'onnx_tool/graph.py:Graph.get_compute_graph')],
  ['deployment files'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
