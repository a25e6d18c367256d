"""Writes /verif/DESIGN.md from the texts below, the check modules, MANIFEST.json, known_findings.json and seeded/*/meta.json."""
import ast, glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Design

Generated by `tools/mkdesign.py` (texts there; enumeration rules come from the check modules, so they cannot drift).

## What is verified, and how

onnx-tool is a sequential Python library: it loads ONNX models into its own graph, infers shapes, evaluates constants, counts
operations, edits, fuses, quantises, plans memory, predicts shapes for dynamic inputs, and builds language-model graphs.
There are no threads, no network and no crash-recovery; the dimensions along which behaviour multiplies are

* the *program* (graph wirings, operator x attribute x shape combinations, shape-computing chains),
* the *history* (sequences of edits, of API calls, of queries),
* the *configuration* (options of every entry point, language-model configurations, devices).

Every check is a bounded explicit-state exploration of the **real code**: a deterministic generator enumerates all elements of a
bounded space (every wiring up to n nodes, every operation sequence up to depth d, every attribute/shape combination within
listed alphabets), each element is executed on the code imported from /repo, and each reached state or answer is compared with an
oracle that does not use the code under test. Nothing is sampled, nothing is decided by a solver. Where a state space closes
(C14, C18b), breadth-first search with state merging is used and each history is replayed from scratch on the real graph, so
the abstract model is bound to the implementation on every transition; elsewhere the "model" is the independent
oracle and every enumerated element is one conformance trace. No check runs only on a model.

`evidence/<id>.json` reports: `states` = distinct states/answers reached (hashed), `transitions` = operations executed on the code
under test, `traces_validated_against_impl` = executions whose result was compared with the oracle, `cases`, and
`exhaustive` = true iff every element of the enumeration was run (cases run == cases enumerated).

### Driver (`mc/core.py`)

`./check <id> [--tier quick|thorough]` forks 8 workers; worker k runs the cases with index = k mod 8 (a partition, so the union
is the whole space), each under a 60 s alarm (a hang is a violation). Exceptions of the tool on inputs in the property's domain are
violations (`ToolError`); exceptions of the harness exit 2. Violations are grouped by signature; a replay file is written for the
first case of each and `./check <id> --replay FILE` runs exactly that case. `VERIF_REPO` points the checks at another tree
(development only). There are no hooks in /repo (MANIFEST `hooks` is empty); `VERIF_SEED` is recorded only, nothing depends on it.

Shared generators: `mc/gx.py` (all DAG wirings over a set of node kinds up to isomorphism, all valid node orders, model
building, reference execution), `mc/opspace.py` (single-node programs: about 150 operator families with attribute, shape, type and
opset alphabets), `mc/shapelang.py` (grammar of shape-computing programs), `mc/opcheck.py`/`mc/spec.py` (oracles for single nodes).

### Oracles and what is trusted

* ONNX reference evaluator (pure Python) and ONNX C++ shape inference / checker: the specification. Where both answer for a
  single node they must agree, otherwise the case is skipped and counted (`n_oracles_differ`), except where an own oracle
  decides (window placement counts for convolution/pooling, Unsqueeze, Einsum MACs ...).
* Own independent definitions: operation counts (C05), liveness intervals (C10), brute-force pattern matching (C12), expansion of
  fused nodes (C13), abstract graph (C14), unquantisation (C19/C20), binary reader (C21), architecture definitions (C23),
  sums and table parsers (C17), block counting (C25).
* numpy, Python, the file system.

Model checking applies to every listed property; `not_applicable` is empty. /repo/inference needs torch, which is not
installed, so nothing there is claimed. Rendering/plotting and benchmark scripts are not claimed.

### Small-scope arguments

The bounds rest on the code's structure: node code treats each dimension/axis uniformly (ranks to 4, dims to 5 cover all branches,
including negative axes, zero and one); graph algorithms look at producers/consumers of one tensor at a time, so 4-5 node wirings contain every local
configuration (diamonds, multi-output, repeated inputs, dead ends, re-joining paths) and every pair of such; histories of length 2-4 contain
every ordered dependency between two/three operations on a state that the graph tables can express.

'''

T = {
 'C01': ('shape/type of every output against both ONNX oracles', 'an axis/broadcast/keepdims/opset-form error shows only on a particular combination; tests visit a few whole models', 'Softmax below opset 13 is compared on shape only; element types outside the operator schema are not generated.'),
 'C02': ('brute-force count of window placements (own code), ONNX oracles for Resize', 'one-sided padding, dilation x ceil x stride interactions need specific numbers', 'Pooling with a last window starting in the right padding (where the ONNX oracles disagree with each other) and ConvTranspose SAME with kernel < stride are skipped.'),
 'C03': ('both ONNX oracles; own rule for Unsqueeze', 'special values 0/-1, negative steps, clamped bounds are corner values', 'NonZero with all-zero data falls back to a documented guess; Scan, NonMaxSuppression, Loop/If as single nodes and pre-opset-7 forms are not covered.'),
 'C04': ('ONNX reference evaluator on concrete data; refusal accepted only for a fixed list of operators', 'wrong values show on particular data (signs, ties, large integers, half precision)', 'Softplus of large values, BatchNormalization@9 training value, Softmax opset<13 coercion excluded; tolerance is half-precision when an input is float16.'),
 'C05': ('direct count of multiply-accumulates / window elements / reduced elements', 'MACs are never compared with independent numbers by tests', 'Scalars count 0 by tool convention (volume([])==0); weights of transcendental pointwise operators are conventions, only linearity in the element count is checked.'),
 'C06': ('shapes of all tensors in a reference execution', 'shape chains x consumers x order x folding is combinatorial', 'Operators without value inference are not used as chain steps; programs must be legal at the second input shape too.'),
 'C07': ('structural diff with the source + onnx.checker full check + execution', 'attribute kinds, encodings, optional positions, names and types are not crossed by tests', 'Model-local functions, sparse initialisers, training info excluded; a shape-only save carries weights as inputs; explicit duplicate node names are invalid ONNX.'),
 'C08': ('execution of folded model against source; independent constantness', 'partially constant diamonds and constant outputs', 'Nodes the tool cannot evaluate must stay.'),
 'C09': ('permutation + topological validity on all node orders', 'an order bug needs a specific wiring and order', ''),
 'C10': ('independent liveness intervals; blocks of simultaneously live tensors must not overlap, plan size covers all', 'allocation corner cases (split, merge, growth) need specific sizes', 'Aliasing of graph inputs by caller is not modelled.'),
 'C11': ('independently computed node partitions and crossing tensors; every part executed on reference values', 'boundary choices x multi-output x shared tensors', 'Tensors at the cut whose type is neither recorded nor inferred are declared float by the tool (dummy); models carry or infer types.'),
 'C12': ('all assignments of nodes to pattern nodes enumerated; disjointness, completeness (maximality), safety', 'matching bugs need near-miss graphs', 'An attribute left at its default may be read as default or as missing.'),
 'C13': ('fused node expanded again from recorded attributes, compared and executed; ConvBN by execution', 'multi-output, shared and repeated tensors at the group border, second fusion into a fused node', 'Non-convex groups and groups whose conditional reads an in-group result are excluded; post-op shape check skipped for Resize/Split mains with appended operands.'),
 'C14': ('abstract graph stepped along; complete state compared after every edit', 'stale relation tables show only after a later dependent edit', 'skip_node on nodes with orphan inputs not explored; reload only in valid order.'),
 'C15': ('plain inference of a fresh graph at every value in range', 'a floor/ceil/offset error shows at one residue of one variable', 'Dimensions that are products of variables or divisions beyond 16 are outside the statement; counted and skipped.'),
 'C16': ('independently computed set of kept nodes; execution with inferred shape operands', 'mixed data/shape use of one tensor', 'Conditionals are compared structurally only.'),
 'C17': ('independent sums, parsed tables', 'shared/repeated constants x exclusion sets', 'Rank-0 constants count zero; per-node memory is an implementation definition, only sums are claimed.'),
 'C18': ('same call in a fresh process; fresh object brought directly to the same state', 'leaks need a particular earlier call', 'After shape_regress or a failing inference the object\'s tensor state is unknown until the next explicit inference; a call outside its precondition ends the history.'),
 'C19': ('own dequantiser and nibble unpacker; half-step bound', 'zero, constant, single-sign, saturating groups', 'Values below the smallest normal float32 count as zero.'),
 'C20': ('independent reader turns the quantised model back into the original, node for node', 'shared/transposed/conditional consumers', 'Shape inference on quantised graphs is not claimed (custom operand lists).'),
 'C21': ('independent reader of the byte layout', 'attribute kinds, limits and element types; column-major arrays', 'The layout is defined by the writers; doubles are stored as float32 by it.'),
 'C22': ('source model with condition/k forced to constants, executed; reachability for dangling nodes', 'shared conditions, name clashes, nested branches', 'Conditionals inside loop bodies are not resolved; TopK attribute form (opset<10) not covered; nodes only the unselected branch read may remain when reachable otherwise.'),
 'C23': ('separate definition of each architecture: weights, MACs, shapes, latency', 'flag x size x cache interactions', 'Compressed KV weights are documented as not modelled.'),
 'C24': ('what was asked, recomputed from the source model; library call vs command line', 'option combinations are never crossed', 'Unrequested outputs keep their declared shape; conditionals excluded where shapes are inferred; tensor names with ":" cannot be expressed on the command line.'),
 'C25': ('recount of zeros and blocks', 'masks at block borders', 'Weights in Constant nodes and unanalysed kinds are outside the statement.'),
 'C26': ('onnx.numpy_helper as codec', 'typed fields of narrow types, scalars, empties', ''),
 'C27': ('ONNX reference evaluator, every tensor of every call', 'state left by an earlier call shows only at a later call with another shape or value', 'Operators declined with NotImplementedError excluded; folding treats default values of inputs as constants, so they are overridden only without folding.'),
 'C28': ('the same program made of built-in operators', 'registry state and load order are never exercised', 'Classes deriving from GemmNode (a base shared by other operators) and twins of operators whose input values decide shapes beyond the tool\'s list are excluded.'),
 'C29': ('ONNX reference evaluator (MaxPool by definition) for every call of a walk', 'memory aliasing and stale shapes appear only at particular shape sequences', 'torch is not installed: the engine runs on a numpy stand-in (mc/torchlike.py), which raises where torch would leave the pool; a torch function the stand-in lacks makes the case undecided (counter not_in_stand_in), not an alarm.'),
 'C30': ('an independent transformer in double precision', 'cache offsets, grouping and aliasing show only in numbers and at particular splits', 'Same stand-in; safetensors and the tokenizer are replaced by an in-memory store and a tokenizer of numbers.'),
 'C31': ('the report about the plainest spelling of the same model', 'needs two spellings of one model', 'The plain spelling itself is judged by C01-C07.'),
 'C32': ('ONNX reference evaluator of the source model; the VM reads the file formats with its own reader', 'files are never read back by any test', 'What a recorded post-operator reads is our reading of the format (first the result so far, then the remaining operands in order).'),
}

FALSE = '''## False alarms corrected while building (machinery or statement was wrong, not the tool)

* C18: the object-history model did not know that reordering moves Constant nodes; a "reordered" flag was added to its state.
* C23: the first cost definition did not count bias additions.
* C24: full type/shape checking of models saved by io modification was dropped: outputs that were not requested keep their declared shape, so a strict checker may refuse a combination the caller asked for.
* C13: the reference evaluator writes omitted outputs ('' names) as a tensor; the comparison ignores that name.
* C04: float16 inputs are compared at half precision.
* C12: an attribute left at its default is accepted under either reading.
* C29: the reference evaluator pads MaxPool wrongly for uneven pads; pooling by definition replaced it.
* C31: equal node names violate the ONNX specification; they are tested with node_rename only.
* C32: an addition of a value to itself, fused groups whose inner result is visible outside, and removed reshapes with a shape operand have no
  unambiguous reading in the graph file and were taken out of the pipeline; nested post-operators are read recursively.
* C05/C17/C23: rank-0 tensors count as zero elements in the tool; statements say so instead of alarming.

'''

LIMIT = '''## Not covered

Tensors of unknown type at a sub-model cut (declared float), Scan/NonMaxSuppression/Sequence operators, `If`/`Loop` shape inference (the
tool raises), models above 2 GB with external data, the real torch backend and tokenizers of /repo/inference (a numpy stand-in runs the engine), benchmark
scripts other than the memory planner with cache, `data/*.md` option names that no longer exist, numerical wiring of language-model families
other than Llama, Qwen2 and Qwen3 (their weights, costs, shapes, node attributes and connectedness are checked, C23).

'''


def consts(f):
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('PID', 'RULE', 'TECH', 'ASSUME'):
            try:
                d[n.targets[0].id] = eval(ast.unparse(n.value), {})
            except Exception:
                d[n.targets[0].id] = ast.unparse(n.value)
    return d


def main():
    props = {json.loads(l)['id']: json.loads(l) for l in open(R + '/properties.jsonl')}
    man = json.load(open(R + '/MANIFEST.json'))
    cost = json.load(open(R + '/tools/costs.json')) if os.path.exists(R + '/tools/costs.json') else {}
    out = [HEAD, '## Properties\n']
    for f in sorted(glob.glob(R + '/mc/c[0-9]*.py')):
        d = consts(f)
        p = props[d['PID']]
        o, why, ex = T[d['PID']]
        out.append(f"### {d['PID']} {p['title']}\n")
        out.append(f"*Module* `mc/{os.path.basename(f)}`. *Technique*: {d['TECH']}.\n")
        out.append(f"*Enumerated (bounds)*: {d['RULE']}.\n")
        out.append(f"*Oracle*: {o}.\n")
        out.append(f"*Beyond the tests because*: {why}.\n")
        if ex:
            out.append(f"*Outside the claim*: {ex}\n")
        out.append('*Assumptions*: ' + '; '.join(d['ASSUME']) + '.\n')
        if d['PID'] in cost:
            out.append(f"*Cost* (8 cores): {cost[d['PID']]}.\n")
    out.append(FALSE)
    out.append(LIMIT)
    k = json.load(open(R + '/known_findings.json'))
    out.append('## Genuine defects\n')
    out.append('Recorded, not repaired: ' + ('none.' if not k['known'] else '') + '\n')
    for e in k['known']:
        out.append(f"* {e['property']} {e['id']}: {e['what']}")
    out.append(f"\nRepaired in /repo ({len(k['fixed'])} `fix:` commits; the message names the corrected behaviour):\n")
    for e in k['fixed']:
        _, p, h, m = e.split(' ', 3)
        out.append(f"* {p.split('=')[1]} `{h}` {m}")
    out.append('\n## Planted bugs (seeded/) and the checks that catch them\n')
    out.append('| seed | property | needs | breaks | caught by |\n|---|---|---|---|---|')
    extra = json.load(open(R + '/tools/caught.json')) if os.path.exists(R + '/tools/caught.json') else {}
    for g in sorted(glob.glob(R + '/seeded/*/meta.json')):
        s = os.path.basename(os.path.dirname(g))
        m = json.load(open(g))
        out.append(f"| {s} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {extra.get(s, m['property'])} |")
    out.append('')
    extra_txt = R + '/tools/design_extra.md'
    if os.path.exists(extra_txt):
        out.append(open(extra_txt).read())
    open(R + '/DESIGN.md', 'w').write('\n'.join(out))


main()
