"""C06: whole-graph shape inference against real execution, over every program of a shape-computing grammar."""
import itertools
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from onnx.reference import ReferenceEvaluator
from mc import gx, shapelang as sl
from mc.core import tool, ToolError

PID = 'C06'
TECH = 'exhaustive enumeration of every program of a bounded shape-computing grammar; inferred shapes of all tensors compared with the ONNX reference execution'
RULE = ('every chain of up to 2 steps (3 from one source in the thorough tier) over ~50 shape-computing steps from 6 sources, and every pair of one-step chains joined by 6 combiners, feeding every applicable one of 25 consumers, for constants as '
        'initialisers and as nodes, data inputs of rank 1-4 (shorter chains for ranks 1 and 3 and constants as nodes, pairs only from a shared Shape node, in the quick tier), successive input shapes on the same graph, folding on and off; '
        '23 structural programs, Slice with every subset of its operands computed and reductions along a computed axis (shared, unused, exported, omitted tensors, exporter idioms), each in every valid node order')
ASSUME = ['the ONNX reference evaluator executes the programs correctly', 'longer chains add no interaction that chains of the explored length lack']

XS = [[2, 3], [4], [2, 3, 4], [1, 2, 4, 4]]
ALT = {1: [[6]], 2: [[3, 3], [2, 5], [4, 6]], 3: [[2, 4, 4], [1, 2, 3]], 4: [[1, 2, 2, 6], [2, 2, 4, 4]]}
nd = helper.make_node
I = np.int64


def mk(b, y, xs, post=False, order=None):
    nodes = list(b.nodes)
    outs = [y]
    if post:
        nodes.append(nd('Relu', [y], ['post'], name='post'))
        outs = ['post']
    if order is not None:
        nodes = [nodes[j] for j in order]
    prod = {o for n in nodes for o in n.output}
    if y not in prod:
        return None
    g = helper.make_graph(nodes, 'g', [helper.make_tensor_value_info('x', TP.FLOAT, [f'N{j}' for j in range(len(xs))])],
                          [helper.make_empty_tensor_value_info(o) for o in outs], initializer=b.inits)
    return helper.make_model(g, opset_imports=[helper.make_opsetid('', b.opset)], ir_version=8)


def cases(tier):
    th = tier == 'thorough'
    # (input shape, chain length, constants as, joined pairs, alternative input shapes)
    plan = [([2, 3], 3, ('init',), False, 1), ([2, 3], 2, ('init', 'node'), True, 3), ([1, 2, 4, 4], 2, ('init', 'node'), True, 2), ([4], 2, ('init', 'node'), True, 1), ([2, 3, 4], 2, ('init', 'node'), True, 2)] if th else \
        [([2, 3], 2, ('init',), 'S', 1), ([2, 3], 1, ('node',), False, 1), ([1, 2, 4, 4], 2, ('init',), False, 1), ([4], 1, ('init',), False, 1), ([2, 3, 4], 1, ('init',), False, 1)]
    for xs, depth, cmodes, pairs, nalt in plan:
        for tag, b, y in sl.programs(xs, depth, cmodes=cmodes, pairs=pairs, sources=('shape',) if depth == 3 else None):
            yield f'{xs}/{depth}/{tag}'.replace(' ', ''), ((b, y, xs), [xs] + ALT[len(xs)][:nalt], (False, True))
    yield from structural(tier)


# ------------------------------------------------------------------ hand-built structures, in every valid node order
def S_shared(xs):
    """one chain feeding two consumers and exported"""
    b = sl.B('init')
    s = b.op('Shape', ['x'], np.array(xs, I))
    t = b.op('Mul', [s, b.const(np.array(1, I))], np.array(xs, I))
    r = b.op('Reshape', ['x', t])
    e = b.op('Expand', [r, t])
    return b, [t, e]


def S_dynreshape(xs):
    """reshape to (d0, -1), then shape of the result drives the inverse reshape"""
    b = sl.B('init')
    s = b.op('Shape', ['x'], np.array(xs, I))
    d0 = b.op('Gather', [s, b.const(np.array([0], I))], np.array(xs[:1], I), axis=0)
    t = b.op('Concat', [d0, b.const(np.array([-1], I))], None, axis=0)
    r = b.op('Reshape', ['x', t])
    r2 = b.op('Relu', [r])
    s2 = b.op('Shape', [r2])
    u = b.op('Gather', [s2, b.const(np.array([1, 0], I))], None, axis=0)
    return b, [b.op('Reshape', [r2, u])]


def S_two_consumers_order(xs):
    """shape chain shared between a Slice and a Tile; the Slice result feeds the second Shape"""
    b = sl.B('init')
    s = b.op('Shape', ['x'])
    d = b.op('Gather', [s, b.const(np.array([1], I))], None, axis=0)
    h = b.op('Div', [d, b.const(np.array([2], I))])
    a = b.op('Slice', ['x', b.const(np.array([0], I)), h, b.const(np.array([1], I))])
    c = b.op('Slice', ['x', h, b.const(np.array([2 ** 31 - 1], I)), b.const(np.array([1], I))])
    return b, [b.op('Concat', [a, c], axis=1)]


def S_datachain(xs):
    """a value computed by ordinary arithmetic on a shape, also used as data (Cast to float, multiplied into x)"""
    b = sl.B('init')
    s = b.op('Shape', ['x'])
    d = b.op('Gather', [s, b.const(np.array(0, I))], None, axis=0)
    f = b.op('Cast', [d], to=TP.FLOAT)
    m = b.op('Mul', ['x', f])
    k = b.op('Unsqueeze', [d, b.const(np.array([0], I))])
    c = b.op('Concat', [k, b.const(np.array([-1], I))], axis=0)
    return b, [b.op('Reshape', [m, c])]


def S_omitted(xs):
    """a node with an omitted output before nodes with omitted inputs"""
    b = sl.B('init')
    b.nodes.append(nd('TopK', ['x', b.const(np.array([1], I))], ['', 'ti'], name='tk', axis=0))
    b.nodes.append(nd('Clip', ['x', '', b.const(np.array(1, np.float32))], ['tc'], name='cl'))
    s = b.op('Shape', ['tc'])
    b.nodes.append(nd('Pad', ['x', b.const(np.array([0, 1] * len(xs), I)), ''], ['tp'], name='pd'))
    return b, [b.op('Expand', [b.op('Relu', ['tc']), s]), 'ti', 'tp']


def S_omitted_dropout(xs):
    b = sl.B('init')
    b.nodes.append(nd('Dropout', ['x'], ['td', ''], name='dr'))
    b.nodes.append(nd('Dropout', ['td'], ['', 'tm'], name='dr2'))
    b.nodes.append(nd('Clip', ['td', '', ''], ['tc'], name='cl'))
    return b, ['tc', 'tm']


def S_omitted_split(xs):
    b = sl.B('init')
    b.nodes.append(nd('Split', ['x', b.const(np.array([1, xs[0] - 1], I))], ['', 's1'], name='sp', axis=0))
    b.nodes.append(nd('Resize' if len(xs) == 4 else 'Clip', ['x', '', b.const(np.array([1, 1, 2, 2], np.float32) if len(xs) == 4 else np.array(1, np.float32))], ['tr'], name='rs'))
    return b, ['s1', 'tr']


def S_const_fold_mix(xs):
    """constant sub-expression joined with a shape value"""
    b = sl.B('init')
    k = b.op('Add', [b.const(np.array([1], I)), b.const(np.array([1], I))])
    s = b.op('Shape', ['x'])
    c = b.op('Concat', [k, s], axis=0)
    return b, [b.op('Expand', ['x', c])]


def S_const_shape(xs):
    """Shape of a constant, folded or not"""
    b = sl.B('init')
    w = b.const(np.zeros(xs, np.float32))
    s = b.op('Shape', [w])
    g = b.op('Gather', [s, b.const(np.array([0], I))], axis=0)
    t = b.op('Concat', [g, b.const(np.array([-1], I))], axis=0)
    return b, [b.op('Reshape', ['x', t])]


def S_where_expand(xs):
    """exporter's expand idiom: where(shape == -1, ones, shape)"""
    b = sl.B('node')
    s = b.op('Shape', ['x'])
    n = b.op('Shape', [s])
    ones = b.op('ConstantOfShape', [n], value=numpy_helper.from_array(np.array([1], I)))
    neg = b.op('Mul', [ones, b.const(np.array(-1, I))])
    e = b.op('Equal', [s, neg])
    w = b.op('Where', [e, ones, s])
    return b, [b.op('Expand', ['x', w])]


def S_range_mask(xs):
    """positions by Range over a dimension, compared and used as a mask"""
    b = sl.B('init')
    s = b.op('Shape', ['x'])
    d = b.op('Gather', [s, b.const(np.array(-1, I))], axis=0)
    r = b.op('Range', [b.const(np.array(0, I)), d, b.const(np.array(1, I))])
    u = b.op('Unsqueeze', [r, b.const(np.array([0], I))])
    v = b.op('Unsqueeze', [r, b.const(np.array([1], I))])
    le = b.op('LessOrEqual', [u, v])
    w = b.op('Where', [le, b.const(np.array(0, np.float32)), b.const(np.array(-1, np.float32))])
    return b, [w, b.op('MatMul', ['x', w])]


def S_size_scale(xs):
    """scale computed from two shapes (resize to the size of another tensor by ratio)"""
    b = sl.B('init')
    t = b.op('MaxPool', ['x'], kernel_shape=[2, 2], strides=[2, 2])
    s0 = b.op('Cast', [b.op('Shape', ['x'])], to=TP.FLOAT)
    s1 = b.op('Cast', [b.op('Shape', [t])], to=TP.FLOAT)
    q = b.op('Div', [s0, s1])
    r = b.op('Resize', [t, '', q], mode='nearest')
    return b, [b.op('Add', ['x', r])]


def S_like(xs):
    """resize to the spatial size of another tensor, channels of the first (concat of slices of two shapes)"""
    b = sl.B('init')
    t = b.op('MaxPool', ['x'], kernel_shape=[2, 2], strides=[2, 2])
    c = b.op('Concat', [t, t], axis=1)
    sx = b.op('Slice', [b.op('Shape', ['x']), b.const(np.array([2], I)), b.const(np.array([4], I)), b.const(np.array([0], I))])
    sc = b.op('Slice', [b.op('Shape', [c]), b.const(np.array([0], I)), b.const(np.array([2], I)), b.const(np.array([0], I))])
    z = b.op('Concat', [sc, sx], axis=0)
    r = b.op('Resize', [c, '', '', z], mode='nearest')
    return b, [b.op('Concat', ['x', r], axis=1)]


def S_pad_same(xs):
    """pad computed from the remainder of a dimension"""
    b = sl.B('init')
    d = b.op('Gather', [b.op('Shape', ['x']), b.const(np.array([-1], I))], axis=0)
    m = b.op('Mod', [b.op('Sub', [b.const(np.array([4], I)), b.op('Mod', [d, b.const(np.array([4], I))])]), b.const(np.array([4], I))])
    z = b.const(np.zeros(2 * len(xs) - 1, I))
    p = b.op('Concat', [z, m], axis=0)
    y = b.op('Pad', ['x', p], mode='constant')
    return b, [b.op('Relu', [y])]


def S_if_free_topk(xs):
    """top-k with k = min(const, dim)"""
    b = sl.B('init')
    d = b.op('Gather', [b.op('Shape', ['x']), b.const(np.array([-1], I))], axis=0)
    k = b.op('Min', [d, b.const(np.array([2], I))])
    v, i = b.op('TopK', ['x', k], nout=2, axis=-1)
    return b, [v, b.op('GatherElements', ['x', i], axis=len(xs) - 1)]


def S_topk_reduce(xs):
    """minimum by ReduceMin over a concat, as exporters write k"""
    b = sl.B('init')
    d = b.op('Gather', [b.op('Shape', ['x']), b.const(np.array([-1], I))], axis=0)
    c = b.op('Concat', [d, b.const(np.array([2], I))], axis=0)
    k = b.op('ReduceMin', [c], keepdims=1)
    v, i = b.op('TopK', ['x', k], nout=2, axis=-1)
    return b, [v]


def S_unused(xs):
    """shape chain whose result nobody uses but is exported, and a dangling one"""
    b = sl.B('init')
    s = b.op('Shape', ['x'])
    e = b.op('Add', [s, s])
    b.op('Mul', [s, s])
    return b, [e, b.op('Relu', ['x'])]


def S_chain_through_data(xs):
    """the shape of a tensor produced by a consumer of an earlier chain (three levels)"""
    b = sl.B('init')
    cur = 'x'
    for _ in range(3):
        s = b.op('Shape', [cur])
        g = b.op('Gather', [s, b.const(np.array(list(range(len(xs)))[::-1], I))], axis=0)
        cur = b.op('Reshape', [cur, g])
    return b, [cur]


def S_slice_all(xs):
    b = sl.B('init')
    s = b.op('Shape', ['x'])
    e = b.op('Sub', [s, b.const(np.array(1, I))])
    z = b.op('Sub', [s, s])
    return b, [b.op('Slice', ['x', z, e])]


def S_scatter_update(xs):
    """cache write: zeros of a computed shape, updated by ScatterND"""
    b = sl.B('init')
    s = b.op('Shape', ['x'])
    z = b.op('ConstantOfShape', [s])
    w = b.op('Slice', ['x', b.const(np.array([0], I)), b.const(np.array([1], I)), b.const(np.array([0], I))])
    o = b.op('ScatterND', [z, b.const(np.array([[0]], I)), w])
    return b, [b.op('Add', [o, 'x'])]


def S_expand_like_reduce(xs):
    """mean then expand back by the shape"""
    b = sl.B('init')
    m = b.op('ReduceMean', ['x'], axes=[-1], keepdims=1)
    return b, [b.op('Expand', [m, b.op('Shape', ['x'])])]


def S_squeeze_axes(xs):
    b = sl.B('init')
    m = b.op('Unsqueeze', ['x', b.const(np.array([0, 2], I))])
    s = b.op('Shape', [m])
    q = b.op('Squeeze', [s, b.const(np.array([0], I))]) if False else s
    d = b.op('Gather', [q, b.const(np.array([1], I))], axis=0)
    r = b.op('Concat', [d, b.const(np.array([-1], I))], axis=0)
    return b, [b.op('Reshape', [m, r])]


def S_twoinputs(xs):
    b = sl.B('init')
    s = b.op('Shape', ['z'])
    return b, [b.op('Reshape', ['x', s]), b.op('Expand', ['z', s])]


def _slice_operands(n, comp):
    """Slice with n inputs, every operand named in comp computed from a dimension, the others constant"""
    def f(xs):
        b = sl.B('init')
        d = b.op('Gather', [b.op('Shape', ['x']), b.const(np.array([0], I))], axis=0)
        z = b.op('Sub', [d, d])
        ins = ['x']
        for name, v in zip('beas', (0, xs[0], 0, 2)[:n - 1]):
            c = b.const(np.array([v], I) if name != 'e' or name not in comp else np.array([0], I))
            ins.append(c if name not in comp else b.op('Add', [d if name == 'e' else z, c]))
        return b, [b.op('Slice', ins)]
    f.__name__ = f'S_slice{n}_{comp}'
    return f


SLICES = [_slice_operands(n, ''.join(c)) for n in (3, 4, 5) for k in range(1, n) for c in itertools.combinations('beas'[:n - 1], k)]


def _computed_axis(op, keep):
    """a reduction (or Squeeze, of an inserted axis) whose axis is computed from a dimension"""
    def f(xs):
        b = sl.B('init')
        d = b.op('Gather', [b.op('Shape', ['x']), b.const(np.array([0], I))], axis=0)
        v = len(xs) - 1
        a = b.op('Add', [b.op('Sub', [d, d]), b.const(np.array([v], I))])
        if op == 'Squeeze':
            return b, [b.op('Squeeze', [b.op('Unsqueeze', ['x', b.const(np.array([v], I))]), a])]
        return b, [b.op(op, ['x', a], keepdims=keep)]
    f.__name__ = f'S_axis_{op}{keep}'
    f.opset = 18
    return f


SLICES += [_computed_axis(op, k) for op in ('Squeeze', 'ReduceSum', 'ReduceMean', 'ReduceProd', 'ReduceMax', 'ReduceMin', 'ReduceL2') for k in ((1, 0) if op != 'Squeeze' else (1,))]
globals().update({f.__name__: f for f in SLICES})
STRUCT = SLICES + [S_shared, S_dynreshape, S_two_consumers_order, S_datachain, S_omitted, S_omitted_dropout, S_omitted_split, S_const_fold_mix, S_const_shape, S_where_expand, S_range_mask, S_size_scale, S_like,
          S_pad_same, S_if_free_topk, S_topk_reduce, S_unused, S_chain_through_data, S_slice_all, S_scatter_update, S_expand_like_reduce, S_squeeze_axes, S_twoinputs]
NEED4 = (S_size_scale, S_like)
NEED2 = (S_dynreshape, S_two_consumers_order, S_range_mask)


def extensions(nodes):
    """every topological order of the node list"""
    prod = {o: j for j, n in enumerate(nodes) for o in n.output if o}
    deps = [{prod[t] for t in n.input if t in prod} for n in nodes]

    def rec(done, left):
        if not left:
            yield list(done)
            return
        for j in sorted(left):
            if deps[j] <= set(done):
                done.append(j)
                yield from rec(done, left - {j})
                done.pop()
    yield from rec([], frozenset(range(len(nodes))))


def structural(tier):
    for f in STRUCT:
        for xs in XS:
            if f in NEED4 and len(xs) != 4 or f in NEED2 and len(xs) < 2:
                continue
            b, outs = f(xs)
            b.opset = getattr(f, 'opset', 17)
            n = len(b.nodes)
            names = sorted({t for nn in b.nodes for t in nn.input if t in 'xz' and t})
            for o in extensions(b.nodes):
                nodes = [b.nodes[j] for j in o]
                g = helper.make_graph(nodes, 'g', [helper.make_tensor_value_info(t, TP.FLOAT, [f'N{j}' for j in range(len(xs))]) for t in names],
                                      [helper.make_empty_tensor_value_info(y) for y in outs], initializer=b.inits)
                m = helper.make_model(g, opset_imports=[helper.make_opsetid('', b.opset)], ir_version=8)
                yield f'{f.__name__}/{xs}/{"".join(chr(97 + j) for j in o)}'.replace(' ', ''), (m, [xs] + ALT[len(xs)], (False, True))


def run_case(cid, case, st):
    m, shapes, folds = case
    if st.cases % 997 == 0:
        st.sample(cid)
    b = None
    if isinstance(m, tuple):
        b, y, xs = m
        m = mk(b, y, xs)
        if m is None:
            return
    ins = [v.name for v in m.graph.input]
    try:
        ref = ReferenceEvaluator(m)
    except Exception:
        raise
    want = []
    for s in shapes:
        n = int(np.prod(s))
        feeds = {t: (np.arange(n, dtype=np.float32) % 5 - 1.5).reshape(s) for t in ins}
        try:
            vals = ref.run(None, feeds, intermediate=True)
            if b is not None and s != xs:
                # the program must be legal at this shape as well (the reference does not check everything)
                get = lambda t: np.asarray(vals.get(t, b.vals.get(t)))
                if not all(ok(get(t)) for ok, t in b.req) or not b.creq[0](get(b.creq[1]), s):
                    st.count('not_legal_at_second_shape')
                    continue
            want.append((s, {k: np.asarray(v) for k, v in vals.items() if k and v is not None}))
        except Exception:
            st.count('not_executable')
    if not want:
        return
    prod = {o for nn in m.graph.node for o in nn.output if o}
    for fold in folds:
        tag = 'fold' if fold else 'nofold'
        try:
            g = gx.load(m, constant_folding=fold)
        except ToolError as e:
            yield f'{tag}:load:{e.args[0]}', ' '.join(e.args)
            continue
        for s, vals in want:
            try:
                tool(g.shape_infer, {t: np.zeros(s, np.float32) for t in ins})
            except ToolError as e:
                yield f'{tag}:raises:{e.args[0]}', f'at {s}: ' + ' '.join(e.args)
                break
            st.valid()
            bad = None
            for t in prod:
                if t not in vals:
                    continue
                if t not in g.tensormap:
                    if not fold or t in [o.name for o in m.graph.output]:
                        bad = ('missing', t)
                    continue
                T = g.tensormap[t]
                sh = T.get_shape()
                w = vals[t]
                if sh is None or list(sh) != list(w.shape):
                    bad = ('shape', f'{t}: {sh} for {list(w.shape)} at input {s}')
                    break
                if np.dtype(T.dtype) != w.dtype:
                    bad = ('type', f'{t}: {T.dtype} for {w.dtype}')
                    break
            st.state(tuple(sorted((t, tuple(g.tensormap[t].get_shape())) for t in prod if t in g.tensormap)) if bad is None else bad)
            if bad:
                yield f'{tag}:{bad[0]}', bad[1]
                break
