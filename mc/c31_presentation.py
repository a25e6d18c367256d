"""C31: what is reported for a model does not depend on how the same model is written down."""
import functools
import itertools
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP, AttributeProto as AP
from mc import gx, shapelang as sl, c06_graphshapes as c6
from mc.core import tool, ToolError

PID = "C31"
TECH = 'exhaustive enumeration of the equivalent presentations of each model of a bounded family; every report about a presentation is compared with the report about the plain one'
RULE = ('38 models (23 shape-computing structures at every rank they admit, 15 compute structures: convolution, attention, recurrent, quantised, multi-output, omitted operands, defaults, shared weights) x every presentation: '
        'every valid node order; 10 renamings of all tensors (numbers, permuted among themselves, names of nodes, of operators, differing by case, with separators); 7 node namings (none, partly none, like generated ones, like tensors, numbers; renamed on load, also when all are equal); '
        '9 spellings of the constants (initialiser, raw or typed data, listed as inputs, Constant nodes at the front or before their use, by value, value_ints, value_float, ..., alternating); defaults written out, optional operands omitted or empty, inner types recorded, '
        'inputs, initialisers reversed, default domain spelled out; thorough: every pair of a renaming, a node naming or an order with a spelling of the constants. Compared: shapes and types of all tensors, costs per node, totals, the compute graph, what folding leaves, values, shapes predicted by the shape engine')
ASSUME = ['the presentations are equivalent by the ONNX specification']
nd = helper.make_node
I, F = np.int64, np.float32


# ---------------------------------------------------------------- base models
def r_(*s):
    return ((np.arange(int(np.prod(s))) * 7 % 11 - 5) / 4).astype(F).reshape(s)


def ini(n, a):
    return numpy_helper.from_array(np.asarray(a), n)


def X(n, s, t=TP.FLOAT):
    return helper.make_tensor_value_info(n, t, s)


def mod(nodes, ins, outs, inits=(), opset=17):
    return gx.model(nodes, [X(n, ['N%s%d' % (n, j) if isinstance(d, str) else d for j, d in enumerate(s)], t) for n, s, t in ins], [helper.make_empty_tensor_value_info(o) for o in outs], inits, opset)


def m_conv():
    return mod([nd('Conv', ['x', 'w', 'b'], ['c'], name='conv', pads=[1, 1, 1, 1]), nd('BatchNormalization', ['c', 's', 's2', 'mm', 'v'], ['d'], name='bn'), nd('Relu', ['d'], ['e'], name='relu'), nd('MaxPool', ['e'], ['p'], name='mp', kernel_shape=[2, 2], strides=[2, 2]),
                nd('GlobalAveragePool', ['p'], ['q'], name='gap'), nd('Flatten', ['q'], ['f'], name='fl'), nd('Gemm', ['f', 'gw', 'gb'], ['y'], name='gemm', transB=1)],
               [('x', ['n', 2, 'h', 'w'], TP.FLOAT)], ['y'], [ini('w', r_(3, 2, 3, 3)), ini('b', r_(3)), ini('s', r_(3)), ini('s2', r_(3) + 1), ini('mm', r_(3)), ini('v', np.abs(r_(3)) + F(1)), ini('gw', r_(4, 3)), ini('gb', r_(4))]), [{'x': (1, 2, 4, 4)}, {'x': (2, 2, 6, 4)}]


def m_resid():
    return mod([nd('Conv', ['x', 'w'], ['a'], name='c1', pads=[1, 1, 1, 1]), nd('Relu', ['a'], ['b'], name='r1'), nd('Conv', ['b', 'w'], ['c'], name='c2', pads=[1, 1, 1, 1]), nd('Add', ['c', 'x'], ['d'], name='ad'), nd('Sigmoid', ['d'], ['e'], name='sg'), nd('Mul', ['d', 'e'], ['y'], name='mu')],
               [('x', ['n', 2, 'h', 'w'], TP.FLOAT)], ['y', 'b'], [ini('w', r_(2, 2, 3, 3))]), [{'x': (1, 2, 3, 3)}, {'x': (2, 2, 4, 3)}]


def m_attn():
    n = []
    for p in 'qkv':
        n += [nd('MatMul', ['x', 'w' + p], [p + '0'], name='mm' + p), nd('Reshape', [p + '0', 'sh'], [p + '1'], name='rs' + p), nd('Transpose', [p + '1'], [p + '2'], name='tr' + p, perm=[0, 2, 3, 1] if p == 'k' else [0, 2, 1, 3])]
    n += [nd('MatMul', ['q2', 'k2'], ['s'], name='qk'), nd('Div', ['s', 'sc'], ['s1'], name='dv'), nd('Softmax', ['s1'], ['s2'], name='sm'), nd('MatMul', ['s2', 'v2'], ['o'], name='pv'), nd('Transpose', ['o'], ['o1'], name='tro', perm=[0, 2, 1, 3]), nd('Reshape', ['o1', 'sh2'], ['o2'], name='rso'), nd('Add', ['o2', 'x'], ['y'], name='ad')]
    return mod(n, [('x', ['n', 's', 4], TP.FLOAT)], ['y'], [ini('w' + p, r_(4, 4)) for p in 'qkv'] + [ini('sh', np.array([0, 0, 2, 2], I)), ini('sh2', np.array([0, 0, -1], I)), ini('sc', np.array(2, F))]), [{'x': (1, 3, 4)}, {'x': (2, 5, 4)}]


def m_norm():
    return mod([nd('ReduceMean', ['x'], ['m'], name='m', axes=[-1]), nd('Sub', ['x', 'm'], ['d'], name='s'), nd('Pow', ['d', 'two'], ['p'], name='p'), nd('ReduceMean', ['p'], ['v'], name='m2', axes=[-1]), nd('Add', ['v', 'eps'], ['v1'], name='ae'), nd('Sqrt', ['v1'], ['q'], name='sq'), nd('Div', ['d', 'q'], ['n'], name='dv'),
                nd('Mul', ['n', 'g'], ['g1'], name='mg'), nd('Add', ['g1', 'b'], ['y'], name='ab')], [('x', ['n', 's', 4], TP.FLOAT)], ['y'], [ini('two', np.array(2, F)), ini('eps', np.array(1e-5, F)), ini('g', r_(4)), ini('b', r_(4))]), [{'x': (1, 3, 4)}, {'x': (2, 2, 4)}]


def m_qdq():
    return mod([nd('QuantizeLinear', ['x', 'sc', 'zp'], ['q'], name='q'), nd('DequantizeLinear', ['q', 'sc', 'zp'], ['d'], name='dq'), nd('DequantizeLinear', ['wq', 'ws', 'wz'], ['w'], name='dw', axis=0), nd('MatMul', ['d', 'w'], ['y'], name='mm')],
               [('x', ['n', 4], TP.FLOAT)], ['y'], [ini('sc', np.array(0.5, F)), ini('zp', np.array(1, np.int8)), ini('wq', np.arange(12, dtype=np.int8).reshape(4, 3)), ini('ws', np.abs(r_(4)) + F(.5)), ini('wz', np.zeros(4, np.int8))]), [{'x': (2, 4)}, {'x': (3, 4)}]


def m_split():
    return mod([nd('Split', ['x', 'sp'], ['a', 'b'], name='sp', axis=1), nd('Tanh', ['a'], ['c'], name='th'), nd('Sigmoid', ['b'], ['d'], name='sg'), nd('Mul', ['c', 'd'], ['e'], name='mu'), nd('Concat', ['e', 'a', 'b'], ['y'], name='cc', axis=1)], [('x', ['n', 4], TP.FLOAT)], ['y'], [ini('sp', np.array([2, 2], I))]), [{'x': (2, 4)}, {'x': (3, 4)}]


def m_lstm():
    return mod([nd('Transpose', ['x'], ['t'], name='tr', perm=[1, 0, 2]), nd('LSTM', ['t', 'w', 'r', '', '', 'h0'], ['y3', '', 'c'], name='l', hidden_size=2), nd('Squeeze', ['y3', 'ax'], ['z'], name='sq'), nd('MatMul', ['z', 'p'], ['y'], name='mm')],
               [('x', [1, 's', 3], TP.FLOAT)], ['y', 'c'], [ini('w', r_(1, 8, 3)), ini('r', r_(1, 8, 2)), ini('h0', r_(1, 1, 2)), ini('ax', np.array([1], I)), ini('p', r_(2, 2))]), [{'x': (1, 3, 3)}, {'x': (1, 5, 3)}]


def m_resize():
    return mod([nd('Conv', ['x', 'w', ''], ['a'], name='c', kernel_shape=[1, 1]), nd('Resize', ['a', '', 'sc', ''], ['b'], name='rs', mode='nearest'), nd('Clip', ['b', 'lo', ''], ['c'], name='cl'), nd('Pad', ['c', 'pd', ''], ['d'], name='pd'), nd('AveragePool', ['d'], ['y'], name='ap', kernel_shape=[2, 2], strides=[1, 2])],
               [('x', ['n', 2, 'h', 'w'], TP.FLOAT)], ['y'], [ini('w', r_(3, 2, 1, 1)), ini('sc', np.array([1, 1, 2, 2], F)), ini('lo', np.array(-1, F)), ini('pd', np.array([0, 0, 1, 0, 0, 0, 0, 1], I))]), [{'x': (1, 2, 2, 3)}, {'x': (1, 2, 3, 4)}]


def m_gather():
    return mod([nd('Gather', ['e', 'ids'], ['a'], name='emb'), nd('Shape', ['ids'], ['s'], name='sh'), nd('Gather', ['s', 'one'], ['l'], name='gl'), nd('Range', ['z', 'l', 'o'], ['r'], name='rg'), nd('Gather', ['pe', 'r'], ['p'], name='pos'), nd('Add', ['a', 'p'], ['h'], name='ad'), nd('MatMul', ['h', 'w'], ['y'], name='mm')],
               [('ids', ['b', 's'], TP.INT64)], ['y'], [ini('e', r_(5, 4)), ini('one', np.array(1, I)), ini('z', np.array(0, I)), ini('o', np.array(1, I)), ini('pe', r_(6, 4)), ini('w', r_(4, 5))]), [{'ids': (1, 3)}, {'ids': (2, 5)}]


def m_consts():
    return mod([nd('Add', ['k1', 'k2'], ['a'], name='a'), nd('Mul', ['a', 'k3'], ['b'], name='b'), nd('MatMul', ['x', 'b'], ['c'], name='mm'), nd('Add', ['c', 'k4'], ['y'], name='ad'), nd('Transpose', ['k1'], ['t'], name='tr'), nd('MatMul', ['c', 't'], ['z'], name='mm2')], [('x', ['n', 3], TP.FLOAT)], ['y', 'z'],
               [ini('k1', r_(3, 2)), ini('k2', r_(2)), ini('k3', np.array(2, F)), ini('k4', r_(1, 2))]), [{'x': (2, 3)}, {'x': (4, 3)}]


def m_two():
    return mod([nd('Expand', ['x', 'sh'], ['a'], name='ex'), nd('Add', ['a', 'z'], ['b'], name='ad'), nd('Where', ['m', 'b', 'k'], ['c'], name='wh'), nd('ReduceSum', ['c', 'ax'], ['y'], name='rs', keepdims=0), nd('Cast', ['m'], ['q'], name='ca', to=TP.FLOAT), nd('CumSum', ['q', 'k0'], ['w'], name='cu')],
               [('x', ['n', 1], TP.FLOAT), ('z', ['n', 'd'], TP.FLOAT), ('m', ['n', 'd'], TP.BOOL)], ['y', 'w'], [ini('sh', np.array([1, 3], I)), ini('k', np.array(-1, F)), ini('ax', np.array([1], I)), ini('k0', np.array(1, I))]), [{'x': (2, 1), 'z': (2, 3), 'm': (2, 3)}, {'x': (4, 1), 'z': (4, 3), 'm': (4, 3)}]


def m_default():
    return mod([nd('Gemm', ['x', 'w'], ['a'], name='ge'), nd('LeakyRelu', ['a'], ['b'], name='lr'), nd('Softmax', ['b'], ['c'], name='sm'), nd('Flatten', ['c'], ['d'], name='fl'), nd('ArgMax', ['d'], ['e'], name='am'), nd('Concat', ['c', 'd'], ['f'], name='cc', axis=0), nd('Split', ['f'], ['g', 'h'], name='sp'), nd('TopK', ['g', 'k'], ['v', 'i'], name='tk'), nd('LayerNormalization', ['h', 'lw'], ['y'], name='ln')],
               [('x', ['n', 3], TP.FLOAT)], ['e', 'v', 'i', 'y'], [ini('w', r_(3, 4)), ini('k', np.array([2], I)), ini('lw', r_(4))]), [{'x': (2, 3)}, {'x': (3, 3)}]


def m_convs():
    return mod([nd('Conv', ['x', 'w'], ['a'], name='c1', group=2), nd('ConvTranspose', ['a', 'u'], ['b'], name='ct', strides=[2, 2]), nd('InstanceNormalization', ['b', 's', 's'], ['c'], name='in'), nd('PRelu', ['c', 'sl'], ['d'], name='pr'), nd('DepthToSpace', ['d'], ['y'], name='ds', blocksize=2)],
               [('x', ['n', 2, 'h', 'w'], TP.FLOAT)], ['y'], [ini('w', r_(4, 1, 2, 2)), ini('u', r_(4, 4, 2, 2)), ini('s', r_(4) + 2), ini('sl', r_(4, 1, 1))]), [{'x': (1, 2, 3, 3)}, {'x': (2, 2, 4, 3)}]


def m_index():
    return mod([nd('Slice', ['x', 'st', 'en', 'ax', 'sp'], ['a'], name='sl'), nd('Unsqueeze', ['a', 'ax0'], ['b'], name='un'), nd('Tile', ['b', 'rep'], ['c'], name='ti'), nd('GatherND', ['c', 'ix'], ['d'], name='gn'), nd('ScatterND', ['x', 'si', 'su'], ['e'], name='sn'), nd('OneHot', ['oi', 'dep', 'ov'], ['f'], name='oh'), nd('MatMul', ['f', 'x'], ['g'], name='mm'), nd('Einsum', ['x', 'g'], ['y'], name='ei', equation='ij,kj->ik')],
               [('x', [3, 'd'], TP.FLOAT)], ['d', 'e', 'y'], [ini('st', np.array([2], I)), ini('en', np.array([-100], I)), ini('ax', np.array([0], I)), ini('sp', np.array([-1], I)), ini('ax0', np.array([0], I)), ini('rep', np.array([2, 1, 1], I)), ini('ix', np.array([[0, 1], [1, 2]], I)), ini('si', np.array([[1, 1]], I)), ini('su', np.array([5], F)), ini('oi', np.array([0, 2], I)), ini('dep', np.array(3, I)), ini('ov', np.array([0, 1], F))]), [{'x': (3, 2)}, {'x': (3, 4)}]


def m_shared():
    return mod([nd('Relu', ['x'], ['a'], name='r'), nd('MatMul', ['a', 'w'], ['b'], name='m1'), nd('MatMul', ['x', 'w'], ['c'], name='m2'), nd('Add', ['b', 'c'], ['d'], name='ad'), nd('Max', ['d', 'a', 'w'], ['y'], name='mx'), nd('Identity', ['y'], ['i'], name='id'), nd('Dropout', ['i'], ['o', 'mk'], name='dr')], [('x', [3, 3], TP.FLOAT)], ['y', 'o'], [ini('w', r_(3, 3))]), [{'x': (3, 3)}]


def m_qlinear():
    q = np.uint8
    return mod([nd('QuantizeLinear', ['x', 's', 'z'], ['q'], name='q'), nd('QLinearConv', ['q', 's', 'z', 'w', 's', 'z', 's', 'z', 'b'], ['c'], name='qc', kernel_shape=[2, 2]), nd('DequantizeLinear', ['c', 's', 'z'], ['y'], name='dq')], [('x', ['n', 1, 'h', 3], TP.FLOAT)], ['y'],
               [ini('s', np.array(0.5, F)), ini('z', np.array(3, q)), ini('w', np.arange(8, dtype=q).reshape(2, 1, 2, 2)), ini('b', np.array([1, -2], np.int32))]), [{'x': (1, 1, 3, 3)}, {'x': (2, 1, 4, 3)}]


COMPUTE = [m_conv, m_resid, m_attn, m_norm, m_qdq, m_split, m_lstm, m_resize, m_gather, m_consts, m_two, m_default, m_convs, m_index, m_shared, m_qlinear]


@functools.lru_cache(None)
def base(key):
    for f in COMPUTE:
        if f.__name__ == key:
            return f()
    name, xs = key.split('@')
    xs = [int(c) for c in xs.split('x')]
    f = getattr(c6, name)
    b, outs = f(xs)
    # every constant starts as an initialiser
    inits, nodes = list(b.inits), []
    for n in b.nodes:
        if n.op_type == 'Constant':
            t = onnx.TensorProto()
            t.CopyFrom(n.attribute[0].t)
            t.name = n.output[0]
            inits.append(t)
        else:
            nodes.append(n)
    ins = sorted({t for n in nodes for t in n.input if t in 'xz' and t})
    m = mod(nodes, [(t, ['d'] * len(xs), TP.FLOAT) for t in ins], outs, inits, getattr(f, 'opset', 17))
    shapes = [{t: tuple(s) for t in ins} for s in [xs] + c6.ALT[len(xs)]]
    ok = []
    for s in shapes:
        try:
            gx.evaluate(m, feeds_of(m, s, {}))
            ok.append(s)
        except Exception:
            pass
    return m, (ok or shapes[:1])[:2]


def keys():
    for f in COMPUTE:
        yield f.__name__
    for f in c6.STRUCT:
        for xs in c6.XS:
            if f in c6.NEED4 and len(xs) != 4 or f in c6.NEED2 and len(xs) < 2:
                continue
            yield f.__name__ + '@' + 'x'.join(map(str, xs))


# ---------------------------------------------------------------- presentations: model -> (model, {new tensor name: plain name})
def clone(m):
    r = onnx.ModelProto()
    r.CopyFrom(m)
    return r


def tensors(m):
    g = m.graph
    res = [v.name for v in g.input] + [t.name for t in g.initializer]
    for n in g.node:
        res += [o for o in n.output if o]
    return list(dict.fromkeys(res))


def rename(m, mp):
    m = clone(m)
    g = m.graph
    for n in g.node:
        for f in (n.input, n.output):
            for j, t in enumerate(f):
                f[j] = mp.get(t, t)
    for f in (g.input, g.output, g.value_info, g.initializer):
        for v in f:
            v.name = mp.get(v.name, v.name)
    return m, {v: k for k, v in mp.items()}


def names_of(m, how):
    ts = tensors(m)
    nn = [n.name for n in m.graph.node]
    if how == 'num':
        return {t: str(len(ts) - j) for j, t in enumerate(ts)}
    if how == 'fwd':
        return {t: f't{j:03d}' for j, t in enumerate(ts)}
    if how == 'slash':
        return {t: f'/m/{t}/{t}.out_0' for t in ts}
    if how == 'rot':
        return dict(zip(ts, ts[1:] + ts[:1]))
    if how == 'rev':
        return dict(zip(ts, ts[::-1]))
    if how == 'node':       # named after other nodes
        return dict(zip(ts, (nn[::-1] + [f'u{j}' for j in range(len(ts))])[:len(ts)]))
    if how == 'own':        # named after the producing node
        d = {}
        for n in m.graph.node:
            for j, o in enumerate(n.output):
                if o:
                    d[o] = n.name + ('' if j == 0 else f'_{j}')
        return {t: d.get(t, 'in_' + t) for t in ts}
    if how == 'op':
        ops = list(dict.fromkeys(n.op_type for n in m.graph.node)) + ['Constant', 'Shape_0', 'input', 'output', 'Any', 'Relu', 'None', 'shape']
        ops = list(dict.fromkeys(ops)) + [f'Conv_{j}' for j in range(len(ts))]
        return dict(zip(ts, ops))
    if how == 'case':
        return {t: ''.join(c.upper() if j >> k & 1 else c for k, c in enumerate('abcdefgh')) for j, t in enumerate(ts)}
    if how == 'odd':
        return {t: f'{"é ,\"" if j % 2 else ":%()"}{j}' for j, t in enumerate(ts)}
    raise KeyError(how)


RENAMES = ['num', 'fwd', 'slash', 'rot', 'rev', 'node', 'own', 'op', 'case', 'odd']


def nodenames(m, how):
    m = clone(m)
    ns = list(m.graph.node)
    ts = tensors(m)
    for j, n in enumerate(ns):
        n.name = {'none': '', 'half': n.name if j % 2 else '', 'equal': 'same', 'gen': f'{ns[-1 - j].op_type}_{j}', 'tensor': ts[j % len(ts)], 'num': str(len(ns) - j)}[how]
    return m, {}


NODENAMES = ['none', 'half', 'equal', 'gen', 'tensor', 'num']


def const_node(t, how):
    a = numpy_helper.to_array(t)
    n = nd('Constant', [], [t.name], name='const_' + t.name)
    if how == 'field' and a.dtype == I and a.ndim == 1 and a.size:
        n.attribute.append(helper.make_attribute('value_ints', a.tolist()))
    elif how == 'field' and a.dtype == I and a.ndim == 0:
        n.attribute.append(helper.make_attribute('value_int', int(a)))
    elif how == 'field' and a.dtype == F and a.ndim == 1 and a.size:
        n.attribute.append(helper.make_attribute('value_floats', a.tolist()))
    elif how == 'field' and a.dtype == F and a.ndim == 0:
        n.attribute.append(helper.make_attribute('value_float', float(a)))
    else:
        v = onnx.TensorProto()
        v.CopyFrom(t)
        v.name = {'value': t.name, 'field': '', 'odd': 'value'}.get(how, '')
        n.attribute.append(helper.make_attribute('value', v))
    return n


def consts(m, how):
    m = clone(m)
    g = m.graph
    its = list(g.initializer)
    if how == 'inputs':
        for t in its:
            g.input.append(X(t.name, list(t.dims), t.data_type))
    elif how == 'inputs_first':
        old = list(g.input)
        del g.input[:]
        g.input.extend([X(t.name, list(t.dims), t.data_type) for t in its] + old)
    elif how == 'typed':
        del g.initializer[:]
        for t in its:
            a = numpy_helper.to_array(t)
            g.initializer.append(helper.make_tensor(t.name, t.data_type, a.shape, a.flatten().tolist()))
    elif how == 'reversed':
        del g.initializer[:]
        g.initializer.extend(its[::-1])
    else:
        sel = {t.name: t for j, t in enumerate(its) if how != 'alt' or j % 2}
        del g.initializer[:]
        g.initializer.extend([t for t in its if t.name not in sel])
        ns = list(g.node)
        del g.node[:]
        kind = 'field' if how.startswith('field') or how == 'alt' else 'value'
        if how.endswith('front'):
            g.node.extend([const_node(t, kind) for t in sel.values()])
            sel = {}
        for n in ns:
            for t in n.input:
                if t in sel:
                    g.node.append(const_node(sel.pop(t), kind))
            g.node.append(n)
    return m, {}


CONSTS = ['inputs', 'inputs_first', 'typed', 'reversed', 'value_front', 'value_use', 'field_front', 'field_use', 'alt']


def style(m, how):
    m = clone(m)
    g = m.graph
    ver = next(o.version for o in m.opset_import if o.domain == '')
    if how == 'defaults':
        for n in g.node:
            have = {a.name for a in n.attribute}
            for nm, a in onnx.defs.get_schema(n.op_type, ver).attributes.items():
                if nm not in have and a.default_value.name and not a.required:
                    n.attribute.append(a.default_value)
    elif how == 'attr_order':
        for n in g.node:
            at = list(n.attribute)[::-1]
            del n.attribute[:]
            n.attribute.extend(at)
    elif how == 'drop_empty':
        for n in g.node:
            for f in (n.input, n.output):
                while f and f[-1] == '':
                    f.pop()
    elif how == 'pad_empty':
        for n in g.node:
            s = onnx.defs.get_schema(n.op_type, ver)
            for f, ps in ((n.input, s.inputs), (n.output, s.outputs)):
                if n.op_type in ('Split', 'Concat', 'Max', 'Sum') or any(p.option == onnx.defs.OpSchema.FormalParameterOption.Variadic for p in ps):
                    continue
                while len(f) < len(ps) and f is n.input:
                    f.append('')
    elif how == 'typed_inner':
        typ = static_types(m)
        for t, (et, rank) in typ.items():
            g.value_info.append(X(t, [f'{t}_{j}' for j in range(rank)], et))
        for o in g.output:
            if o.name in typ:
                o.CopyFrom(X(o.name, [None] * typ[o.name][1], typ[o.name][0]))
    elif how == 'domain':
        for n in g.node:
            n.domain = 'ai.onnx'
    elif how == 'inputs_rev':
        v = list(g.input)[::-1]
        del g.input[:]
        g.input.extend(v)
    elif how == 'unknown_dims':
        for v in g.input:
            for d in v.type.tensor_type.shape.dim:
                if d.HasField('dim_param'):
                    d.ClearField('dim_param')
    elif how == 'neg_dims':
        for v in g.input:
            for d in v.type.tensor_type.shape.dim:
                if d.HasField('dim_param'):
                    d.dim_value = -1
    elif how == 'docs':
        m.doc_string = g.doc_string = 'model'
        m.producer_name, g.name = 'verif', 'x y'
        for n in g.node:
            n.doc_string = 'line\nline'
        p = m.metadata_props.add()
        p.key, p.value = 'a', 'b'
    elif how == 'opsets':
        m.opset_import.extend([helper.make_opsetid('other', 3)])
    elif how == 'outputs_rev':
        v = list(g.output)[::-1]
        del g.output[:]
        g.output.extend(v)
    return m, {}


STYLES = ['defaults', 'attr_order', 'drop_empty', 'pad_empty', 'typed_inner', 'domain', 'inputs_rev', 'unknown_dims', 'neg_dims', 'docs', 'opsets', 'outputs_rev', 'renamed']
_types = {}


def static_types(m):
    k = m.SerializeToString(deterministic=True)
    if k not in _types:
        if len(_types) > 50:
            _types.clear()
        s = onnx.shape_inference.infer_shapes(m)
        _types[k] = {v.name: (v.type.tensor_type.elem_type, len(v.type.tensor_type.shape.dim)) for v in list(s.graph.value_info) + list(s.graph.output) if v.type.tensor_type.HasField('shape')}
    return _types[k]


def reorder(m, o):
    m = clone(m)
    ns = list(m.graph.node)
    del m.graph.node[:]
    m.graph.node.extend([ns[j] for j in o])
    return m, {}


def present(m, spec):
    """spec: list of (kind, argument)"""
    back = {}
    for kind, arg in spec:
        if kind == 'name':
            m2, b = rename(m, names_of(m, arg))
        elif kind == 'nodes':
            m2, b = nodenames(m, arg)
        elif kind == 'const':
            m2, b = consts(m, arg)
        elif kind == 'style':
            m2, b = style(m, arg)
        elif kind == 'vars':
            m2, b = m, {}
        else:
            m2, b = reorder(m, arg)
        back = {t: back.get(b.get(t, t), b.get(t, t)) for t in tensors(m2)}
        m = m2
    return m, back


# ---------------------------------------------------------------- the reports
def feeds_of(m, shapes, back):
    inv = {v: k for k, v in back.items()}
    et = {v.name: v.type.tensor_type.elem_type for v in m.graph.input}
    res = {}
    for t, s in shapes.items():
        n = int(np.prod(s))
        k = inv.get(t, t)
        dt = helper.tensor_dtype_to_np_dtype(et[k])
        a = np.arange(n) * 3 % 5 + (0 if dt.kind in 'ib' else -1.5)
        res[k] = (a % 2 == 0).reshape(s) if dt.kind == 'b' else a.astype(dt).reshape(s)
    return res


VARS = {'plain': 'v{}', 'num': '{}', 'num1': '1{}', 'word': 'x{} y', 'tensor': None}


def report(m, shapes, back, deep, cfg={}, vars='plain'):
    """everything the tool says about the model, in the plain names"""
    B = lambda t: back.get(t, t)
    g = gx.load(m, constant_folding=False, **cfg)
    res = {}
    consts_ = {t.name for t in m.graph.initializer} | {o for n in m.graph.node if n.op_type == 'Constant' for o in n.output}
    res['inputs'] = sorted(B(t) for t in g.input if t not in consts_)
    res['outputs'] = sorted(B(t) for t in g.output)
    tmap = {o: n for n in m.graph.node for o in n.output}
    for k, sh in enumerate(shapes):
        f = feeds_of(m, sh, back)
        tool(g.shape_infer, f)
        res[f'shapes{k}'] = {B(t): (tuple(T.get_shape()), np.dtype(T.dtype).str) for t, T in g.tensormap.items() if t in tmap or t in f or t in consts_ if t}
        tool(g.profile)
        per = {}
        for n in g.nodemap.values():
            if n.op_type == 'Constant':
                continue
            per[tuple(B(t) for t in n.output if t)] = (n.op_type, tuple(B(t) for t in n.input if t), tuple(float(v) for v in np.asarray(n.macs).flatten()), float(n.params), float(n.memory))
        res[f'costs{k}'] = per
        res[f'totals{k}'] = (tuple(float(v) for v in np.asarray(g.macs).flatten()), float(g.params))
        if not deep:
            break
    cg = tool(g.get_compute_graph)
    res['compute'] = ({(n.op_type, tuple(B(t) for t in n.input if t), tuple(B(t) for t in n.output if t)) for n in cg.nodemap.values() if n.op_type != 'Constant'}, sorted(B(t) for t in cg.input if t not in consts_), sorted(B(t) for t in cg.output))
    if deep:
        g2 = gx.load(m, constant_folding=True, **cfg)
        res['folded'] = {(n.op_type, tuple(B(t) for t in n.output if t)) for n in g2.nodemap.values()}
        f = feeds_of(m, shapes[0], back)
        g3 = gx.load(m, constant_folding=False, **cfg)
        try:
            tool(functools.partial(g3.value_infer, {k: v.copy() for k, v in f.items()}))
            res['values'] = {B(t): np.asarray(g3.tensormap[t].numpy) for t in g3.output}
        except ToolError as e:
            if e.args[0] != 'NotImplementedError':
                raise
            res['values'] = None
        if len(shapes) > 1:
            a, b = shapes
            desc, rng, val, n = {}, {}, {}, 0
            inv = {v: k for k, v in back.items()}
            for t in a:
                d = []
                for p, q in zip(a[t], b[t]):
                    if p == q:
                        d.append(p)
                        continue
                    v = next((k for k in rng if rng[k] == (min(p, q), max(p, q)) and val[k] == q), None)
                    if v is None:
                        v = VARS[vars].format(n) if VARS[vars] else list(a)[0] * (n + 1)
                        n += 1
                        rng[v], val[v] = (min(p, q), max(p, q)), q
                    d.append(v)
                desc[inv.get(t, t)] = d
            if rng:
                g4 = gx.load(m, constant_folding=False, **cfg)
                se = tool(functools.partial(g4.shape_regress, desc, rng))
                for k, v in val.items():
                    se.update_variable(k, v)
                tool(se.update_variables)
                res['engine'] = {B(t): tuple(int(i) for i in tool(se.get_tensorshape, t)) for t in cg.dynamics if (t in tmap or t in f) and t not in consts_}
    return res


def first_diff(a, b):
    for k in a:
        x, y = a[k], b.get(k)
        if k == 'values' and (x is None or y is None):
            if (x is None) != (y is None):
                return k, 'evaluated' if x is None else 'not evaluated'
        elif k == 'values':
            for t in x:
                if t not in y or not gx.close(x[t], y[t]):
                    return k, f'{t}: {y.get(t)} instead of {x[t]}'
        elif isinstance(x, dict):
            for t in list(x) + list(y or {}):
                if t in x and (y or {}).get(t) != x[t]:
                    return k, f'{t}: {(y or {}).get(t)} instead of {x[t]}'
                if t not in x:
                    return k, f'{t}: {y[t]}, absent from the plain model'
        elif isinstance(x, tuple) and x and isinstance(x[0], set):
            if x != y:
                return k, f'extra {sorted(y[0] - x[0])} missing {sorted(x[0] - y[0])} inputs {x[1]} {y[1]} outputs {x[2]} {y[2]}'
        elif isinstance(x, set):
            if x != y:
                return k, f'extra {sorted(y - x)} missing {sorted(x - y)}'
        elif x != y:
            return k, f'{y} instead of {x}'
    return None


_plain = {}


def plain(key):
    if key not in _plain:
        if len(_plain) > 8:
            _plain.clear()
        m, shapes = base(key)
        try:
            _plain[key] = report(m, shapes, {}, True)
        except ToolError as e:
            _plain[key] = e
    return _plain[key]


LIMIT = {'quick': 400, 'thorough': 2000}


def cases(tier):
    th = tier == 'thorough'
    for key in keys():
        m, shapes = base(key)
        singles = [('name', r) for r in RENAMES] + [('nodes', r) for r in NODENAMES] + [('const', r) for r in CONSTS] + [('style', r) for r in STYLES] + [('vars', r) for r in VARS if r != 'plain']
        yield f'{key}/plain', (key, [], True)
        for s in singles:
            yield f'{key}/{s[0]}:{s[1]}', (key, [s], True)
        orders = list(itertools.islice(c6.extensions(list(m.graph.node)), 1, LIMIT[tier] + 1))
        for j, o in enumerate(orders):
            yield f'{key}/order:{",".join(map(str, o))}', (key, [('order', o)], j < 6 or th)
        if th:
            for s in singles:
                for t in singles:
                    if s[0] < t[0]:
                        yield f'{key}/{s[0]}:{s[1]}+{t[0]}:{t[1]}', (key, sorted((s, t), key=lambda v: ('const', 'name', 'nodes', 'style', 'vars').index(v[0])), True)
            for o in orders[:3] + orders[-3:]:
                for s in singles:
                    if s[0] != 'const' or 'alt' not in s[1]:
                        yield f'{key}/order:{",".join(map(str, o))}+{s[0]}:{s[1]}', (key, [('order', o), s], True)


def run_case(cid, case, st):
    key, spec, deep = case
    want = plain(key)
    m, shapes = base(key)
    if isinstance(want, ToolError):
        if not spec:
            yield f'plain:raises:{want.args[0]}', ' '.join(want.args)
        return
    if not spec:
        st.state(repr(sorted(want['shapes0'].items())))
    m2, back = present(m, spec)
    if spec and ('style', 'renamed') not in spec and 'vars' not in dict(spec) and m2.SerializeToString(deterministic=True) == m.SerializeToString(deterministic=True):
        st.count('same_text')
        return
    what = '+'.join(s[0] if s[0] == 'order' else f'{s[0]}:{s[1]}' for s in spec)
    try:
        got = report(m2, shapes, back, deep, {'node_rename': True} if ('nodes', 'equal') in spec or ('style', 'renamed') in spec else {}, dict(spec).get('vars', 'plain'))
    except ToolError as e:
        yield f'{what}:raises:{e.args[0]}', ' '.join(e.args)
        return
    st.valid()
    st.state((key, cid))
    d = first_diff({k: want[k] for k in got}, got)
    if d:
        yield f'{what}:{d[0]}', d[1]
