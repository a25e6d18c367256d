"""C07: load/save round trips over a bounded space of models."""
import itertools
import os
import shutil
import tempfile
import atexit
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP, AttributeProto as AP
from mc import gx
from mc.core import tool, ToolError
import onnx_tool

PID = 'C07'
TECH = 'exhaustive enumeration of a bounded model space through load and save, compared structurally and by execution with the source model'
RULE = ('all models of: every attribute kind x boundary values; every initialiser type x encoding x rank; every optional-input/-output position pattern; node naming patterns; domains and opset imports; graph-input kinds '
        '(symbolic, unknown, scalar, unused, initialiser-backed, order); inner tensors of every element type with nothing, types or shapes recorded; control-flow bodies reading outer tensors; every DAG wiring of up to 3 nodes (4 thorough) x every set of extra graph outputs; '
        'each x save options (plain, after shape inference, no shapes, shapes only, folded, dangling results kept as outputs), saved twice')
ASSUME = ['models without model-local functions, sparse initialisers and training information', 'onnx.checker and the ONNX reference evaluator are correct']

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None or _tmp[0] != os.getpid():
        _tmp = (os.getpid(), tempfile.mkdtemp(prefix='verif_c07_'))
        atexit.register(shutil.rmtree, _tmp[1], True)
        import multiprocessing.util as mu
        mu.Finalize(None, shutil.rmtree, args=(_tmp[1], True), exitpriority=10)
    return _tmp[1]


def V(n, s=(2, 2), t=TP.FLOAT):
    return helper.make_tensor_value_info(n, t, None if s is None else list(s))


def W(n='w', a=None):
    return numpy_helper.from_array(np.array([[1, -2], [3, 0.5]], np.float32) if a is None else a, n)


nd = helper.make_node


# ------------------------------------------------------------------ model families
def attr_protos():
    t = numpy_helper.from_array(np.array([1, 2], np.int64), 'tt')
    g = helper.make_graph([nd('Relu', ['a'], ['b'])], 'sub', [V('a')], [V('b')])
    vals = []
    for i in (0, 1, -1, 2 ** 31 - 1, 2 ** 31, -2 ** 31 - 1, 2 ** 63 - 1, -2 ** 63):
        vals.append(('int%d' % i, AP(name='k', type=AP.INT, i=i)))
    for f in (0.0, 1.0, -1.0, 0.1, 1e-30, 3e38, float('inf')):
        vals.append(('float%g' % f, AP(name='k', type=AP.FLOAT, f=f)))
    for s in (b'', b'abc', b'NOTSET', '\u00e9'.encode(), b'\xff\x00x'):
        vals.append(('str%r' % s, AP(name='k', type=AP.STRING, s=s)))
    for v in ([], [0], [1, 2, 3], [-1, 2 ** 40]):
        vals.append(('ints%r' % v, AP(name='k', type=AP.INTS, ints=v)))
    for v in ([], [0.0], [1.0, 2.0], [0.5, -3.25, 1e20]):
        vals.append(('floats%r' % v, AP(name='k', type=AP.FLOATS, floats=v)))
    for v in ([], [b'a'], [b'a', b'', b'\xc3\xa9']):
        vals.append(('strings%r' % v, AP(name='k', type=AP.STRINGS, strings=v)))
    for a in (np.array(3.5, np.float32), np.array([1, 2], np.int64), np.zeros([0], np.int64), np.array([[True, False]]), np.array([1, 2], np.uint16), np.array([1.5], np.float16),
              np.array([7], np.int8), np.array([2.5], np.float64), np.array([1], np.uint32)):
        vals.append((f'tensor{a.dtype}{list(a.shape)}', AP(name='k', type=AP.TENSOR, t=numpy_helper.from_array(a, 'v'))))
        vals.append((f'tensorfield{a.dtype}{list(a.shape)}', AP(name='k', type=AP.TENSOR, t=helper.make_tensor('v', helper.np_dtype_to_tensor_dtype(a.dtype), a.shape, a.flatten().tolist()))))
    vals.append(('tensors', AP(name='k', type=AP.TENSORS, tensors=[t, t])))
    vals.append(('graph', AP(name='k', type=AP.GRAPH, g=g)))
    vals.append(('graphs', AP(name='k', type=AP.GRAPHS, graphs=[g, g])))
    vals.append(('type', AP(name='k', type=AP.TYPE_PROTO, tp=helper.make_tensor_type_proto(1, [2]))))
    return vals


def m_attr(dom, names):
    d = dict(attr_protos())
    n = nd('Foo' if dom else 'Relu', ['x'], ['y'], name='n', domain='verif' if dom else '')
    for k, key in enumerate(names):
        a = AP()
        a.CopyFrom(d[key])
        a.name = 'k%d' % k
        n.attribute.append(a)
    return gx.model([n], [V('x')], [V('y')], domains=['verif'] if dom else ())


# attribute names that look like something of the tool's own
ATTRNAMES = ['name', 'op_type', 'input', 'output', 'inputs', 'outputs', 'attr', 'attribute', 'proto', 'domain', 'axes', 'shape_calc', 'nextnodes', 'prevnodes', 'static_inputs', 'dynamic_inputs',
             'profile', 'shape_infer', 'value_infer', 'set_attr', 'add_default_value', 'make_nodeproto', '_profile_core', 'macs', 'params', 'memory', 'inshape', 'outshape', 'sparsity', 'type', 'dtype', 'shape', 'doc_string', '__class__', 'self']


def m_attrname(op, nm, kind):
    m = m_attr(1, [kind])
    m.graph.node[0].op_type = op
    m.graph.node[0].attribute[0].name = nm
    m.graph.node.append(nd('Neg', ['y'], ['z'], name='last'))
    m.graph.output.append(V('z'))
    return m


STDATTR = [('Gemm', ['x', 'w'], {'alpha': 0.5, 'beta': 1.0, 'transA': 1, 'transB': 0}), ('Concat', ['x', 'w'], {'axis': -1}), ('Transpose', ['x'], {'perm': [1, 0]}),
           ('Cast', ['x'], {'to': 7}), ('Softmax', ['x'], {'axis': 0}), ('LeakyRelu', ['x'], {'alpha': 0.3}), ('ReduceMean', ['x'], {'axes': [0], 'keepdims': 0}),
           ('ReduceMax', ['x'], {'axes': [-1], 'keepdims': 1}), ('Gather', ['x', 'ix'], {'axis': 1}), ('Elu', ['x'], {'alpha': 2.0}), ('Flatten', ['x'], {'axis': 0}),
           ('ArgMax', ['x'], {'axis': 1, 'keepdims': 0}), ('CumSum', ['x', 'sc'], {'reverse': 1}), ('HardSigmoid', ['x'], {'alpha': 0.25, 'beta': 0.25}),
           ('DepthToSpace', ['i4'], {'blocksize': 2, 'mode': 'CRD'}), ('MaxPool', ['i4'], {'kernel_shape': [1, 1], 'strides': [1, 1]}), ('LRN', ['i4'], {'size': 3}),
           ('Constant', [], {'value_ints': [1, 2]}), ('Constant', [], {'value_float': 2.5}), ('Constant', [], {'value': None}), ('ConstantOfShape', ['ix'], {'value': None}),
           ('Einsum', ['x', 'w'], {'equation': 'ij,jk->ik'}), ('LayerNormalization', ['x', 'w1'], {'axis': -1, 'epsilon': 0.01}), ('Mod', ['x', 'w'], {'fmod': 1}),
           ('Split', ['x'], {'axis': 1}), ('Clip', ['x', '', 'one'], {}), ('Pad', ['x', 'p4', '', 'p4a'], {'mode': 'constant'}), ('Resize', ['i4', '', 'sc4'], {'mode': 'nearest'}),
           ('Dropout', ['x', '', ''], {}), ('TopK', ['x', 'k1'], {'axis': 0, 'largest': 0})]


def m_std(j):
    op, ins, at = STDATTR[j]
    at = dict(at)
    if 'value' in at:
        at['value'] = numpy_helper.from_array(np.array([2], np.float32), 'v')
    c = {'w': W(), 'ix': W('ix', np.array([1, 0], np.int64)), 'sc': W('sc', np.array(0, np.int64)), 'w1': W('w1', np.array([1, 2], np.float32)), 'one': W('one', np.array(1, np.float32)),
         'p4': W('p4', np.array([1, 0, 0, 1], np.int64)), 'p4a': W('p4a', np.array([0, 1], np.int64)), 'sc4': W('sc4', np.array([1, 1, 2, 2], np.float32)), 'k1': W('k1', np.array([1], np.int64))}
    outs = {'Split': 2, 'TopK': 2, 'Dropout': 2}.get(op, 1)
    on = ['y%d' % i for i in range(outs)]
    m = gx.model([nd(op, ins, on, name='n', **at)], [V('x')] * ('x' in ins) + [V('i4', [1, 4, 2, 2])] * ('i4' in ins), [helper.make_empty_tensor_value_info(o) for o in on], [c[i] for i in ins if i in c], opset={'LayerNormalization': 17, 'Pad': 18}.get(op, 13))
    m = onnx.shape_inference.infer_shapes(m)
    return m


def m_optin(op, present):
    """custom operator with every pattern of omitted inputs"""
    ins = [f'x{k}' if p else '' for k, p in enumerate(present)]
    n = nd('Foo', ins, ['y'], name='n', domain='verif')
    return gx.model([n], [V(i) for i in ins if i], [V('y')], domains=['verif'])


def m_optout(present):
    outs = [f'y{k}' if p else '' for k, p in enumerate(present)]
    return gx.model([nd('Foo', ['x'], outs, name='n', domain='verif'), nd('Clip', ['y0' if present[0] else 'x', '', 'hi'], ['z'], name='c')], [V('x')],
                    [V(o) for o in outs if o] + [V('z')], [W('hi', np.array(1, np.float32))], domains=['verif'])


def m_names(pat):
    """three-node chain; pat gives explicit names or '' """
    ns = [nd('Relu', ['x' if j == 0 else f't{j - 1}'], [f't{j}'], name=p) for j, p in enumerate(pat)]
    return gx.model(ns, [V('x')], [V(f't{len(pat) - 1}')])


def m_io(kind):
    if kind.startswith('dim'):
        dims = {'dimN': ['N', 2], 'dimNone': [None, 2], 'dimMix': ['N', None, 3, 1], 'dimsym2': ['N', 'N'], 'dim0': [0, 2]}[kind]
        return gx.model([nd('Relu', ['x'], ['y'], name='n')], [V('x', dims)], [V('y', dims)])
    if kind == 'scalar':
        return gx.model([nd('Relu', ['x'], ['y'], name='n')], [V('x', [])], [V('y', [])])
    if kind == 'scalarmid':
        return gx.model([nd('ReduceSum', ['x'], ['t'], name='r', keepdims=0), nd('Add', ['x', 't'], ['y'], name='n')], [V('x')], [V('y')], value_info=[V('t', [])])
    if kind == 'noshape':
        return gx.model([nd('Relu', ['x'], ['y'], name='n')], [V('x')], [V('y', None)])
    if kind.startswith('type'):
        t = int(kind[4:])
        return gx.model([nd('Identity', ['x'], ['y'], name='n')], [V('x', [2], t)], [V('y', [2], t)])
    if kind == 'unusedinput':
        return gx.model([nd('Relu', ['x'], ['y'], name='n')], [V('x'), V('u', [3])], [V('y')])
    if kind == 'unusedinputfirst':
        return gx.model([nd('Relu', ['x'], ['y'], name='n')], [V('u', [3]), V('x')], [V('y')])
    if kind == 'unusedinit':
        return gx.model([nd('Relu', ['x'], ['y'], name='n')], [V('x')], [V('y')], [W('u')])
    if kind == 'inputorder':
        return gx.model([nd('Sub', ['b', 'a'], ['y'], name='n')], [V('a'), V('b')], [V('y')])
    if kind == 'outputorder':
        return gx.model([nd('Relu', ['x'], ['p'], name='n'), nd('Neg', ['p'], ['q'], name='m')], [V('x')], [V('q'), V('p')])
    if kind == 'initinput':
        return gx.model([nd('Add', ['x', 'w'], ['y'], name='n')], [V('x'), V('w')], [V('y')], [W()])
    if kind == 'initinput3':
        m = gx.model([nd('Add', ['x', 'w'], ['y'], name='n')], [V('x'), V('w')], [V('y')], [W()], opset=8)
        m.ir_version = 3
        return m
    if kind == 'initoutput':
        return gx.model([nd('Add', ['x', 'w'], ['y'], name='n')], [V('x')], [V('y'), V('w')], [W()])
    if kind == 'constoutput':
        return gx.model([nd('Add', ['x', 'w'], ['y'], name='n'), nd('Neg', ['w'], ['cst'], name='k')], [V('x')], [V('y'), V('cst')], [W()])
    if kind == 'inputoutput':
        return gx.model([nd('Relu', ['x'], ['y'], name='n')], [V('x')], [V('y'), V('x')])
    if kind == 'sharedinit':
        return gx.model([nd('Add', ['x', 'w'], ['y'], name='n'), nd('Mul', ['y', 'w'], ['z'], name='m')], [V('x')], [V('z')], [W()])
    if kind == 'allconst':
        return gx.model([nd('Constant', [], ['k'], name='c', value=W('v')), nd('Add', ['x', 'k'], ['y'], name='n')], [V('x')], [V('y')])
    if kind == 'noinput':
        return gx.model([nd('Constant', [], ['k'], name='c', value=W('v')), nd('Neg', ['k'], ['y'], name='n')], [], [V('y')])
    if kind == 'opset11':
        return gx.model([nd('Clip', ['x', 'lo', 'hi'], ['y'], name='n')], [V('x')], [V('y')], [W('lo', np.array(0, np.float32)), W('hi', np.array(1, np.float32))], opset=11)
    if kind == 'domains':
        return gx.model([nd('Foo', ['x'], ['t'], name='n', domain='verif', k=1), nd('Bar', ['t'], ['y'], name='m', domain='ai.other')], [V('x')], [V('y')], domains=['verif', 'ai.other'])
    if kind == 'samenameop':
        return gx.model([nd('Relu', ['x'], ['t'], name='n', domain='verif'), nd('Relu', ['t'], ['y'], name='m')], [V('x')], [V('y')], domains=['verif'])
    if kind == 'valueinfo':
        return gx.model([nd('Relu', ['x'], ['t'], name='n'), nd('Neg', ['t'], ['y'], name='m')], [V('x', ['N', 2])], [V('y', ['N', 2])], value_info=[V('t', ['N', 2])])
    raise KeyError(kind)


IOKINDS = ['dimN', 'dimNone', 'dimMix', 'dimsym2', 'scalar', 'scalarmid'] + [f'type{t}' for t in (1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 16)] + [
    'unusedinput', 'unusedinputfirst', 'unusedinit', 'inputorder', 'outputorder', 'initinput', 'initinput3', 'initoutput', 'constoutput', 'inputoutput', 'sharedinit',
    'allconst', 'noinput', 'opset11', 'domains', 'samenameop', 'valueinfo']


def m_init(tn, enc, shape, off):
    from mc import c26_codec
    w = c26_codec.encode(tn, c26_codec.fill(tn, shape, off), enc)
    return gx.model([nd('Foo', ['x', 'w'], ['y'], name='n', domain='verif')], [V('x')], [V('y')], [w], domains=['verif'])


def m_nested(reads, cond):
    inner = helper.make_graph([nd('Add', [reads, 'x'], ['iy'], name='in1')], 'inner', [], [V('iy')])
    outer_t = helper.make_graph([nd('Relu', ['x'], ['loc'], name='l1'), nd('If', ['c'], ['oy'], name='if2', then_branch=inner, else_branch=inner)], 'ot', [], [V('oy')])
    outer_e = helper.make_graph([nd('Neg', ['x'], ['ey'], name='e1')], 'oe', [], [V('ey')])
    inits = [W('w')] + ([W('c', np.array([cond == 'true']))] if cond != 'in' else [])
    return gx.model([nd('Neg', ['x'], ['t'], name='r'), nd('If', ['c'], ['y'], name='if1', then_branch=outer_t, else_branch=outer_e)],
                    [V('x'), V('z')] + ([V('c', [1], TP.BOOL)] if cond == 'in' else []), [V('y')], inits)


def m_if(t_reads, e_reads, cond):
    """If whose branches read the named outer tensors"""
    def body(tag, reads):
        ns, cur = [], None
        for k, r in enumerate(reads):
            if cur is None:
                cur = r
            else:
                ns.append(nd('Add', [cur, r], [f'{tag}{k}'], name=f'{tag}n{k}'))
                cur = f'{tag}{k}'
        ns.append(nd('Neg', [cur], [f'{tag}y'], name=f'{tag}f'))
        return helper.make_graph(ns, tag, [], [V(f'{tag}y')])
    ns = [nd('Relu', ['x'], ['t'], name='r')]
    ins = [V('x'), V('z')]
    inits = [W('w')]
    if cond == 'in':
        ins.append(V('c', [1], TP.BOOL))
    else:
        inits.append(W('c', np.array([cond == 'true'])))
    ns.append(nd('If', ['c'], ['i'], name='if', then_branch=body('a', t_reads), else_branch=body('b', e_reads)))
    ns.append(nd('Neg', ['i'], ['y'], name='o'))
    return gx.model(ns, ins, [V('y')], inits)


def m_dag(w, outs):
    ns = []
    for j, a in enumerate(w):
        op, at = {'u': ('Relu', {}), 'b': ('Sub', {}), 's': ('Split', {'axis': 1}), 'w': ('Mul', {})}[a.k]
        ns.append(nd(op, list(a.i) + (['w'] if a.k == 'w' else []), list(a.o), name=f'n{j}', **at))
    shp = {'x': [2, 8]}
    for a in w:
        s = list(np.broadcast_shapes(*[tuple(shp[i]) for i in a.i])) if not any(shp.get(i) is None for i in a.i) else None
        if a.k == 's':
            s = [s[0], s[1] // 2]
        for o in a.o:
            shp[o] = s
    wt = W('w', np.array([[2.0], [-1.0]], np.float32))
    return gx.model(ns, [V('x', [2, 8])], [V(o, shp[o]) for o in outs], [wt] if any(a.k == 'w' for a in w) else [])


def dag_ok(w):
    shp = {'x': (2, 8)}
    for a in w:
        try:
            s = np.broadcast_shapes(*[shp[i] for i in a.i])
        except ValueError:
            return False
        if a.k == 's':
            if s[1] % 2:
                return False
            s = (s[0], s[1] // 2)
        for o in a.o:
            shp[o] = s
    return True


TYPED = {'shape': ('Shape', ['x'], {}), 'size': ('Size', ['x'], {}), 'greater': ('Greater', ['x', 'w'], {}), 'argmax': ('ArgMax', ['x'], {'axis': 1, 'keepdims': 0}),
         'nonzero': ('NonZero', ['x'], {}), 'isnan': ('IsNaN', ['x'], {}), 'quant': ('QuantizeLinear', ['x', 'sf', 'zu'], {}), 'dquant': ('DynamicQuantizeLinear', ['x'], {}),
         'cofs': ('ConstantOfShape', ['ix'], {'value': W('v', np.array([2], np.int32))}), 'const': ('Constant', [], {'value_ints': [1, 2]}),
         'topk': ('TopK', ['x', 'k1'], {}), 'dropout': ('Dropout', ['x'], {}), 'maxpool': ('MaxPool', ['i4'], {'kernel_shape': [1, 1]}), 'eye': ('EyeLike', ['x'], {'dtype': 9})}
TYPED.update({f'cast{t}': ('Cast', ['x'], {'to': t}) for t in (1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13)})


def m_typed(k, vinfo, outs):
    """an inner tensor of some type, read by a type-preserving operator and by a Cast; vinfo: nothing, types or types and shapes recorded"""
    op, ins, at = TYPED[k]
    c = {'w': W(), 'sf': W('sf', np.array(0.5, np.float32)), 'zu': W('zu', np.array(3, np.uint8)), 'ix': W('ix', np.array([1, 2], np.int64)), 'k1': W('k1', np.array([1], np.int64))}
    nout = {'topk': 2, 'dropout': 2, 'dquant': 3, 'maxpool': 2}.get(k, 1)
    on = [f't{j}' for j in range(nout)]
    ns = [nd(op, ins, on, name='n', **at)]
    for j, o in enumerate(on):
        ns += [nd('Identity', [o], [f'i{j}'], name=f'id{j}'), nd('Cast', [f'i{j}'], [f'y{j}'], name=f'ca{j}', to=1)]
    m = gx.model(ns, [V('x')] * ('x' in ins) + [V('i4', [1, 4, 2, 2])] * ('i4' in ins), [helper.make_empty_tensor_value_info(f'y{j}') for j in range(nout)], [c[i] for i in ins if i in c], opset=13)
    full = onnx.shape_inference.infer_shapes(m)
    info = {v.name: v for v in full.graph.value_info}
    if outs:
        m.graph.output.append(info['t0'])
    del m.graph.output[:nout]
    m.graph.output.extend(list(full.graph.output))
    if vinfo != 'none':
        for v in info.values():
            if vinfo == 'types':
                v.type.tensor_type.ClearField('shape')
            m.graph.value_info.append(v)
    return m


OPTS = ['plain', 'inferred', 'no_shape', 'shape_only', 'folded', 'dangling', 'dangling+folded']


def cases(tier):
    aps = [k for k, _ in attr_protos()]
    for k in aps:
        for o in ('plain', 'no_shape'):
            yield f'attr/custom/{k}/{o}', (m_attr, (1, [k]), o)
    for a, b in itertools.product(aps, aps) if tier == 'thorough' else zip(aps, aps[1:]):
        yield f'attr2/{a}+{b}', (m_attr, (1, [a, b]), 'plain')
    for op in ('Foo', 'Relu', 'Conv'):
        for nm in ATTRNAMES:
            for k in ("int1", "strb'abc'", 'ints[1, 2, 3]', 'floats[1.0, 2.0]', 'graph'):
                yield f'attrname/{op}/{nm}/{k}'.replace(' ', ''), (m_attrname, (op, nm, k), 'plain')
    for j, (op, ins, _) in enumerate(STDATTR):
        for o in OPTS:
            yield f'std/{j}.{op}/{o}', (m_std, (j,), o)
    for n in range(1, 5):
        for pat in itertools.product((0, 1), repeat=n):
            if any(pat):
                yield f'optin/{pat}', (m_optin, ('Foo', pat), 'plain')
                yield f'optout/{pat}', (m_optout, (pat,), 'plain')
    for n in (1, 2, 3):
        for pat in itertools.product(('', 'a', 'b', 'Relu_0', 'Relu_1', 'Relu_2'), repeat=n):
            nn = [p for p in pat if p]
            if len(set(nn)) == len(nn):
                yield f'names/{pat}', (m_names, (pat,), 'plain')
    for k in IOKINDS:
        for o in OPTS:
            yield f'io/{k}/{o}', (m_io, (k,), o)
    for k in TYPED:
        for vi in ('none', 'types', 'full'):
            for outs in (0, 1):
                for o in OPTS:
                    yield f'typed/{k}/{vi}/{outs}/{o}', (m_typed, (k, vi, outs), o)
    from mc import c26_codec
    for tn in c26_codec.TYPES:
        for enc in ('raw', 'field'):
            if (tn, enc) == ('STRING', 'raw'):
                continue
            for sh in ([], [1], [3], [2, 2], [0], [2, 0]) + (([1, 2, 2],) if tier == 'thorough' else ()):
                for off in (0, 1, 2):
                    for o in ('plain', 'shape_only'):
                        yield f'init/{tn}/{enc}/{sh}/{off}/{o}'.replace(' ', ''), (m_init, (tn, enc, sh, off), o)
    for r in ('t', 'z', 'w', 'loc'):
        for cnd in ('in', 'true', 'false'):
            yield f'nested/{r}/{cnd}', (m_nested, (r, cnd), 'plain')
    reads = [['t'], ['z'], ['w'], ['t', 'w'], ['x', 'z']]
    for a, b in itertools.product(reads, reads):
        for cnd in ('in', 'true', 'false'):
            yield f'if/{a}/{b}/{cnd}'.replace(' ', ''), (m_if, (a, b, cnd), 'plain')
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        seen = set()
        for w in gx.wirings(n, ['x'], 'ubsw' if n < 4 else 'ubs'):
            key = gx.canonical(w, ['x'])
            if key in seen or not dag_ok(w):
                continue
            seen.add(key)
            base = gx.sinks(w)
            inner = [o for a in w for o in a.o if o not in base]
            extra = [[]] + [[t] for t in inner] + ([inner] if len(inner) > 1 else [])
            for ex in extra:
                for o in (('plain', 'inferred', 'dangling') if n < 4 else ('inferred',)):
                    yield f'dag/{w!r}/{"+".join(ex)}/{o}'.replace(' ', ''), (m_dag, (w, ex + base), o)


# ------------------------------------------------------------------ comparison
def tkey(v):
    t = v.type.tensor_type
    dims = None
    if t.HasField('shape'):
        dims = tuple(d.dim_value if d.HasField('dim_value') else (d.dim_param if d.HasField('dim_param') and d.dim_param else None) for d in t.shape.dim)
    return v.name, t.elem_type, dims


def tval(t):
    data = tuple(t.string_data) if t.data_type == TP.STRING else numpy_helper.to_array(t).tobytes()
    return t.data_type, tuple(t.dims), data


def akey(a):
    b = AP()
    b.CopyFrom(a)
    b.doc_string = ''
    if b.type == AP.TENSOR:
        return ('tensor', b.name) + tval(b.t)
    if b.type == AP.TENSORS:
        return ('tensors', b.name, tuple(map(tval, b.tensors)))
    return b.SerializeToString(deterministic=True)


def strip(names):
    names = list(names)
    while names and names[-1] == '':
        names.pop()
    return tuple(names)


def nkey(n):
    return (n.op_type, '' if n.domain == 'ai.onnx' else n.domain, strip(n.input), strip(n.output), tuple(sorted(map(repr, map(akey, n.attribute)))))


def used_outer(g):
    s = set()
    for n in g.node:
        s |= set(n.input)
        for a in n.attribute:
            if a.type == AP.GRAPH:
                s |= used_outer(a.g)
    return s | {o.name for o in g.output}


def diff(src, got, opt):
    a, b = src.graph, got.graph
    ini = {t.name for t in a.initializer}
    ka, kb = sorted(map(nkey, a.node), key=repr), sorted(map(nkey, b.node), key=repr)
    if not opt.endswith('folded') and ka != kb:
        x = [k for k in ka if k not in kb]
        y = [k for k in kb if k not in ka]
        yield 'nodes', f'lost {x[:2]} new {y[:2]}'
    if not opt.endswith('folded'):
        na = [n.name for n in a.node if n.name]
        nb = [n.name for n in b.node]
        if not set(na) <= set(nb):
            yield 'node-names', f'{na} -> {nb}'
    # inputs
    ia = [tkey(v) for v in a.input]
    ib = [tkey(v) for v in b.input]
    if opt == 'shape_only':
        ib = [k for k in ib if k[0] not in ini or k in ia]
        ia = [k for k in ia if k[0] not in ini or k in ib]
    if opt == 'inferred':
        # concrete dimensions may replace symbolic ones, never the reverse
        ok = len(ia) == len(ib) and all(x[0] == y[0] and x[1] == y[1] and x[2] is not None and y[2] is not None and len(x[2]) == len(y[2]) and
                                        all(not isinstance(p, int) or p == q for p, q in zip(x[2], y[2])) for x, y in zip(ia, ib))
    else:
        ok = ia == ib
    if not ok:
        yield 'inputs', f'{ia} -> {ib}'
    oa = [tkey(v) for v in a.output]
    ob = [tkey(v) for v in b.output]
    if opt.startswith('dangling'):
        # results nobody reads count as outputs too, after the declared ones
        read = used_outer(a) - {o.name for o in a.output}
        more = [o for n in a.node for o in n.output if o and o not in read and o not in {k[0] for k in oa}]
        kept = {o for n in b.node for o in n.output}
        ex = [k[0] for k in ob[len(oa):]]
        if len(set(ex)) != len(ex) or set(ex) - set(more) or (set(more) & kept) - set(ex):
            yield 'dangling-outputs', f'{oa} -> {ob}, unread {more}'
        ob = ob[:len(oa)]
    if [k[0] for k in oa] != [k[0] for k in ob]:
        yield 'outputs', f'{oa} -> {ob}'
    else:
        for x, y in zip(oa, ob):
            if x[1] != y[1]:
                yield 'output-type', f'{x} -> {y}'
            elif opt not in ('inferred', 'folded', 'dangling+folded') and x[2] != y[2]:
                yield 'output-shape', f'{x} -> {y}'
            elif x[2] is not None and (y[2] is None or len(x[2]) != len(y[2]) or any(isinstance(p, int) and p != q for p, q in zip(x[2], y[2]))):
                yield 'output-shape', f'{x} -> {y}'
    if {(o.domain if o.domain != 'ai.onnx' else '', o.version) for o in src.opset_import} != {(o.domain if o.domain != 'ai.onnx' else '', o.version) for o in got.opset_import}:
        yield 'opsets', f'{list(src.opset_import)} -> {list(got.opset_import)}'
    if src.ir_version != got.ir_version:
        yield 'ir-version', f'{src.ir_version} -> {got.ir_version}'
    if opt not in ('shape_only', 'folded', 'dangling+folded'):
        ca = {t.name: tval(t) for t in a.initializer if t.name in used_outer(a)}
        cb = {t.name: tval(t) for t in b.initializer if t.name in used_outer(b)}
        if ca != cb:
            yield 'initialisers', f'{sorted(ca)} -> {sorted(cb)} or contents differ'
    if opt == 'shape_only' and b.initializer:
        yield 'shape-only-weights', 'weights stored'


def feeds(m):
    r = {}
    ini = {t.name for t in m.graph.initializer}
    for k, v in enumerate(m.graph.input):
        if v.name in ini:
            continue
        _, t, dims = tkey(v)
        shape = [d if isinstance(d, int) else 2 for d in (dims or ())]
        n = int(np.prod(shape)) if shape else 1
        dt = helper.tensor_dtype_to_np_dtype(t)
        base = (np.arange(n) * (3 + k) % 7 - 3)
        r[v.name] = (base > 0).reshape(shape) if t == TP.BOOL else (base.astype(np.float32) * 0.5).astype(dt).reshape(shape)
    return r


def roundtrip(m, opt, path):
    cfg = {'constant_folding': True} if opt.endswith('folded') else {}
    if opt.startswith('dangling'):
        cfg['remove_dangling'] = False
    mod = tool(onnx_tool.loadmodel, m, cfg)
    if opt == 'inferred':
        fd = feeds(m)
        tool(mod.graph.shape_infer, fd)
    if os.path.exists(path):
        os.remove(path)
    tool(mod.save_model, path, shape_only=opt == 'shape_only', no_shape=opt == 'no_shape')
    if not os.path.exists(path):
        return None
    return onnx.load(path)


def run_case(cid, case, st):
    fn, args, opt = case
    m = fn(*args)
    try:
        onnx.checker.check_model(m)
    except Exception as e:
        raise AssertionError(f'harness built an invalid model {cid}: {e}')
    if st.cases % 99 == 0:
        st.sample(cid)
    keep = m.SerializeToString(deterministic=True)
    custom = any(n.domain for n in m.graph.node)
    if opt in ('inferred', 'folded', 'dangling+folded') and custom:
        return
    if opt == 'inferred' and cid.startswith('io/type16'):
        return
    p = os.path.join(tmpdir(), 'm.onnx')
    fam = cid.split('/')[0]
    try:
        got = roundtrip(m, opt, p)
    except ToolError as e:
        if e.args[0] == 'NotImplementedError' or 'has no value_infer' in e.args[1]:
            st.count('declined')
            return
        yield f'{fam}:raises:{e.args[0]}', ' '.join(e.args)
        return
    if got is None:
        yield f'{fam}:nothing-saved', ''
        return
    st.valid()
    st.state(got.SerializeToString(deterministic=True))
    if m.SerializeToString(deterministic=True) != keep and opt == 'plain':
        yield f'{fam}:source-modified', ''
    try:
        onnx.checker.check_model(got, full_check=True)
    except Exception as e:
        yield f'{fam}:checker', str(e)[:200]
    for sig, detail in diff(m, got, opt):
        yield f'{fam}:{sig}', detail
    # execution
    if not custom and opt != 'shape_only':
        fd = feeds(m)
        try:
            want = gx.evaluate(m, fd)
        except Exception:
            st.count('reference_cannot_run')
            want = None
        if want is not None:
            try:
                have = gx.evaluate(got, {k: v for k, v in fd.items()})
                for k in want:
                    if k not in have or not gx.close(want[k], have[k]):
                        yield f'{fam}:result', f'{k}: {have.get(k)} for {want[k]}'
            except Exception as e:
                yield f'{fam}:not-runnable', f'{type(e).__name__} {str(e)[:150]}'
            # recorded intermediate types and shapes are true
            if got.graph.value_info:
                m2 = onnx.ModelProto()
                m2.CopyFrom(m)
                known = {v.name for v in m2.graph.output}
                mids = [o for n in m2.graph.node for o in n.output if o and o not in known]
                m2.graph.output.extend([helper.make_empty_tensor_value_info(o) for o in mids])
                vals = gx.evaluate(m2, fd)
                for v in list(got.graph.value_info) + list(got.graph.output):
                    _, t, dims = tkey(v)
                    if v.name in vals and (dims is not None or v.name in mids):
                        wrong = t == 0 or helper.tensor_dtype_to_np_dtype(t) != vals[v.name].dtype
                        if dims is not None:
                            wrong |= len(dims) != vals[v.name].ndim
                            wrong |= any(isinstance(a, int) and a != b for a, b in zip(dims, vals[v.name].shape))
                            wrong |= opt == 'inferred' and any(not isinstance(a, int) for a in dims)
                        if wrong:
                            yield f'{fam}:recorded-shape', f'{v.name}: {dims} {t} for {vals[v.name].shape} {vals[v.name].dtype}'
                miss = [o for o in mids if o not in {v.name for v in got.graph.value_info}]
                if miss and opt == 'inferred':
                    yield f'{fam}:shape-not-recorded', str(miss)
    if opt == 'no_shape' and got.graph.value_info:
        yield f'{fam}:no-shape', 'intermediate shapes stored'
    # second round trip
    if opt in ('plain', 'no_shape', 'inferred'):
        got2 = roundtrip(got, 'no_shape' if opt == 'no_shape' else 'plain', p)
        if got2 is None:
            yield f'{fam}:second-empty', ''
        else:
            x, y = [], []
            for mm, acc in ((got, x), (got2, y)):
                acc += [nkey(n) + (n.name,) for n in mm.graph.node] + [tkey(v) for v in mm.graph.input] + [tkey(v) for v in mm.graph.output]
                acc += sorted((tkey(v) for v in mm.graph.value_info), key=repr) + sorted((t.name,) + tval(t) for t in mm.graph.initializer)
            if x != y:
                d = [k for k in x if k not in y] + [k for k in y if k not in x]
                yield f'{fam}:second-differs', str(d)[:300]
