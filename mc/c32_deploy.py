"""C32: the files written for deployment (graph, shape engine, memory plan) are enough to run the model."""
import functools
import itertools
import math
import os
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from onnx.reference import ReferenceEvaluator
from mc import gx
from mc.core import tool, ToolError
from mc.c21_binary import read_graph, read_engine, read_memory
from onnx_tool.fusion import FusionPattern, ConvBNFusion, Fused_Element, Conv_Res
from onnx_tool.serialization import serialize_graph, serialize_shape_engine, serialize_memory_compression

PID = 'C32'
TECH = ('exhaustive enumeration of models x deployment pipelines x input shapes; a small virtual machine of our own reads the three files, keeps every activation as bytes at its planned offset of one arena, and its results are compared with the ONNX reference execution of the source model')
RULE = ('all wirings of up to 3 (thorough 4) nodes over 5 kinds with symbolic batch, and 12 networks (convolution, residual, attention, normalisation, split/concat, shape chains) x constant folding off/on x every sequence of deployment passes (ConvBN fusion, element-wise fusion recorded as attributes, residual fusion, removal of reshapes, reordering) of the network '
        'x plan padding 1 and 64 x engine made before or after the others; run at every shape in range (quick: ends and middle), ascending and descending, in an arena filled with garbage')
ASSUME = ['a recorded post-operator reads the result so far and, for binary ones, one further operand of the fused node in order', 'the planned block of a tensor holds its values at every smaller shape in range']
nd = helper.make_node
F, I = np.float32, np.int64


def r_(*s):
    return ((np.arange(int(np.prod(s))) * 7 % 11 - 5) / 4).astype(F).reshape(s)


def ini(n, a):
    return numpy_helper.from_array(np.asarray(a), n)


def mod(nodes, ins, outs, inits=()):
    return gx.model(nodes, [helper.make_tensor_value_info(n, TP.FLOAT, [None if isinstance(d, str) else d for d in s]) for n, s in ins], [helper.make_empty_tensor_value_info(o) for o in outs], inits)


def bn(i, o, n, c):
    return nd('BatchNormalization', [i, f's{n}', f'b{n}', f'm{n}', f'v{n}'], [o], name=f'bn{n}'), [ini(f's{n}', r_(c) + F(1.5)), ini(f'b{n}', r_(c)), ini(f'm{n}', r_(c)), ini(f'v{n}', np.abs(r_(c)) + F(1))]


def conv(i, w, o, n, **k):
    return nd('Conv', [i, w], [o], name=n, kernel_shape=[3, 3], pads=[1, 1, 1, 1], **k)


def n_res(swap, tail):
    b1, i1 = bn('a', 'b', 1, 2)
    b2, i2 = bn('d', 'e', 2, 2)
    ns = [conv('x', 'w1', 'a', 'c1'), b1, nd('Relu', ['b'], ['c'], name='r1'), conv('c', 'w2', 'd', 'c2'), b2, nd('Add', ['x', 'e'] if swap else ['e', 'x'], ['f'], name='ad'), nd('Relu', ['f'], ['g'], name='r2')]
    inits = [ini('w1', r_(2, 2, 3, 3)), ini('w2', r_(2, 2, 3, 3)[::-1].copy())] + i1 + i2
    out = 'g'
    if tail:
        ns += [nd('GlobalAveragePool', ['g'], ['h'], name='gap'), nd('Flatten', ['h'], ['i'], name='fl'), nd('Gemm', ['i', 'gw', 'gb'], ['y'], name='gm', transB=1)]
        inits += [ini('gw', r_(3, 2)), ini('gb', r_(3))]
        out = 'y'
    return mod(ns, [('x', ['n', 2, 'h', 'w'])], [out], inits), {'x': ['n', 2, 'h', 'w']}, {'n': (1, 2), 'h': (3, 5), 'w': (2, 4)}


def n_stack():
    b1, i1 = bn('p', 'b', 1, 3)
    return mod([conv('x', 'w1', 'a', 'c1', strides=[2, 2]), nd('MaxPool', ['a'], ['p'], name='mp', kernel_shape=[2, 2], strides=[1, 1]), b1, nd('LeakyRelu', ['b'], ['c'], name='lr', alpha=0.3), conv('c', 'w2', 'd', 'c2'), nd('Relu', ['d'], ['e'], name='r'), nd('Concat', ['c', 'e'], ['f'], name='cc', axis=1), nd('ReduceMean', ['f'], ['y'], name='rm', axes=[2, 3], keepdims=0)],
               [('x', ['n', 2, 'h', 5])], ['y', 'e'], [ini('w1', r_(3, 2, 3, 3)), ini('w2', r_(2, 3, 3, 3))] + i1), {'x': ['n', 2, 'h', 5]}, {'n': (1, 3), 'h': (4, 9)}


def n_attn():
    n = []
    for p in 'qkv':
        n += [nd('MatMul', ['x', 'w' + p], [p + '0'], name='mm' + p), nd('Reshape', [p + '0', 'sh'], [p + '1'], name='rs' + p), nd('Transpose', [p + '1'], [p + '2'], name='tr' + p, perm=[0, 2, 3, 1] if p == 'k' else [0, 2, 1, 3])]
    n += [nd('MatMul', ['q2', 'k2'], ['s'], name='qk'), nd('Div', ['s', 'sc'], ['s1'], name='dv'), nd('Softmax', ['s1'], ['s2'], name='sm', axis=-1), nd('MatMul', ['s2', 'v2'], ['o'], name='pv'), nd('Transpose', ['o'], ['o1'], name='tro', perm=[0, 2, 1, 3]), nd('Reshape', ['o1', 'sh2'], ['o2'], name='rso'), nd('Add', ['o2', 'x'], ['y'], name='ad')]
    return mod(n, [('x', ['n', 's', 4])], ['y'], [ini('w' + p, r_(4, 4)) for p in 'qkv'] + [ini('sh', np.array([0, 0, 2, 2], I)), ini('sh2', np.array([0, 0, -1], I)), ini('sc', np.array(2, F))]), {'x': ['n', 's', 4]}, {'n': (1, 3), 's': (1, 4)}


def n_shape():
    return mod([nd('Shape', ['x'], ['s'], name='sh'), nd('Gather', ['s', 'i0'], ['d'], name='g', axis=0), nd('Concat', ['d', 'm1'], ['t'], name='cc', axis=0), nd('MatMul', ['x', 'w'], ['a'], name='mm'), nd('Reshape', ['a', 't'], ['b'], name='rs'), nd('Relu', ['b'], ['c'], name='r'), nd('Shape', ['a'], ['s2'], name='sh2'), nd('Reshape', ['c', 's2'], ['e'], name='rs2'),
                nd('Add', ['e', 'a'], ['f'], name='ad'), nd('Expand', ['one', 's2'], ['z'], name='ex'), nd('Mul', ['f', 'z'], ['y'], name='mu')],
               [('x', ['n', 's', 3])], ['y'], [ini('i0', np.array([0], I)), ini('m1', np.array([-1], I)), ini('w', r_(3, 2)), ini('one', np.array([2], F))]), {'x': ['n', 's', 3]}, {'n': (1, 3), 's': (2, 5)}


def n_norm():
    return mod([nd('ReduceMean', ['x'], ['m'], name='m', axes=[-1]), nd('Sub', ['x', 'm'], ['d'], name='s'), nd('Pow', ['d', 'two'], ['p'], name='p'), nd('ReduceMean', ['p'], ['v'], name='m2', axes=[-1]), nd('Add', ['v', 'eps'], ['v1'], name='ae'), nd('Sqrt', ['v1'], ['q'], name='sq'), nd('Div', ['d', 'q'], ['n'], name='dv'),
                nd('Mul', ['n', 'g'], ['g1'], name='mg'), nd('Add', ['g1', 'b'], ['y'], name='ab')], [('x', ['n', 's', 4])], ['y'], [ini('two', np.array([2], F)), ini('eps', np.array([1e-5], F)), ini('g', r_(4)), ini('b', r_(4))]), {'x': ['n', 's', 4]}, {'n': (1, 2), 's': (1, 5)}


def n_gate():
    return mod([nd('Gemm', ['x', 'w', 'b'], ['a'], name='ge'), nd('Split', ['a'], ['l', 'r'], name='sp', axis=1), nd('Sigmoid', ['r'], ['g'], name='sg'), nd('Mul', ['l', 'g'], ['m'], name='mu'), nd('Relu', ['m'], ['e'], name='re'), nd('Concat', ['e', 'l', 'z'], ['c'], name='cc', axis=1), nd('Unsqueeze', ['c', 'ax'], ['u'], name='un'), nd('Squeeze', ['u', 'ax'], ['y'], name='sq'), nd('Sum', ['l', 'e', 'g'], ['y2'], name='su')],
               [('x', ['n', 3]), ('z', ['n', 'k'])], ['y', 'y2'], [ini('w', r_(3, 4)), ini('b', r_(4)), ini('ax', np.array([0], I))]), {'x': ['n', 3], 'z': ['n', 'k']}, {'n': (1, 4), 'k': (1, 3)}


def n_elem():
    return mod([nd('Relu', ['x'], ['a'], name='r1'), nd('Add', ['a', 'x'], ['b'], name='a1'), nd('LeakyRelu', ['b'], ['c'], name='l1', alpha=0.5), nd('Add', ['c', 'z'], ['d'], name='a2'), nd('Relu', ['d'], ['e'], name='r2'), nd('Mul', ['e', 'a'], ['y'], name='m')], [('x', ['n', 3]), ('z', ['n', 3])], ['y'], []), {'x': ['n', 3], 'z': ['n', 3]}, {'n': (1, 5)}


def n_up():
    return mod([conv('x', 'w', 'a', 'c'), nd('ConvTranspose', ['a', 'u'], ['b'], name='ct', strides=[2, 2]), nd('Relu', ['b'], ['c'], name='r'), nd('AveragePool', ['c'], ['d'], name='ap', kernel_shape=[2, 2], strides=[2, 2]), nd('Add', ['d', 'x'], ['e'], name='ad'), nd('Tanh', ['e'], ['y'], name='th')],
               [('x', [1, 2, 'h', 'w'])], ['y'], [ini('w', r_(2, 2, 3, 3)), ini('u', r_(2, 2, 2, 2))]), {'x': [1, 2, 'h', 'w']}, {'h': (2, 5), 'w': (2, 5)}


def n_flat(op):
    mid = {'Flatten': nd('Flatten', ['b'], ['c'], name='fl'), 'Reshape': nd('Reshape', ['b', 'sh'], ['c'], name='fl'), 'Squeeze': nd('Squeeze', ['b', 'ax'], ['c'], name='fl')}[op]
    return mod([nd('Relu', ['x'], ['a'], name='r'), nd('GlobalAveragePool', ['a'], ['b'], name='gap'), mid, nd('Relu', ['c'], ['d'], name='r2'), nd('MatMul', ['d', 'w'], ['y'], name='mm')],
               [('x', ['n', 2, 'h', 3])], ['y'], [ini('w', r_(2, 3))] + ([ini('sh', np.array([-1, 2], I))] if op == 'Reshape' else [ini('ax', np.array([2, 3], I))] if op == 'Squeeze' else [])), {'x': ['n', 2, 'h', 3]}, {'n': (1, 4), 'h': (1, 3)}


NETS = {'res': lambda: n_res(False, False), 'resswap': lambda: n_res(True, False), 'restail': lambda: n_res(False, True), 'resswaptail': lambda: n_res(True, True), 'stack': n_stack, 'attn': n_attn, 'shape': n_shape, 'norm': n_norm, 'gate': n_gate, 'elem': n_elem, 'up': n_up,
        'flatten': lambda: n_flat('Flatten'), 'reshape': lambda: n_flat('Reshape'), 'squeeze': lambda: n_flat('Squeeze')}
# which passes are worth applying: b ConvBN, e element-wise, r residual, s flattening removed by pattern, o reorder
PASSES = {'res': 'bero', 'resswap': 'bero', 'restail': 'beros', 'resswaptail': 'beros', 'stack': 'beo', 'attn': 'eo', 'shape': 'eo', 'norm': 'eo', 'gate': 'eo', 'elem': 'eo', 'up': 'ero', 'flatten': 'eos', 'reshape': 'eos', 'squeeze': 'eo'}
PASSES = {k: v.replace('e', 'eE') for k, v in PASSES.items()}

REMOVE = [{'name': 'any', 'op': 'Any', 'attrs': [], 'inport': [], 'outport': [[0, 'fla', 0]]}, {'name': 'fla', 'op': ['Flatten', 'Reshape'], 'attrs': [], 'inport': [[0, 'any', 0]], 'outport': []}]


@functools.lru_cache(None)
def net(key, down=False):
    m, d, r = NETS[key]()
    if down:
        for j, n in enumerate(m.graph.node):      # names fall while the order rises
            n.name = f'n{99 - j}'
    return m, d, r


KIND = {'u': lambda n, i, o: nd('Relu', i, o, name=n), 'v': lambda n, i, o: nd('Neg', i, o, name=n), 'b': lambda n, i, o: nd('Add', i, o, name=n), 'c': lambda n, i, o: nd('Concat', i, o, name=n, axis=0), 's': lambda n, i, o: nd('TopK', list(i) + ['k'], o, name=n, axis=1)}


def wired(w, ex):
    nodes = [KIND[x.k](f'n{j}', list(x.i), list(x.o)) for j, x in enumerate(w)]
    idx = {o for n in nodes if n.op_type == 'TopK' for o in n.output[1:]}
    outs = list(dict.fromkeys(gx.sinks(w) + list(ex)))
    return mod(nodes, [('x', ['n', 2])], outs, [ini('k', np.array([2], I))]), {'x': ['n', 2]}, {'n': (1, 3)}


def wire_cases(th):
    for n in (1, 2, 3) + ((4,) if th else ()):
        seen = set()
        for w in gx.wirings(n, ['x'], 'uvbs' if n < 4 else 'ub'):
            if any(i.endswith('b') and i != 'b' for x in w for i in x.i):
                continue          # the indices of TopK are left alone
            k = gx.canonical(w, ['x'])
            if k in seen:
                continue
            seen.add(k)
            inner = [o for x in w for o in x.o if o not in gx.sinks(w)]
            for ex in [()] + [(o,) for o in inner]:
                yield w, ex


def cases(tier):
    th = tier == 'thorough'
    for key in NETS:
        ps = PASSES[key]
        for fold in (False, True):
            for k in range(len(ps) + 1):
                for seq in itertools.permutations(ps, k):
                    if 'e' in seq and 'E' in seq:
                        continue
                    if not th and k == len(ps) and k > 3 and seq[0] != 'b':
                        continue
                    for pad in (64,) if not th and k else (1, 64):
                        yield f'{key}/{"fold" if fold else "nofold"}/{"".join(seq) or "-"}/{pad}', ('net', key, fold, ''.join(seq), pad, th)
    for w, ex in wire_cases(th):
        for seq in ('', 'e', 'eo', 'oe', 'E'):
            yield f'{w!r}/{",".join(ex)}/{seq or "-"}'.replace(' ', ''), ('wire', (w, ex), False, seq, 1, th)


# ---------------------------------------------------------------- the pipeline
def deploy(m, desc, rng, fold, seq, pad, st):
    """runs the documented pipeline and returns the bytes of the three files"""
    g = gx.load(m, constant_folding=fold)
    se = tool(functools.partial(g.shape_regress, {k: list(v) for k, v in desc.items()}, dict(rng)))
    with gx.scratch() as d:
        fs = [os.path.join(d, f'm.{e}') for e in ('se', 'cm', 'cg')]
        tool(serialize_shape_engine, se, fs[0])
        mx = {k: v[1] for k, v in rng.items()}
        feed = {t: np.zeros([mx.get(x, x) for x in s], F) for t, s in desc.items()}
        tool(g.shape_infer, feed)
        cg = tool(g.get_compute_graph)
        for c in seq.replace('E', 'eoeo'):     # E: fuse again into what is fused already
            if c == 'b':
                tool(ConvBNFusion, cg)
            elif c in 'ers':
                # only groups whose inner results nobody else sees
                pat = FusionPattern({'e': Fused_Element, 'r': Conv_Res, 's': REMOVE}[c], inplace_fusion=True)
                for names in tool(pat.search_pattern, cg):
                    inner = {t for n in names if n in cg.nodemap for t in cg.nodemap[n].output}
                    if any(len([t for t in cg.nodemap[n].input if t in inner]) > 1 for n in names[1:]):
                        continue      # Add(a, a) leaves no operand to record
                    if c == 's' and len([t for t in cg.nodemap[names[1]].input if t]) > 1:
                        continue      # its operand would be left to the first operator
                    tool(cg.fuse_postop_node_names, names, c != 's')
                    st.count('fused_groups')
            elif c == 'o':
                tool(cg.graph_reorder_nodes)
        if seq and seq[-1] != 'o':
            tool(cg.graph_reorder_nodes)
        mem = tool(functools.partial(cg.compress_memory, size_padding=pad))
        tool(serialize_memory_compression, mem, mx, fs[1])
        tool(serialize_graph, cg, fs[2])
        return [open(f, 'rb').read() for f in fs], list(cg.output)


# ---------------------------------------------------------------- the virtual machine
BINARY = {'Add', 'Mul', 'Sub', 'Div'}
A = onnx.defs.OpSchema.AttrType


@functools.lru_cache(5000)
def op(kind, attrs, nin, nout, have):
    sch = onnx.defs.get_schema(kind, 17)
    at = {}
    for k, t, vs in attrs:
        ty = sch.attributes[k].type
        v = [x for x in vs]
        at[k] = v if ty in (A.INTS, A.FLOATS, A.STRINGS) else v[0]
    ins = [f'i{j}' if h else '' for j, h in enumerate(have)]
    n = helper.make_node(kind, ins, [f'o{j}' for j in range(nout)], **at)
    g = helper.make_graph([n], 'g', [helper.make_empty_tensor_value_info(i) for i in ins if i], [helper.make_empty_tensor_value_info(f'o{j}') for j in range(nout)])
    return ReferenceEvaluator(helper.make_model(g, opset_imports=[helper.make_opsetid('', 17)], ir_version=8))


def run_op(kind, attrs, ins, nout):
    have = tuple(i is not None for i in ins)
    return [np.asarray(v) for v in op(kind, attrs, len(ins), nout, have).run(None, {f'i{j}': v for j, v in enumerate(ins) if v is not None})]


def program(at):
    """own attributes, and the operators to apply to the result (each of which may carry further ones)"""
    main = tuple((k, t, tuple(v)) for k, (t, v) in at.items() if not k.startswith('postop_'))
    steps = []
    for j in range(at.get('postop_count', (0, [0]))[1][0]):
        p = f'postop_{j}_'
        a, more = program({k[len(p):]: v for k, v in at.items() if k.startswith(p)})
        steps += [(at[p[:-1]][1][0].decode(), a)] + more
    return main, steps


SHAPED = {'Reshape', 'Flatten', 'Squeeze', 'Unsqueeze'}


class VM:
    def __init__(self, files):
        self.var, self.desc, self.exprs = read_engine(files[0])
        self.total, self.blocks, self.mx = read_memory(files[1])
        self.nodes, ts = read_graph(files[2])
        self.weights = dict(ts)
        self.arena = np.zeros(self.total, np.uint8)

    def shape(self, t):
        return [v if isinstance(v, int) else self.env[v] for v in self.desc[t]]

    def get(self, t):
        if t == '':
            return None
        if t in self.weights:
            return self.weights[t]
        if t in self.ins:
            return self.ins[t]
        s = self.shape(t)
        off, size = self.blocks[t]
        n = int(np.prod(s)) * self.types[t].itemsize
        if n > size:
            raise ValueError(f'{t} of shape {s} does not fit its block of {size} bytes')
        return self.arena[off:off + n].copy().view(self.types[t]).reshape(s)

    def put(self, t, a):
        off, size = self.blocks[t]
        s = self.shape(t)
        if int(np.prod(s)) != a.size:
            raise ValueError(f'{t} is announced as {s}, the result is {a.shape}')
        b = np.ascontiguousarray(a).reshape(-1).view(np.uint8)
        if b.size > size or off < 0 or off + b.size > self.total:
            raise ValueError(f'{t}: {b.size} bytes do not fit block {off}+{size} of arena {self.total}')
        self.types[t] = a.dtype
        self.arena[off:off + b.size] = b

    def run(self, values, ins, outs, garbage):
        self.env = {v: 0 for v in self.var}
        self.env.update(values)
        for name, src, al, be, fac, tr in self.exprs:
            y = al * self.env[src] + be if fac == 0 else self.env[src] / al + be
            self.env[name] = math.ceil(y) if tr == 0 else math.floor(y)
        self.ins, self.types = ins, {}
        if garbage is not None:
            self.arena[:] = garbage
        for name, kind, i, o, at in self.nodes:
            main, steps = program(at)
            extra = sum(k in BINARY for k, _ in steps)
            own, rest = (i[:len(i) - extra], i[len(i) - extra:]) if extra else (i, [])
            if kind in SHAPED:
                res = [self.get(own[0]).reshape(self.shape(o[0]))]
            elif kind == 'Expand':
                res = [np.broadcast_to(self.get(own[0]), np.broadcast_shapes(tuple(self.shape(o[0])), self.get(own[0]).shape))]
            else:
                res = run_op(kind, main, [self.get(t) for t in own], max(1, len(o)))
            for k, a in steps:
                args = [res[0]] + ([self.get(rest.pop(0))] if k in BINARY else [])
                res = [run_op(k, a, args, 1)[0]] + res[1:]
            for t, v in zip(o, res):
                if t:
                    self.put(t, v)
        return {t: self.get(t) for t in outs}


def values_of(rng, full):
    ax = []
    for k, (a, b) in rng.items():
        ax.append(list(range(a, b + 1)) if full else sorted({a, (a + b) // 2, b}))
    return [dict(zip(rng, p)) for p in itertools.product(*ax)]


_want = {}


def want(key, m, desc, pts):
    if key not in _want:
        if len(_want) > 30:
            _want.clear()
        ref = ReferenceEvaluator(m)
        res = []
        for j, p in enumerate(pts):
            f = {t: (r_(*[p.get(x, x) for x in s]) + F(j / 8)).astype(F) for t, s in desc.items()}
            res.append((p, f, dict(zip([o.name for o in m.graph.output], [np.asarray(v) for v in ref.run(None, f)]))))
        _want[key] = res
    return _want[key]


def run_case(cid, case, st):
    how, key, fold, seq, pad, th = case
    m, desc, rng = net(key, fold) if how == 'net' else wired(*key)
    try:
        files, outs = deploy(m, desc, rng, fold, seq, pad, st)
    except ToolError as e:
        yield f'deploy:{e.args[0]}', ' '.join(e.args)
        return
    st.state(b''.join(files))
    names = [o.name for o in m.graph.output]
    if sorted(outs) != sorted(names):
        yield 'outputs', f'{outs} for {names}'
        return
    vm = VM(files)
    if vm.mx != {k: v[1] for k, v in rng.items()}:
        yield 'max-shape', f'{vm.mx}'
    pts = want(repr((how, key, th)), m, desc, values_of(rng, th))
    for order in (pts, pts[::-1]):
        for j, (p, f, w) in enumerate(order):
            try:
                got = vm.run(p, f, names, [None, 0, 255, 77][j % 4])
            except Exception as e:  # the files do not describe an executable program
                yield f'not-executable:{type(e).__name__}', f'at {p}: {e}'
                return
            st.valid()
            for t in names:
                if list(got[t].shape) != list(w[t].shape):
                    yield 'shape', f'{t} at {p}: {got[t].shape} for {w[t].shape}'
                    return
                if not gx.close(w[t], got[t], 1e-4):
                    yield 'values', f'{t} at {p}: {got[t].ravel()[:6]} for {w[t].ravel()[:6]}'
                    return
