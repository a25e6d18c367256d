"""C29: the inference engine (inference/: GraphInfer, MemoryPool, kernels) computes what the model computes, at every shape in range and for every sequence of calls."""
import contextlib
import io
import itertools
import os
import sys
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from onnx.reference import ReferenceEvaluator
from mc import core, gx, torchlike
from mc.core import tool, ToolError

torch = torchlike.install()
sys.path.insert(2, os.path.join(core.REPO, 'inference'))
sys.path.insert(3, os.path.join(core.REPO, 'benchmark', '..'))
import infer              # noqa: E402  the engine, from /repo/inference
import memory_pool        # noqa: E402

PID = 'C29'
TECH = 'exhaustive enumeration of small models x shape ranges x walks over all ordered pairs (thorough: triples) of input shapes, executed by the real engine on a numpy stand-in of torch; oracle is the ONNX reference evaluator'
RULE = ('every wiring of up to three (thorough: four) nodes over seven node kinds, 30 small networks with one or two shape variables, and every kernel of the registry over its attribute space (windows, axes, permutations, slices, omitted operands, constants); '
        'one engine per model, run along a walk which contains every ordered pair (triple) of the shapes in range with changing data; every allocation of a memory pool of up to four blocks with every access')
ASSUME = ['the numpy stand-in implements the torch functions the engine calls (it is stricter where torch would leave the pool)', 'the ONNX reference evaluator is correct']
nd = helper.make_node
F = np.float32


def data(shape, k, dt=F):
    n = int(np.prod(shape))
    a = ((np.arange(n) * (3 + 2 * (k % 3)) + 2 * k) % 7 - 2.5 + k % 4).reshape(shape)
    return a.astype(dt)


def vi(n, s, t=TP.FLOAT):
    return helper.make_tensor_value_info(n, t, s)


def build(ns, desc, outs, inits, opset, types=None):
    types = types or {}
    return gx.model(ns, [vi(k, list(d), types.get(k, TP.FLOAT)) for k, d in desc.items()], [vi(o, None) for o in outs],
                    [numpy_helper.from_array(np.asarray(a), n) for n, a in inits.items()], opset=opset)


def walk(n, th):
    """a sequence of 0..n-1 which contains every ordered pair (thorough: triple), equal ones too"""
    order = 3 if th else 2
    a, seq = [0] * n * order, []

    def db(t, p):
        if t > order:
            if order % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, n):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:order - 1]


# ---------------------------------------------------------------- wirings
KINDS = {'u': ('Relu', 1, 1), 'n': ('Neg', 1, 1), 'b': ('Sub', 2, 1), 'c': ('Concat', 2, 1), 's': ('Split', 1, 2), 'm': ('Mul', 1, 1), 'p': ('MaxPool', 1, 1)}


def wirings(n):
    def rec(k, avail, nodes):
        if k == n:
            yield tuple(nodes)
            return
        for kd, (op, a, o) in KINDS.items():
            if kd == 'p':
                continue
            for ins in itertools.product(avail, repeat=a):
                outs = (f't{k}', f't{k}b') if o == 2 else (f't{k}',)
                yield from rec(k + 1, avail + list(outs), nodes + [(kd, ins, outs)])
    yield from rec(0, ['x', 'z'] if n < 3 else ['x'], [])


def wire_model(w, outs):
    ns = []
    for j, (kd, ins, os_) in enumerate(w):
        op = KINDS[kd][0]
        at = {'axis': 1} if op in ('Concat', 'Split') else {}
        ns.append(nd(op, list(ins) + (['w'] if kd == 'm' else []), list(os_), name=f'n{j}', **at))
    desc = {t: ('n', 8) for t in 'xz' if any(t in i for _, i, _ in w)}
    return build(ns, desc, outs, {'w': data((1, 8), 3)}, 17), desc


# ---------------------------------------------------------------- networks: name -> (nodes, desc, outs, inits, ranges, opset)
def nets():
    r = {}

    def net(name, ns, desc, outs, inits, ranges, opset=17):
        r[name] = ([nd(op, i, o, name=f'{op}{j}', **a) for j, (op, i, o, a) in enumerate(ns)], desc, outs, {k: np.asarray(v) for k, v in inits.items()}, ranges, opset)
    R = lambda i, o='y': ('Relu', [i], [o], {})
    net('chain', [R('x', 'a'), ('Neg', ['a'], ['b'], {}), ('Sigmoid', ['b'], ['c'], {}), ('Tanh', ['c'], ['y'], {})], {'x': ('n', 3)}, ['y'], {}, {'n': (1, 4)})
    net('residual', [R('x', 'a'), ('Mul', ['a', 'w'], ['b'], {}), ('Add', ['b', 'x'], ['c'], {}), R('c', 'd'), ('Sub', ['d', 'a'], ['e'], {}), ('Add', ['e', 'c'], ['y'], {})], {'x': ('n', 3)}, ['y'], {'w': data((3,), 1)}, {'n': (1, 5)})
    net('outputs', [R('x', 'a'), ('Neg', ['a'], ['b'], {}), ('Exp', ['b'], ['q'], {}) if 0 else ('Tanh', ['b'], ['q'], {}), ('Add', ['q', 'a'], ['y'], {})], {'x': ('n', 3)}, ['a', 'y', 'b'], {}, {'n': (1, 4)})
    net('twovars', [('MatMul', ['x', 'z'], ['a'], {}), R('a')], {'x': ('n', 3), 'z': (3, 'm')}, ['y'], {}, {'n': (1, 3), 'm': (1, 3)})
    net('twovars_swapped', [('MatMul', ['z', 'x'], ['a'], {}), R('a')], {'x': (3, 'm'), 'z': ('n', 3)}, ['y'], {}, {'n': (1, 3), 'm': (1, 3)})
    net('ranks', [('Add', ['x', 'z'], ['a'], {}), R('a')], {'x': ('n', 1, 4), 'z': ('m', 1)}, ['y'], {}, {'n': (1, 3), 'm': (1, 3)})
    net('area', [('MaxPool', ['x'], ['a'], {'kernel_shape': [2, 2], 'strides': [2, 2]}), ('GlobalAveragePool', ['a'], ['g'], {}), ('Mul', ['a', 'g'], ['y'], {})], {'x': (1, 2, 'h', 'w')}, ['y'], {}, {'h': (2, 6), 'w': (2, 6)})
    net('cnn', [('Conv', ['x', 'w', 'b'], ['c'], {'pads': [1, 1, 1, 1], 'strides': [2, 2]}), ('BatchNormalization', ['c', 's', 'o', 'm', 'v'], ['q'], {}), R('q', 'r'), ('AveragePool', ['r'], ['p'], {'kernel_shape': [2, 2]}), ('GlobalAveragePool', ['p'], ['g'], {}),
                ('Flatten', ['g'], ['f'], {}), ('Gemm', ['f', 'k', 'l'], ['y'], {'transB': 1})], {'x': ('n', 2, 'h', 6)}, ['y', 'r'],
        {'w': data((3, 2, 3, 3), 0), 'b': data((3,), 0), 's': data((3,), 1), 'o': data((3,), 2), 'm': data((3,), 0), 'v': np.array([1, 2, .5], F), 'k': data((4, 3), 0), 'l': data((4,), 1)}, {'n': (1, 2), 'h': (4, 9)})
    net('upsample', [('Conv', ['x', 'w'], ['c'], {'pads': [1, 1, 1, 1]}), ('Concat', ['c', 'x'], ['d'], {'axis': 1}), ('Conv', ['d', 'k'], ['e'], {}), ('Add', ['e', 'x'], ['y'], {})], {'x': (1, 2, 'h', 'w')}, ['y'], {'w': data((3, 2, 3, 3), 1), 'k': data((2, 5, 1, 1), 2)}, {'h': (1, 4), 'w': (2, 5)})
    net('reshape_const', [R('x', 'a'), ('Reshape', ['a', 't'], ['b'], {}), ('Neg', ['b'], ['y'], {})], {'x': ('n', 2, 3)}, ['y'], {'t': [0, -1]}, {'n': (1, 4)})
    net('reshape_dyn', [('Shape', ['x'], ['s'], {}), ('Gather', ['s', 'i'], ['d'], {'axis': 0}), ('Concat', ['d', 'k'], ['t'], {'axis': 0}), R('x', 'a'), ('Reshape', ['a', 't'], ['b'], {}), ('Neg', ['b'], ['y'], {})], {'x': ('n', 2, 3)}, ['y'], {'i': [0], 'k': [-1]}, {'n': (1, 4)})
    net('reshape_merge', [('Shape', ['x'], ['s'], {}), ('Gather', ['s', 'i'], ['d'], {'axis': 0}), ('Gather', ['s', 'j'], ['e'], {'axis': 0}), ('Mul', ['d', 'e'], ['m'], {}), ('Concat', ['m', 'k'], ['t'], {'axis': 0}), ('Reshape', ['x', 't'], ['b'], {}), ('MatMul', ['b', 'w'], ['y'], {})],
        {'x': (2, 'n', 3)}, ['y'], {'i': [0], 'j': [1], 'k': [3], 'w': data((3, 2), 0)}, {'n': (1, 4)})
    net('expand_dyn', [('Shape', ['x'], ['s'], {}), R('z', 'r'), ('Expand', ['r', 's'], ['e'], {}), ('Mul', ['e', 'x'], ['y'], {})], {'x': ('n', 3), 'z': (1, 3)}, ['y'], {}, {'n': (1, 4)})
    net('slice_dyn', [('Shape', ['z'], ['s'], {}), ('Gather', ['s', 'i'], ['e'], {'axis': 0}), R('x', 'a'), ('Slice', ['a', 'b0', 'e', 'ax'], ['c'], {}), ('Add', ['c', 'z'], ['y'], {})], {'x': (5, 2), 'z': ('n', 2)}, ['y'], {'i': [0], 'b0': [0], 'ax': [0]}, {'n': (1, 4)})
    net('tile_dyn', [('Shape', ['x'], ['s'], {}), R('z', 'a'), ('Tile', ['a', 's'], ['y'], {})], {'x': ('n', 2), 'z': (1, 3)}, ['y'], {}, {'n': (1, 3)})
    net('heads', [('MatMul', ['x', 'wq'], ['q'], {}), ('Reshape', ['q', 't'], ['a'], {}), ('Transpose', ['a'], ['b'], {'perm': [0, 2, 1, 3]}), ('Transpose', ['a'], ['c'], {'perm': [0, 2, 3, 1]}), ('MatMul', ['b', 'c'], ['d'], {}), ('Div', ['d', 'k'], ['e'], {}),
                  ('Softmax', ['e'], ['f'], {'axis': -1}), ('MatMul', ['f', 'b'], ['g'], {}), ('Transpose', ['g'], ['h'], {'perm': [0, 2, 1, 3]}), ('Reshape', ['h', 'u'], ['y'], {})], {'x': ('n', 's', 4)}, ['y'], {'wq': data((4, 4), 0), 't': [0, 0, 2, 2], 'u': [0, 0, 4], 'k': np.array(2, F)}, {'n': (1, 2), 's': (1, 3)})
    net('layernorm', [('ReduceMean', ['x'], ['m'], {'axes': [-1]}), ('Sub', ['x', 'm'], ['d'], {}), ('Pow', ['d', 'two'], ['q'], {}), ('ReduceMean', ['q'], ['v'], {'axes': [-1]}), ('Add', ['v', 'eps'], ['w'], {}), ('Sqrt', ['w'], ['s'], {}), ('Div', ['d', 's'], ['o'], {}), ('Mul', ['o', 'g'], ['p'], {}), ('Add', ['p', 'b'], ['y'], {})],
        {'x': ('n', 4)}, ['y'], {'two': np.array(2, F), 'eps': np.array(1e-3, F), 'g': data((4,), 0), 'b': data((4,), 1)}, {'n': (1, 4)})
    net('split_join', [('Split', ['x', 'sp'], ['a', 'b'], {'axis': 1}), ('Sigmoid', ['b'], ['g'], {}), ('Mul', ['b', 'g'], ['m'], {}), ('Concat', ['m', 'a', 'm'], ['c'], {'axis': 1}), ('Neg', ['c'], ['y'], {})], {'x': ('n', 5)}, ['y', 'a'], {'sp': [2, 3]}, {'n': (1, 4)})
    net('embed', [('Gather', ['e', 'x'], ['a'], {'axis': 0}), ('MatMul', ['a', 'w'], ['y'], {})], {'x': ('n', 's')}, ['y'], {'e': data((9, 3), 0), 'w': data((3, 2), 1)}, {'n': (1, 2), 's': (1, 3)})
    net('constants', [('Add', ['k', 'w'], ['c'], {}), ('Mul', ['x', 'c'], ['m'], {}), ('Add', ['m', 'k'], ['y'], {})], {'x': ('n', 2)}, ['y'], {'k': data((2,), 1), 'w': data((2,), 0)}, {'n': (1, 4)})
    net('shared_weight', [('Gemm', ['x', 'w', 'b'], ['a'], {'transB': 1}), R('a', 'r'), ('Gemm', ['r', 'w', 'b'], ['y'], {'transB': 1})], {'x': ('n', 3)}, ['y'], {'w': data((3, 3), 0), 'b': data((3,), 1)}, {'n': (1, 3)})
    net('shared_mixed', [('Gemm', ['x', 'w'], ['a'], {'transB': 1}), ('MatMul', ['a', 'w'], ['y'], {})], {'x': ('n', 3)}, ['y'], {'w': data((3, 3), 0)}, {'n': (1, 3)})
    net('shared_mixed2', [('MatMul', ['x', 'w'], ['a'], {}), ('Gemm', ['a', 'w'], ['y'], {'transB': 1})], {'x': ('n', 3)}, ['y'], {'w': data((3, 3), 0)}, {'n': (1, 3)})
    net('gemm_dynamic', [R('z', 'b'), ('Gemm', ['x', 'b'], ['y'], {'transB': 1, 'alpha': 0.5})], {'x': ('n', 3), 'z': (2, 3)}, ['y'], {}, {'n': (1, 3)})
    net('gemm_output', [('Gemm', ['x', 'w', 'z'], ['y'], {'beta': 2.0})], {'x': ('n', 3), 'z': ('n', 2)}, ['y'], {'w': data((3, 2), 0)}, {'n': (1, 3)})
    net('wide', [('Concat', ['x', 'x', 'x'], ['a'], {'axis': 1}), R('a', 'b'), ('MatMul', ['b', 'w'], ['c'], {}), ('Add', ['c', 'x'], ['d'], {}), ('Concat', ['d', 'c'], ['e'], {'axis': 1}), ('MatMul', ['e', 'v'], ['y'], {})], {'x': ('n', 40)}, ['y'], {'w': data((120, 40), 0) / 9, 'v': data((80, 3), 1) / 9}, {'n': (1, 4)})
    net('mask', [('Greater', ['x', 'z0'], ['c'], {}), ('Where', ['c', 'x', 'k'], ['y'], {})], {'x': ('n', 3)}, ['y'], {'z0': np.array(0, F), 'k': np.array(-9, F)}, {'n': (1, 4)})
    net('chunks', [('Transpose', ['x'], ['a'], {'perm': [1, 0]}), ('Split', ['a'], ['b', 'c'], {'axis': 0}), ('MatMul', ['x', 'a'], ['d'], {}), ('MatMul', ['d', 'x'], ['e'], {}), ('Concat', ['b', 'c'], ['f'], {'axis': 1}), ('Transpose', ['e'], ['y'], {})], {'x': ('n', 4)}, ['y', 'f'], {}, {'n': (1, 4)})
    net('topk', [('TopK', ['x', 'k'], ['v', 'i'], {'axis': 1}), ('GatherElements', ['x', 'i'], ['g'], {'axis': 1}), ('Add', ['v', 'g'], ['y'], {})], {'x': ('n', 5)}, ['y', 'v'], {'k': [2]}, {'n': (1, 3)})
    return r


# ---------------------------------------------------------------- kernels: one operator, all attributes
def kernels(th):
    """(id, op, opset, attrs, inputs [(shape | array)], number of outputs); a list is a dynamic input of that shape, an array a constant"""
    D = lambda *s: list(s)
    for op in ('Relu', 'Sigmoid', 'Tanh', 'Neg', 'Erf', 'Identity', 'LeakyRelu'):
        for s in ([2], [2, 3], [2, 1, 3]):
            yield op, 17, {}, [s], 1
    yield 'Sqrt', 17, {}, [('abs', [2, 3])], 1
    for a in (0., .5, 2.):
        yield 'LeakyRelu', 17, {'alpha': a}, [D(2, 3)], 1
    for op in ('Add', 'Sub', 'Mul', 'Div', 'Pow', 'Equal', 'Greater', 'Less', 'Mod'):
        for a, b in (([2, 3], [2, 3]), ([2, 3], [1, 3]), ([2, 3], [3]), ([3], [2, 3]), ([2, 1], [1, 3]), ([2, 1, 3], [4, 1])):
            at = {'fmod': 1} if op == 'Mod' else {}
            if op == 'Pow':
                yield op, 17, at, [('abs', a), ('abs', b)], 1
            else:
                yield op, 17, at, [a, b], 1
                yield op, 17, at, [a, data(b, 1) + (4 if op in ('Div', 'Mod') else 0)], 1
                yield op, 17, at, [data(a, 2), b], 1
    for lo, hi in itertools.product((None, -1., 1.), (None, 2., 0.)):
        ins = [D(2, 3)] + ([] if lo is None and hi is None else [None if lo is None else np.array(lo, F)]) + ([] if hi is None else [np.array(hi, F)])
        yield 'Clip', 13, {}, ins, 1
        yield 'Clip', 6, {k: v for k, v in (('min', lo), ('max', hi)) if v is not None}, [D(2, 3)], 1
    for s, t in (([2, 3], [3, 2]), ([2, 3], [-1]), ([2, 3], [0, -1]), ([2, 3, 4], [0, 0, 2, 2]), ([2, 3, 4], [6, -1]), ([2, 3, 4], [2, 1, 0, -1][:2] + [12])):
        yield 'Reshape', 14, {}, [s, np.array(t)], 1
    yield 'Reshape', 14, {'allowzero': 1}, [D(2, 3), np.array([3, 2])], 1
    for r in (1, 2, 3, 4):
        s = [2, 3, 4, 5][:r]
        yield 'Transpose', 13, {}, [s], 1
        for p in itertools.permutations(range(r)):
            yield 'Transpose', 13, {'perm': list(p)}, [s], 1
    for ta, tb, c, al, be, bc in itertools.product((0, 1), (0, 1), (None, [2, 4], [4], [2, 1], [1], []), (None, .5), (None, 2.), (0, 1)):
        at = {k: v for k, v in (('transA', ta), ('transB', tb), ('alpha', al), ('beta', be)) if v}
        b = [4, 3] if tb else [3, 4]
        ins = [[3, 2] if ta else [2, 3], data(b, 1) if bc else b] + ([] if c is None else [data(c, 2)])
        yield 'Gemm', 13, at, ins, 1
        if c is not None and not bc:
            yield 'Gemm', 13, at, ins[:2] + [c], 1
        if bc and c is None:
            yield 'Gemm', 13, at, [data(ins[0], 0), b], 1
    for a, b in (([2, 3], [3, 4]), ([3], [3, 4]), ([2, 3], [3]), ([3], [3]), ([2, 2, 3], [3, 4]), ([2, 2, 3], [2, 3, 4]), ([2, 3], [5, 3, 4]), ([2, 1, 2, 3], [4, 3, 2])):
        yield 'MatMul', 13, {}, [a, b], 1
        yield 'MatMul', 13, {}, [a, data(b, 1)], 1
    for s, eps in itertools.product(([2, 3], [2, 3, 2], [2, 3, 2, 2]), (None, .5)):
        yield 'BatchNormalization', 15, {} if eps is None else {'epsilon': eps}, [s, data((3,), 0), data((3,), 1), data((3,), 2), np.array([1, 2, .5], F)], 1
    P = [[0, 0, 0, 0], [1, 1, 1, 1], [0, 1, 0, 1], [1, 0, 1, 0], [1, 0, 0, 0], [0, 0, 1, 2], [0, 2, 1, 1]]
    for k, st, d, p, g in itertools.product(([1, 1], [2, 2], [3, 2]), (None, [2, 1], [2, 3]), (None, [2, 1]), [None] + P, (1, 2)):
        at = {n: v for n, v in (('strides', st), ('dilations', d), ('pads', p)) if v}
        if g > 1:
            at['group'] = g
        yield 'Conv', 13, dict(at, kernel_shape=k), [D(2, 4, 6, 5), data([4, 4 // g] + k, 1)] + ([data((4,), 1)] if g == 1 else []), 1
    for ap, k, st in itertools.product(('VALID', 'SAME_UPPER', 'SAME_LOWER', 'NOTSET'), ([2, 2], [3, 2]), (None, [2, 2])):
        at = {'strides': st} if st else {}
        yield 'Conv', 13, dict(at, auto_pad=ap, kernel_shape=k), [D(1, 2, 6, 5), data([3, 2] + k, 1)], 1
        for op in ('MaxPool', 'AveragePool'):
            yield op, 12 if op == 'MaxPool' else 11, dict(at, auto_pad=ap, kernel_shape=k), [D(1, 2, 6, 5)], 1
    yield 'Conv', 13, {}, [D(1, 2, 5), data([3, 2, 2], 1)], 1
    for p in ([0, 0], [1, 1], [1, 0]):
        yield 'Conv', 13, {'pads': p}, [D(1, 2, 5), data([3, 2, 2], 1)], 1
    for k, st, p, ce in itertools.product(([2, 2], [3, 2], [3, 3]), (None, [2, 1], [2, 3]), [None] + [q for q in P if max(q) < 2], (0, 1)):
        at = {n: v for n, v in (('strides', st), ('pads', p), ('ceil_mode', ce)) if v}
        yield 'MaxPool', 12, dict(at, kernel_shape=k), [D(2, 2, 6, 5)], 1
        if not ce:
            yield 'MaxPool', 12, dict(at, kernel_shape=k, dilations=[2, 1]), [D(2, 2, 6, 5)], 1
        for cp in (0, 1):
            if not (ce and (p or cp)):
                yield 'AveragePool', 11, dict(at, kernel_shape=k, **({'count_include_pad': 1} if cp else {})), [D(2, 2, 6, 5)], 1
    for s in ([2, 3, 4, 5], [2, 3, 4], [1, 1, 2, 2]):
        yield 'GlobalAveragePool', 13, {}, [s], 1
    for s in ([2, 3], [2, 3, 4], [2, 3, 4, 5]):
        yield 'Flatten', 13, {}, [s], 1
        for ax in range(-len(s), len(s) + 1):
            yield 'Flatten', 13, {'axis': ax}, [s], 1
            if ax < len(s):
                yield 'Softmax', 13, {'axis': ax}, [s], 1
                yield 'Concat', 13, {'axis': ax}, [s, data(s, 1), s], 1
        yield 'Softmax', 13, {}, [s], 1
    for s, axes in (([2, 1, 3, 1], None), ([2, 1, 3, 1], [1]), ([2, 1, 3, 1], [3]), ([2, 1, 3, 1], [-1]), ([2, 1, 3, 1], [1, 3]), ([2, 1, 3, 1], [-1, 1]), ([2, 1, 3, 1], [-3, -1])):
        yield 'Squeeze', 13, {}, [s] + ([np.array(axes)] if axes else []), 1
        if axes is None or min(axes) >= 0:
            yield 'Squeeze', 11, {'axes': axes} if axes else {}, [s], 1
    for axes in ([0], [1], [2], [-1], [-2], [0, 1], [1, 0], [0, -1], [-1, 0], [3, 0], [-2, -1], [2, -4]):
        yield 'Unsqueeze', 13, {}, [D(2, 3), np.array(axes)], 1
        if sorted(axes) == axes and axes[0] >= 0:        # the reference evaluator is wrong for the others in this version
            yield 'Unsqueeze', 11, {'axes': axes}, [D(2, 3)], 1
    for ax, i in itertools.product((None, 0, 1, -1, -2), (np.array(1), np.array([1, 0]), np.array([[1, 0, 1]]), np.array([-1, 0]), np.array([[0], [-1]]))):
        at = {} if ax is None else {'axis': ax}
        yield 'Gather', 13, at, [D(2, 3), i], 1
        yield 'Gather', 13, at, [D(2, 3), ('index', list(i.shape))] if i.ndim else [D(2, 3), i], 1
        if (i >= 0).all():
            yield 'Gather', 13, at, [data((2, 3), 1), ('index', list(i.shape) or [1])], 1
    for ax, i in itertools.product((None, 0, 1, -1), (np.array([[0, 1, 0]]), np.array([[1], [0]]), np.array([[-1, 0]]))):
        if i.shape[0] <= 2:
            yield 'GatherElements', 13, {} if ax is None else {'axis': ax}, [D(2, 3), i], 1
    for to in (TP.FLOAT, TP.INT32, TP.INT64, TP.INT8, TP.FLOAT16, TP.DOUBLE, TP.BOOL, TP.UINT8, TP.INT16):
        yield 'Cast', 13, {'to': to}, [('abs', [2, 3]) if to == TP.UINT8 else D(2, 3)], 1
    for s, t in (([2, 3], [2, 3]), ([1, 3], [2, 3]), ([3], [2, 3]), ([2, 1], [1, 3]), ([2, 1, 3], [1, 4, 1]), ([2, 3], [1]), ([2, 3], [4, 1, 1])):
        yield 'Expand', 13, {}, [s, np.array(t)], 1
    for s, t in (([2, 3], [1, 1]), ([2, 3], [2, 1]), ([2, 3], [3, 2]), ([2], [2]), ([2, 1, 3], [1, 2, 2])):
        yield 'Tile', 13, {}, [s, np.array(t)], 1
    for c, a, b in itertools.product(([2, 3], [1, 3], [2, 1]), ([2, 3], [3]), ([2, 3], [])):
        yield 'Where', 13, {}, [('bool', c), a, data(b, 1)], 1
    for op, s in itertools.product(('ReduceMean', 'ReduceSum', 'ReduceMax'), ([2, 3], [2, 3, 4])):
        for kd, axes in itertools.product((None, 0, 1), [None] + [list(c) for r in (1, 2) for c in itertools.permutations(range(-1, len(s)), r) if len({v % len(s) for v in c}) == r]):
            at = {} if kd is None else {'keepdims': kd}
            new = 13 if op == 'ReduceSum' else 18
            yield op, new, at, [s] + ([np.array(axes)] if axes else []), 1
            yield op, 11, dict(at, **({'axes': axes} if axes else {})), [s], 1
    E = np.array
    for st, en, ax, sp in ((E([0]), E([2]), None, None), (E([1]), E([100]), E([1]), None), (E([-2]), E([-1]), E([1]), None), (E([0, 1]), E([1, 3]), E([1, 0]), None), (E([0]), E([4]), E([1]), E([2])), (E([3]), E([-100]), E([1]), E([-1])), (E([-1]), E([0]), E([-1]), E([-2])), (E([1, 0]), E([4, 4]), E([1, 0]), E([2, 3])),
                           (E([0]), E([2 ** 31 - 1]), E([1]), None), (E([0]), E([2 ** 63 - 1]), E([1]), None), (E([-100]), E([3]), E([1]), E([1])), (E([2, 3]), E([0, 0]), None, E([-1, -1]))):
        ins = [D(4, 5), st, en] + ([] if ax is None and sp is None else [ax]) + ([] if sp is None else [sp])
        yield 'Slice', 13, {}, ins, 1
        if sp is None:
            yield 'Slice', 9, dict({'starts': st.tolist(), 'ends': en.tolist()}, **({} if ax is None else {'axes': ax.tolist()})), [D(4, 5)], 1
    for mode, p, v in itertools.product((None, 'constant', 'reflect', 'edge'), ([0, 1, 0, 2], [1, 0, 0, 0], [0, 0, 1, 1], [1, 1, 1, 2], [0, 0, 0, 0]), (None, 1.5)):
        at = {} if mode is None else {'mode': mode}
        if mode in ('reflect', 'edge'):
            if v is None:
                yield 'Pad', 13, at, [D(2, 3, 3, 4), np.array([0, 0] + p[:2] + [0, 0] + p[2:])], 1
            continue
        yield 'Pad', 13, at, [D(3, 4), np.array(p)] + ([] if v is None else [np.array(v, F)]), 1
        yield 'Pad', 2, dict(at, pads=p, **({} if v is None else {'value': v})), [D(3, 4)], 1
    yield 'Pad', 13, {}, [D(3, 4), np.array([0, -1, 0, -1])], 1
    for op, ax, n in itertools.product(('Split',), (None, 0, 1, -1), (2, 3)):
        at = {} if ax is None else {'axis': ax}
        yield op, 13, at, [D(6, 6)], n
        sizes = {2: [2, 4], 3: [1, 2, 3]}[n]
        yield op, 13, at, [D(6, 6), np.array(sizes)], n
        yield op, 11, dict(at, split=sizes), [D(6, 6)], n
        yield op, 18, dict(at, num_outputs=n), [D(6, 6)], n
        yield op, 18, dict(at, num_outputs=n), [D(7, 7)], n
        yield op, 18, dict(at, num_outputs=n), [D(4, 4)], n
    for ax, la, so, k in itertools.product((None, 0, 1, -2), (None, 0, 1), (None, 1), (1, 2)):
        at = {n: v for n, v in (('axis', ax), ('largest', la), ('sorted', so)) if v is not None}
        yield 'TopK', 11, at, [('distinct', [3, 4]), np.array([k])], 2
    for s, ax, b in itertools.product(([2, 3, 4],), (None, -1, 2), (0, 1)):
        yield 'LayerNormalization', 17, {} if ax is None else {'axis': ax}, [s, data((4,), 1)] + ([data((4,), 2)] if b else []), 1
    yield 'LayerNormalization', 17, {'epsilon': .5}, [D(2, 4), data((4,), 1), data((4,), 2)], 1
    yield 'LayerNormalization', 17, {'axis': 1}, [D(2, 3, 4), data((3, 4), 1), data((3, 4), 2)], 1


def kernel_case(op, opset, at, ins, nout):
    names, desc, inits, feeds, types = [], {}, {}, {}, {}
    for j, s in enumerate(ins):
        t = f'i{j}'
        names.append(t)
        if s is None:
            names[-1] = ''
        elif isinstance(s, np.ndarray):
            inits[t] = s
        else:
            kind, s = s if isinstance(s, tuple) else ('', s)
            desc[t] = tuple(s)
            feeds[t] = kind
            types[t] = {'bool': TP.BOOL, 'index': TP.INT64}.get(kind, TP.FLOAT)
    outs = [f'o{j}' for j in range(nout)]
    return build([nd(op, names, outs, name='n', **at)], desc, outs, inits, opset, types), desc, feeds


def values(kind, shape, k):
    if kind == 'abs':
        return np.abs(data(shape, k)) + F(.25)
    if kind == 'bool':
        return data(shape, k) > 0
    if kind == 'index':
        return np.arange(int(np.prod(shape)), dtype=np.int64).reshape(shape) % 2
    if kind == 'distinct':
        n = int(np.prod(shape))
        return ((np.arange(n) * 5 + k) % n - n / 2).reshape(shape).astype(F)
    return data(shape, k)


# ---------------------------------------------------------------- pool
def pools(th):
    for n in (1, 2, 3) if not th else (1, 2, 3, 4):
        for sizes in itertools.product((4, 8, 24), repeat=n):
            for order in itertools.permutations(range(n)):
                for dt in ('float32', 'float16', 'int64', 'uint8'):
                    yield f'pool/{sizes}/{order}/{dt}'.replace(' ', ''), ('pool', sizes, order, dt)


def cases(tier):
    th = tier == 'thorough'
    for name in nets():
        for form in ('plain', 'reversed', 'shuffled_feed'):
            yield f'net/{name}/{form}', ('net', name, form, th)
    for j, c in enumerate(kernels(th)):
        op, opset, at, ins, nout = c
        d = ';'.join('-' if i is None else str(i.tolist() if isinstance(i, np.ndarray) and i.size < 5 else ('const', i.shape) if isinstance(i, np.ndarray) else i) for i in ins)
        yield f'kernel/{j}/{op}@{opset}/{at}/{d}'.replace(' ', ''), ('kernel', c)
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for w in wirings(n):
            used = {t for _, i, _ in w for t in i}
            made = [t for _, _, o in w for t in o]
            sinks = [t for t in made if t not in used]
            for outs in dict.fromkeys([tuple(sinks)] + ([tuple(made[::-1])] if n < 4 else [])):
                yield f'wire/{"".join(k + ":" + ",".join(i) + ";" for k, i, _ in w)}/{"+".join(outs)}', ('wire', w, outs, th)
    yield from pools(th)


def max_pool(x, at):
    """MaxPool of two spatial dimensions by definition (the reference evaluator is wrong for uneven pads); None where a window of ceil_mode begins outside"""
    k, st, d, p = at['kernel_shape'], at.get('strides', [1, 1]), at.get('dilations', [1, 1]), list(at.get('pads', [0] * 4))
    ap, o = at.get('auto_pad', 'NOTSET'), []
    for i in range(2):
        n, e = x.shape[2 + i], d[i] * (k[i] - 1) + 1
        if ap.startswith('SAME'):
            q = -(-n // st[i])
            t = max((q - 1) * st[i] + e - n, 0)
            p[i] = t // 2 if ap == 'SAME_UPPER' else t - t // 2
        elif ap == 'VALID':
            q = (n - e) // st[i] + 1
        else:
            t = n + p[i] + p[i + 2] - e
            q = (-(-t // st[i]) if at.get('ceil_mode') else t // st[i]) + 1
            if (q - 1) * st[i] >= n + p[i]:
                return None
        o.append(q)
    y = np.empty(x.shape[:2] + tuple(o), x.dtype)
    for i, j in np.ndindex(*o):
        a = [v for v in (i * st[0] - p[0] + d[0] * u for u in range(k[0])) if 0 <= v < x.shape[2]]
        b = [v for v in (j * st[1] - p[1] + d[1] * u for u in range(k[1])) if 0 <= v < x.shape[3]]
        if not a or not b:
            return None
        y[:, :, i, j] = x[:, :, a][:, :, :, b].max((-1, -2))
    return y


def reference(m, feeds):
    if [n.op_type for n in m.graph.node] == ['MaxPool']:
        n = m.graph.node[0]
        at = {a.name: helper.get_attribute_value(a) for a in n.attribute}
        y = max_pool(feeds[n.input[0]], {k: v.decode() if isinstance(v, bytes) else v for k, v in at.items()})
        if y is None:
            raise ValueError('not defined')
        return {n.output[0]: y}
    e = onnx.ModelProto()
    e.CopyFrom(m)
    return dict(zip([o.name for o in m.graph.output], [np.asarray(v) for v in ReferenceEvaluator(e).run(None, dict(feeds))]))


def engine(m, desc, ranges):
    with contextlib.redirect_stdout(io.StringIO()):
        return tool(infer.GraphInfer, m, desc, ranges)


def absent(x):
    """the engine asked for a part of torch that the stand-in does not have: nothing is decided about this case"""
    t = ' '.join(map(str, x.args))
    return 'Missing' in t or 'unexpected keyword argument' in t or 'positional argument' in t


def follow(m, desc, ranges, steps, st, what, swap=False, half=False):
    """one engine along the steps (lists of feeds)"""
    e = None
    for k, feeds in enumerate(steps):
        try:
            want = reference(m, feeds)
        except Exception:
            st.count('not_executable')
            continue
        if any(v.size == 0 for v in want.values()):
            continue
        if e is None:
            try:
                e = engine(m, desc, ranges)
            except ToolError as x:
                if absent(x):
                    st.count('not_in_stand_in')
                    return
                yield f'build:{x.args[0]}', f'{what}: ' + ' '.join(map(str, x.args))
                return
        given = {t: torch.from_numpy(v.copy()) for t, v in (reversed(list(feeds.items())) if swap else feeds.items())}
        try:
            got = tool(e.forward, given)
        except ToolError as x:
            if absent(x):
                st.count('not_in_stand_in')
                return
            yield f'forward:{x.args[0]}', f'{what} step {k} {[v.shape for v in feeds.values()]}: ' + ' '.join(map(str, x.args))
            return
        st.valid()
        if sorted(got) != sorted(want):
            yield 'outputs', f'{what}: {sorted(got)} for {sorted(want)}'
            return
        for t, w in want.items():
            a = got[t].a
            if a.shape != w.shape or not np.allclose(a, w.astype(F), rtol=2e-4, atol=2e-4, equal_nan=True):
                yield 'value', f'{what} step {k} {[v.shape for v in feeds.values()]}: {t} {a.tolist()}, expected {w.tolist()}'[:600]
                return
        for t, v in feeds.items():
            if not np.array_equal(given[t].a, v):
                yield 'input-modified', f'{what} step {k}: {t}'
                return
        st.state(what, k, tuple(v.tobytes() for v in want.values()))


def concrete(desc, var):
    return {t: [var.get(d, d) if isinstance(d, str) else d for d in s] for t, s in desc.items()}


def run_pool(sizes, order, dt, st):
    """the pool gives exactly the planned blocks and refuses what does not fit"""
    d = torchlike.DT[dt]
    es = d.np.itemsize
    plan, off = {}, 0
    for j in order:
        plan[f't{j}'] = [off, sizes[j]]
        off += sizes[j]
    if any(s % es or o % es for o, s in plan.values()):
        return
    p = tool(memory_pool.MemoryPool, plan, off, dtype=d)
    st.valid()
    shadow = np.array(p.pool.a)
    if len(p) != len(plan) or list(p.keys()) != list(plan) or p.compress_size != off or any(t not in p for t in plan) or 'q' in p:
        yield 'pool-content', f'{list(p.keys())}'
    for step, (t, (o, s)) in enumerate(plan.items()):
        n = s // es
        for shape in (None, [n], [1, n], [n // 2, 2], [n, 1, 1], [1], [], [n + 1], [2, n]):
            need = n if shape is None else int(np.prod(shape))
            try:
                v = tool(p.get, t, shape) if shape is not None else tool(p.__getitem__, t)
            except ToolError as x:
                if need <= n:
                    yield 'pool-get', f'{plan} {t} {shape}: {x.args}'
                continue
            if need > n:
                yield 'pool-overflow', f'{plan} {t} {shape} gives {v.shape}'
                continue
            if list(v.shape) != ([n] if shape is None else shape) or v.dtype is not d:
                yield 'pool-shape', f'{plan} {t} {shape} gives {v.shape} {v.dtype}'
                continue
            fill = (np.arange(need) + step * 3 + 1).astype(d.np).reshape(v.shape)
            v.copy_(torch.from_numpy(fill))
            shadow[o:o + need * es] = np.frombuffer(fill.tobytes(), np.uint8)
            if not np.array_equal(shadow, p.pool.a):
                yield 'pool-place', f'{plan} {t} {shape}'
                return
        for src in (np.arange(n) + 7, (np.arange(n) + 2).reshape(1, n), np.arange(n + 3)):
            tool(p.fill_tensor, t, src.astype(d.np))
            shadow[o:o + s] = np.frombuffer(src.reshape(-1)[:n].astype(d.np).tobytes(), np.uint8)
            if not np.array_equal(shadow, p.pool.a):
                yield 'pool-fill', f'{plan} {t}'
                return
        b = tool(p.get_batch, t, 1, [n])
        if list(b.shape) != [1, n]:
            yield 'pool-batch', f'{b.shape}'
    for bad, size in (({'a': [off, es]}, off), ({'a': [-es, es]}, off), ({'a': [0, 0]}, off), ({'a': [0, off + es]}, off), ({}, 0), (plan, off - 1)):
        try:
            memory_pool.MemoryPool(bad, size, dtype=d)
            yield 'pool-bad-plan', f'{bad} in {size} accepted'
        except ValueError:
            pass
    st.state('pool', sizes, order, dt)


def run_case(cid, p, st):
    if st.cases % 499 == 0:
        st.sample(cid)
    if p[0] == 'pool':
        yield from run_pool(*p[1:], st)
        return
    if p[0] == 'kernel':
        m, desc, kinds = kernel_case(*p[1])
        if not desc:
            return
        steps = [{t: values(kinds[t], s, k + j) for j, (t, s) in enumerate(desc.items())} for k in range(2)]
        yield from follow(m, desc, {}, steps, st, f'static {p[1][0]}')
        # the same with the first dimension of the first input variable
        t0 = next(iter(desc))
        if p[1][0] == 'Split' and p[1][2].get('axis', 0) == 0:
            return                     # a division of the free dimension is not linear
        if desc[t0]:
            for free in [[t for t in desc if desc[t] and desc[t][0] == desc[t0][0]], [t0]]:
                n0 = desc[t0][0]
                dd = {t: (('n',) + tuple(s[1:])) if t in free else s for t, s in desc.items()}
                steps, ok = [], True
                for k, n in enumerate([n0, n0 + 2, n0]):
                    steps.append({t: values(kinds[t], s, k + j) for j, (t, s) in enumerate(concrete(dd, {'n': n}).items())})
                    try:
                        reference(m, steps[-1])
                    except Exception:
                        ok = False
                if ok:
                    yield from follow(m, dd, {'n': (n0, n0 + 2)}, steps, st, f'dynamic {p[1][0]} {free}')
                if len(free) == 1:
                    break
        return
    if p[0] == 'wire':
        _, w, outs, th = p
        m, desc = wire_model(w, outs)
        ns = [1, 3, 4]
        steps = [{t: data(s, k + j) for j, (t, s) in enumerate(concrete(desc, {'n': ns[i]}).items())} for k, i in enumerate(walk(3, th))]
        yield from follow(m, desc, {'n': (1, 4)}, steps, st, 'wiring')
        return
    _, name, form, th = p
    ns, desc, outs, inits, ranges, opset = nets()[name]
    m = build(ns[::-1] if form == 'reversed' else ns, desc, outs, inits, opset)
    types = {}
    if name == 'embed':
        m.graph.input[0].type.tensor_type.elem_type = TP.INT64
        types['x'] = 'index'
    grid = [sorted({lo, (lo + hi) // 2, hi}) if len(ranges) > 1 else list(range(lo, hi + 1)) for lo, hi in ranges.values()]
    pts = [dict(zip(ranges, v)) for v in itertools.product(*grid)]
    steps = [{t: values(types.get(t, ''), s, k + j) for j, (t, s) in enumerate(concrete(desc, pts[i]).items())} for k, i in enumerate(walk(len(pts), th))]
    yield from follow(m, desc, ranges, steps, st, form, swap=form == 'shuffled_feed')
