"""C27: evaluating a whole graph (Graph.value_infer) against the ONNX reference evaluator, over programs, wirings and call histories."""
import itertools
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from onnx.reference import ReferenceEvaluator
from mc import gx, shapelang as sl
from mc.core import tool, ToolError
from mc.c06_graphshapes import mk, structural, ALT
from mc.opcheck import DECLINES

PID = 'C27'
TECH = 'exhaustive enumeration of small programs and wirings x load options x histories of evaluation calls on the real graph; every computed tensor compared with the ONNX reference evaluator'
RULE = ('every program of the shape-computing grammar with one step (thorough: two) from 6 sources into 25 consumers, every structural program in every valid node order, every wiring of up to 3 nodes over 7 node kinds (thorough: 4 nodes) '
        'with results, inputs, initialisers and duplicates as outputs, 16 small networks; x folding on and off x {plain, after shape inference, after reordering a reversed model, with added dump tensors} x two or three evaluations in a row with other values and shapes')
ASSUME = ['the ONNX reference evaluator is correct', 'operators the tool declines to evaluate with NotImplementedError are outside']
nd = helper.make_node
F, I = np.float32, np.int64


def vi(n, s, t=TP.FLOAT):
    return helper.make_tensor_value_info(n, t, s)


def data(shape, k, dt=F):
    n = int(np.prod(shape))
    a = (np.arange(n) * (3 + 2 * k) % 7 - 2.5 + k).reshape(shape)
    return a.astype(dt)


# ---------------------------------------------------------------- wirings
KINDS = {'u': ('Relu', 1, 1), 'n': ('Neg', 1, 1), 'b': ('Sub', 2, 1), 'c': ('Concat', 2, 1), 's': ('Split', 1, 2), 'i': ('Identity', 1, 1), 'w': ('Mul', 1, 1)}


def wirings(n):
    def rec(k, avail, nodes):
        if k == n:
            yield tuple(nodes)
            return
        for kd, (op, a, o) in KINDS.items():
            for ins in itertools.product(avail, repeat=a):
                outs = (f't{k}', f't{k}b') if o == 2 else (f't{k}',)
                yield from rec(k + 1, avail + list(outs), nodes + [(kd, ins, outs)])
    yield from rec(0, ['x', 'w'], [])


def wire_model(w, outs, default):
    ns = []
    for j, (kd, ins, os) in enumerate(w):
        op = KINDS[kd][0]
        at = {'axis': 0 if op == 'Concat' else 1} if op in ('Concat', 'Split') else {}
        if op == 'Split':
            at['num_outputs'] = 2
        ns.append(nd(op, list(ins) + (['w'] if kd == 'w' else []), list(os), name=f'n{j}', **at))
    init = [numpy_helper.from_array(data((1, 8), 3), 'w')]
    ins = [vi('x', ['R', 8])] + ([vi('w', [1, 8])] if default else [])
    return gx.model(ns, ins, [vi(o, None) for o in outs], init, opset=18)


def wire_cases(th):
    for n in (1, 2, 3, 4) if th else (1, 2, 3):
        for w in wirings(n):
            used = {t for _, i, _ in w for t in i}
            made = [t for _, _, o in w for t in o]
            sinks = [t for t in made if t not in used]
            outsets = [tuple(sinks)]
            if n < 3:
                outsets += [tuple(made[::-1]), tuple(sinks) + ('x',), tuple(sinks) + ('w',)]
            for outs in dict.fromkeys(outsets):
                yield f'w/{"".join(k + ":" + ",".join(i) + ";" for k, i, _ in w)}/{"+".join(outs)}', ('wire', w, outs, n < 3)


# ---------------------------------------------------------------- small networks
def nets():
    r = {}

    def net(name, ns, ins, outs, inits, feeds, opset=17):
        r[name] = (gx.model(ns, [vi(k, [f'{k}{j}' for j in range(len(v.shape))], helper.np_dtype_to_tensor_dtype(v.dtype)) for k, v in feeds[0].items()], [vi(o, None) for o in outs],
                            [numpy_helper.from_array(np.asarray(a), n) for n, a in inits.items()], opset=opset), feeds)
    net('mlp', [nd('MatMul', ['x', 'w'], ['a'], name='a'), nd('Add', ['a', 'b'], ['c'], name='c'), nd('Relu', ['c'], ['d'], name='d'), nd('Gemm', ['d', 'v', 'e'], ['y'], name='y', transB=1, alpha=0.5)], 'x', ['y'],
        {'w': data((3, 4), 0), 'b': data((4,), 1), 'v': data((2, 4), 0), 'e': data((2,), 1)}, [{'x': data((2, 3), 0)}, {'x': data((5, 3), 1)}, {'x': data((1, 3), 2)}])
    net('conv', [nd('Conv', ['x', 'w', 'b'], ['c'], name='c', pads=[1, 1, 1, 1], strides=[2, 1]), nd('BatchNormalization', ['c', 's', 'o', 'm', 'v'], ['n'], name='n'), nd('Relu', ['n'], ['r'], name='r'),
                 nd('MaxPool', ['r'], ['p'], name='p', kernel_shape=[2, 2]), nd('GlobalAveragePool', ['p'], ['g'], name='g'), nd('Flatten', ['g'], ['y'], name='y')], 'x', ['y', 'p'],
        {'w': data((3, 2, 3, 3), 0), 'b': data((3,), 0), 's': data((3,), 1), 'o': data((3,), 2), 'm': data((3,), 0), 'v': np.array([1, 2, .5], F)}, [{'x': data((1, 2, 6, 5), 0)}, {'x': data((2, 2, 5, 8), 1)}])
    net('attention', [nd('MatMul', ['x', 'wq'], ['q'], name='q'), nd('MatMul', ['x', 'wk'], ['k'], name='k'), nd('Transpose', ['k'], ['kt'], name='kt', perm=[0, 2, 1]), nd('MatMul', ['q', 'kt'], ['s'], name='s'),
                      nd('Softmax', ['s'], ['p'], name='p', axis=-1), nd('MatMul', ['p', 'x'], ['y'], name='y')], 'x', ['y', 'p'], {'wq': data((4, 4), 0), 'wk': data((4, 4), 1)}, [{'x': data((1, 3, 4), 0)}, {'x': data((2, 2, 4), 1)}])
    net('layernorm', [nd('ReduceMean', ['x'], ['m'], name='m', axes=[-1]), nd('Sub', ['x', 'm'], ['d'], name='d'), nd('Pow', ['d', 'two'], ['q'], name='q'), nd('ReduceMean', ['q'], ['v'], name='v', axes=[-1]), nd('Add', ['v', 'eps'], ['ve'], name='ve'),
                      nd('Sqrt', ['ve'], ['sd'], name='sd'), nd('Div', ['d', 'sd'], ['n'], name='n'), nd('Mul', ['n', 'g'], ['o'], name='o'), nd('Add', ['o', 'b'], ['y'], name='y')], 'x', ['y'],
        {'two': np.array(2, F), 'eps': np.array(1e-3, F), 'g': data((4,), 0), 'b': data((4,), 1)}, [{'x': data((2, 4), 0)}, {'x': data((3, 2, 4), 1)[0]}])
    net('embed', [nd('Gather', ['e', 'i'], ['a'], name='a'), nd('Shape', ['i'], ['s'], name='s'), nd('Gather', ['s', 'one'], ['l'], name='l', axis=0), nd('Range', ['zero', 'l', 'step'], ['r'], name='r'), nd('Gather', ['p', 'r'], ['b'], name='b'),
                  nd('Add', ['a', 'b'], ['y'], name='y')], 'i', ['y', 'r'], {'e': data((9, 3), 0), 'p': data((6, 3), 1), 'one': np.array(1), 'zero': np.array(0), 'step': np.array(1)}, [{'i': np.array([[1, 2, 3]])}, {'i': np.array([[8, 0], [4, 4]])}])
    net('mask', [nd('Greater', ['x', 'z'], ['c'], name='c'), nd('Not', ['c'], ['n'], name='n'), nd('Where', ['c', 'x', 'k'], ['a'], name='a'), nd('Cast', ['n'], ['f'], name='f', to=TP.FLOAT), nd('Mul', ['f', 'a'], ['y'], name='y')], 'x', ['y', 'c'],
        {'z': np.array(0, F), 'k': np.array(-9, F)}, [{'x': data((3,), 0)}, {'x': data((2, 2), 1).ravel()}])
    net('topo', [nd('Split', ['x'], ['a', 'b'], name='sp', axis=1), nd('Sigmoid', ['b'], ['g'], name='g'), nd('Mul', ['a', 'g'], ['m'], name='m'), nd('Concat', ['m', 'b', 'm'], ['c'], name='c', axis=1), nd('Slice', ['c', 's', 'e', 'ax'], ['y'], name='y')], 'x', ['y'],
        {'s': np.array([1]), 'e': np.array([1000]), 'ax': np.array([1])}, [{'x': data((2, 4), 0)}, {'x': data((3, 6), 1)}])
    net('omitted', [nd('Clip', ['x', '', 'hi'], ['a'], name='a'), nd('Clip', ['a', 'lo'], ['b'], name='b'), nd('Dropout', ['b'], ['c', ''], name='c'), nd('Neg', ['c'], ['y'], name='y')], 'x', ['y', 'a'],
        {'hi': np.array(1, F), 'lo': np.array(-1, F)}, [{'x': data((3, 2), 0)}, {'x': data((1, 5), 1)}])
    net('two', [nd('Sub', ['x', 'z'], ['d'], name='d'), nd('Abs', ['d'], ['a'], name='a'), nd('ReduceMax', ['a'], ['y'], name='y', axes=[0], keepdims=0), nd('ReduceMin', ['x'], ['u'], name='u', axes=[1])], 'xz', ['y', 'u'], {},
        [{'x': data((2, 3), 0), 'z': data((2, 3), 1)}, {'x': data((4, 3), 1), 'z': data((1, 3), 0)}, {'x': data((1, 2), 1), 'z': data((3, 1), 0)}])
    net('constants', [nd('Constant', [], ['k'], name='k', value=numpy_helper.from_array(data((2,), 1))), nd('Add', ['k', 'w'], ['kw'], name='kw'), nd('Mul', ['x', 'kw'], ['m'], name='m'), nd('Concat', ['kw', 'kw'], ['y2'], name='y2', axis=0),
                      nd('Sum', ['m', 'k', 'w'], ['y'], name='y')], 'x', ['y', 'y2', 'k'], {'w': data((2,), 0)}, [{'x': data((3, 2), 0)}, {'x': data((1, 2), 1)}])
    net('norank', [nd('Squeeze', ['x'], ['q'], name='q'), nd('Unsqueeze', ['q', 'ax'], ['u'], name='u'), nd('Expand', ['u', 'sh'], ['e'], name='e'), nd('ReduceProd', ['e'], ['p'], name='p', keepdims=0), nd('Add', ['p', 'x'], ['y'], name='y')], 'x', ['y', 'e'],
        {'ax': np.array([0, -1]), 'sh': np.array([2, 1, 2])}, [{'x': data((1, 2), 0)}, {'x': data((1, 3, 1), 1)[:, :1, 0]}])
    net('int', [nd('Add', ['x', 'k'], ['a'], name='a'), nd('Div', ['a', 'k'], ['d'], name='d'), nd('Mod', ['a', 'k'], ['m'], name='m'), nd('Equal', ['d', 'm'], ['e'], name='e'), nd('Cast', ['e'], ['f'], name='f', to=TP.INT32), nd('Mul', ['f', 'd'], ['y'], name='y')], 'x', ['y', 'e'],
        {'k': np.array([3], np.int32)}, [{'x': np.arange(6, dtype=np.int32)}, {'x': np.arange(8, dtype=np.int32).reshape(2, 4)[1]}])
    net('half', [nd('Mul', ['x', 'w'], ['a'], name='a'), nd('Cast', ['a'], ['f'], name='f', to=TP.DOUBLE), nd('Exp', ['f'], ['y'], name='y'), nd('Cast', ['y'], ['h'], name='h', to=TP.FLOAT16)], 'x', ['y', 'h', 'a'], {'w': np.array([.5, .25], np.float16)},
        [{'x': np.array([[1, 2], [3, 4]], np.float16)}, {'x': np.array([[-1, .5]], np.float16)}])
    net('diamond', [nd('Relu', ['x'], ['a'], name='a'), nd('Neg', ['a'], ['b'], name='b'), nd('Exp', ['a'], ['c'], name='c'), nd('Add', ['b', 'c'], ['d'], name='d'), nd('Mul', ['d', 'a'], ['e'], name='e'), nd('Sub', ['e', 'x'], ['y'], name='y')], 'x', ['y', 'b', 'e'], {},
        [{'x': data((2, 2), 0)}, {'x': data((3,), 1).reshape(3, 1)}])
    net('reshape', [nd('Shape', ['x'], ['s'], name='s'), nd('Gather', ['s', 'i'], ['p'], name='p', axis=0), nd('Reshape', ['x', 'p'], ['r'], name='r'), nd('MatMul', ['x', 'r'], ['y'], name='y')], 'x', ['y', 'p'], {'i': np.array([1, 0])}, [{'x': data((2, 3), 0)}, {'x': data((4, 1), 1)}])
    net('feedback', [nd('Identity', ['x'], ['y'], name='i'), nd('Identity', ['w'], ['v'], name='j'), nd('Identity', ['v'], ['u'], name='k'), nd('Add', ['u', 'y'], ['z'], name='z')], 'x', ['y', 'v', 'z'], {'w': data((2,), 0)}, [{'x': data((3, 2), 0)}, {'x': data((1, 2), 1)}])
    return r


HIST = ['plain', 'inferred', 'reordered', 'dumped', 'feedback']


def cases(tier):
    th = tier == 'thorough'
    for name in nets():
        yield f'net/{name}', ('net', name)
    yield from wire_cases(th)
    for xs, depth, cm in ([([2, 3], 2, ('init', 'node')), ([4], 2, ('init',)), ([2, 3, 4], 1, ('init', 'node')), ([1, 2, 4, 4], 1, ('init', 'node'))] if th else [([2, 3], 1, ('init', 'node')), ([4], 1, ('init',)), ([2, 3, 4], 1, ('init',)), ([1, 2, 4, 4], 1, ('init',))]):
        for tag, b, y in sl.programs(xs, depth, cmodes=cm, pairs=False):
            yield f'prog/{xs}/{depth}/{tag}'.replace(' ', ''), ('prog', b, y, xs)
    for cid, (m, shapes, _) in structural(tier):
        yield f'struct/{cid}', ('struct', m, shapes)


def declined(m, e):
    return e.args[0] == 'NotImplementedError' and any(n.op_type in DECLINES for n in m.graph.node)


def reference(m, feeds):
    e = onnx.ModelProto()
    e.CopyFrom(m)
    for n in e.graph.node:           # the evaluator takes an omitted result for the value of omitted inputs
        for j, o in enumerate(n.output):
            if o == '':
                n.output[j] = f'unnamed {n.name} {j}'
    v = ReferenceEvaluator(e).run(None, dict(feeds), intermediate=True)
    return {k: np.asarray(x) for k, x in v.items() if k and not k.startswith('unnamed ') and x is not None}


def judge(m, feedlist, want, hist, fold, st):
    """want: per feed the reference value of every tensor"""
    what = f'{hist} fold={fold}'
    src = m
    if hist == 'reordered':
        src = onnx.ModelProto()
        src.CopyFrom(m)
        ns = list(m.graph.node)[::-1]
        del src.graph.node[:]
        src.graph.node.extend(ns)
    g = gx.load(src, constant_folding=fold)
    outs = [o.name for o in m.graph.output]
    if hist == 'reordered':
        tool(g.graph_reorder_nodes)
    if hist == 'inferred':
        tool(g.shape_infer, {k: v.copy() for k, v in feedlist[-1].items()})
    if hist == 'dumped':
        more = [o for n in m.graph.node for o in n.output if o and o not in outs and o in g.tensormap][:2]
        tool(g.add_dump_tensors, more)
        outs = outs + more
    inits = {t.name: numpy_helper.to_array(t) for t in m.graph.initializer}
    old = []
    for k, feeds in enumerate(feedlist):
        given = {a: b.copy() for a, b in feeds.items()}
        if hist == 'feedback' and k and old:
            # a result of the previous call is one of the arguments (no copy)
            for a, b in given.items():
                r = next((x for x in old[-1][0] if isinstance(x, np.ndarray) and x.shape == b.shape and x.dtype == b.dtype), None)
                if r is not None:
                    given[a] = r
                    feeds = dict(feeds, **{a: r.copy()})
            w = reference(m, feeds)
        else:
            w = want[k]
        keep = {a: b.copy() for a, b in given.items()}
        try:
            got = tool(g.value_infer, given)
        except ToolError as e:
            if declined(m, e):
                st.count('declined')
                return
            yield f'refused:{e.args[0]}', f'{what} call {k}: ' + ' '.join(map(str, e.args))
            return
        st.valid()
        val = lambda t: w[t] if t in w else feeds[t] if t in feeds else inits[t]
        if len(got) != len(outs):
            yield 'outputs', f'{what}: {len(got)} results for {outs}'
            return
        for t, a in zip(outs, got):
            if not isinstance(a, (np.ndarray, np.generic)) or not gx.close(a, val(t)):
                yield 'value', f'{what} call {k}: output {t} {None if a is None else np.asarray(a).tolist()} of {np.asarray(a).dtype}, expected {val(t).tolist()} of {val(t).dtype}'[:500]
                return
        for t, b in w.items():
            a = g.tensormap[t].numpy if t in g.tensormap else None
            if a is not None and not gx.close(a, b):
                yield 'inner-value', f'{what} call {k}: {t} {np.asarray(a).tolist()}, expected {b.tolist()}'[:500]
                return
            if a is not None and list(g.tensormap[t].get_shape()) != list(b.shape):
                yield 'inner-shape', f'{what} call {k}: {t} {g.tensormap[t].get_shape()}, expected {b.shape}'
                return
        for a in keep:
            if given[a].dtype != keep[a].dtype or not np.array_equal(given[a], keep[a]):
                yield 'input-modified', f'{what} call {k}: {a}'
        for o, c in old:
            if any(not np.array_equal(p, q) for p, q in zip(o, c)):
                yield 'earlier-result-modified', f'{what} call {k}'
                return
        for t, b in inits.items():
            if t in g.tensormap and t not in feeds and (g.tensormap[t].numpy is None or not np.array_equal(g.tensormap[t].numpy, b)):
                yield 'weight-modified', f'{what} call {k}: {t}'
                return
        old.append((list(got), [np.array(x) for x in got]))
        st.state(what, k, tuple(np.asarray(x).tobytes() for x in got))


def run_case(cid, p, st):
    if st.cases % 499 == 0:
        st.sample(cid)
    hists = HIST
    if p[0] == 'net':
        m, feedlist = nets()[p[1]]
    elif p[0] == 'wire':
        _, w, outs, full = p
        m = None
        for default in (False, True) if full else (False,):
            m = wire_model(w, outs, default)
            fl = [{'x': data((2, 8), 0)}, {'x': data((3, 8), 1)}]
            if default:
                fl = [dict(fl[0], w=data((1, 8), 2)), dict(fl[1], w=data((1, 8), 1))]
            want, use = [], []
            for f in fl:
                try:
                    want.append(reference(m, f))
                    use.append(f)
                except Exception:
                    st.count('not_executable')
            if not use:
                continue
            for h in HIST if full else ('plain', 'reordered'):
                for fold in (False, True) if not default else (False,):       # folding takes default values for constants
                    yield from judge(m, use, want, h, fold, st)
        return
    elif p[0] == 'prog':
        _, b, y, xs = p
        m = mk(b, y, xs)
        if m is None:
            return
        feedlist = [{'x': data(s, k)} for k, s in enumerate([xs] + ALT[len(xs)][:2])]
        hists = ('plain', 'reordered')
    else:
        _, m, shapes = p
        names = [v.name for v in m.graph.input]
        feedlist = [{t: data(s, k) for t in names} for k, s in enumerate(shapes)]
        hists = ('plain', 'inferred')
        if 'omitted_split' in cid:
            feedlist = [f for f, s in zip(feedlist, shapes) if s[0] == shapes[0][0]]      # the parts are given for these
    want, use = [], []
    for k, f in enumerate(feedlist):
        try:
            w = reference(m, f)
        except Exception:
            st.count('not_executable')
            continue
        if p[0] == 'prog' and k:
            get = lambda t: np.asarray(w.get(t, b.vals.get(t)))
            s = list(f['x'].shape)
            if not all(ok(get(t)) for ok, t in b.req) or not b.creq[0](get(b.creq[1]), s):
                st.count('not_legal_at_second_shape')
                continue
        want.append(w)
        use.append(f)
    if not use:
        return
    for h in hists:
        for fold in (False, True):
            yield from judge(m, use, want, h, fold, st)
