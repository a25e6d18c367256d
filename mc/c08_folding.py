"""C08: constant folding over all small graphs of constant and dynamic sources."""
import itertools
import os
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from mc import gx, shapelang as sl
from mc.c07_roundtrip import tmpdir
from mc.core import tool, ToolError
import onnx_tool

PID = 'C08'
TECH = 'exhaustive enumeration of all small graphs over constant and dynamic sources, folded and unfolded, executed against the source model'
RULE = ('every DAG wiring of up to 4 nodes (5 thorough, unary/binary) over unary/binary/two-output nodes from a dynamic input, an initialiser, a Constant node and an initialiser that is also a graph input x every set of extra graph outputs '
        'x every valid node order (up to 3 nodes); constant chains of the shape grammar; control flow, optional inputs, dequantisation and non-evaluable nodes; folding on and off')
ASSUME = ['the ONNX reference evaluator is correct']
nd = helper.make_node
F = np.float32


def build(w, srcs, outs, order=None):
    ns = []
    for j, a in enumerate(w):
        op, at = {'u': ('Neg', {}), 'v': ('Relu', {}), 'b': ('Mul', {}), 'c': ('Sub', {}), 's': ('Split', {'axis': 0})}[a.k]
        ns.append(nd(op, list(a.i), list(a.o), name=f'n{j}', **at))
    if order:
        ns = [ns[j] for j in order]
    used = {t for a in w for t in a.i}
    inits, ins, pre = [], [], []
    base = np.array([[1, -2], [3, 0.5], [-1, 4], [2, -0.25]], F)
    for k, s in enumerate(srcs):
        if s not in used:
            continue
        if s == 'x':
            ins.append(gx.vi('x', [4, 2]))
        elif s == 'k':
            pre.append(nd('Constant', [], ['k'], name='ck', value=numpy_helper.from_array(base * 0.5 + 1, 'kv')))
        else:
            inits.append(numpy_helper.from_array(base + k, s))
            if s == 'd':
                ins.append(gx.vi('d', [4, 2]))
    return helper.make_model(helper.make_graph(pre + ns, 'g', ins, [helper.make_empty_tensor_value_info(o) for o in outs], inits), opset_imports=[helper.make_opsetid('', 17)], ir_version=8)


def shape_ok(w):
    r = {}
    for a in w:
        ss = [r.get(i, 4) for i in a.i]
        if len(set(ss)) > 1:
            return False
        s = ss[0]
        if a.k == 's':
            if s % 2:
                return False
            s //= 2
        for o in a.o:
            r[o] = s
    return True


def outsets(w):
    base = gx.sinks(w)
    inner = [o for a in w for o in a.o if o not in base]
    yield base
    for t in inner:
        yield [t] + base
    if len(inner) > 1:
        yield inner + base
    # a sink that is not an output (dead constant or dynamic result)
    if len(base) > 1:
        for t in base:
            yield [b for b in base if b != t]


def graphs(tier):
    plan = [(1, ['x', 'w', 'k'], 'ucs'), (2, ['x', 'w', 'k'], 'ucs'), (3, ['x', 'w'], 'ucs'), (3, ['x', 'k'], 'uc'), (3, ['w', 'd'], 'uc'), (3, ['x', 'w', 'k'], 'uc'), (4, ['x', 'w'], 'uc')]
    if tier == 'thorough':
        plan += [(3, ['x', 'w', 'k', 'd'], 'ucs'), (4, ['x', 'w'], 'ucs'), (4, ['x', 'w', 'k'], 'uc')]
    seen = set()
    for n, srcs, kinds in plan:
        for w in gx.wirings(n, srcs, kinds):
            if not shape_ok(w):
                continue
            key = gx.canonical(w, srcs)
            if key in seen:
                continue
            seen.add(key)
            yield w, srcs


def S_opt():
    m = gx.model([nd('Clip', ['w', '', 'hi'], ['a'], name='n0'), nd('Clip', ['x', '', 'hi'], ['b'], name='n1'), nd('Add', ['a', 'b'], ['y'], name='n2')], [gx.vi('x', [2, 2])], [gx.vi('y', [2, 2])],
                 [numpy_helper.from_array(np.array([[1, 2], [-3, 4]], F), 'w'), numpy_helper.from_array(np.array(1, F), 'hi')])
    return m


def S_dql(used):
    inits = [numpy_helper.from_array(np.array([[1, -2], [3, 4]], np.int8), 'q'), numpy_helper.from_array(np.array(0.5, F), 's'), numpy_helper.from_array(np.array(1, np.int8), 'z')]
    return gx.model([nd('DequantizeLinear', ['q', 's', 'z'], ['d'], name='dq'), nd('Neg', ['d'], ['e'], name='n0'), nd('MatMul', ['x', 'e' if used else 'd'], ['y'], name='n1')], [gx.vi('x', [2, 2])], [gx.vi('y', [2, 2])], inits)


def S_unevaluable(op):
    """a constant operand of a node the tool cannot evaluate"""
    w = numpy_helper.from_array(np.array([[1, -2], [3, 4]], F), 'w')
    one = numpy_helper.from_array(np.array([1, 1], F), 'one')
    ks = numpy_helper.from_array(np.array([1], np.int64), 'ks')
    ins, at, nout, ini = {'LogSoftmax': (['w'], {}, 1, [w]), 'LayerNormalization': (['w', 'one'], {}, 1, [w, one]), 'Gelu': (['w'], {}, 1, [w]), 'TopK': (['w', 'ks'], {}, 2, [w, ks]),
                          'PRelu': (['w', 'one'], {}, 1, [w, one]), 'Hardmax': (['w'], {}, 1, [w]), 'LpNormalization': (['w'], {}, 1, [w])}[op]
    outs = ['a', 'b'][:nout]
    return gx.model([nd('Neg', ['w'], ['pre'], name='n9')] + [nd(op, ['pre' if i == 'w' else i for i in ins], outs, name='n0', **at), nd('Add', ['x', 'a'], ['y'], name='n1'), nd('Neg', ['a'], ['c'], name='n2'), nd('Add', ['y', 'c'], ['z'], name='n3')],
                    [gx.vi('x', [2, 2])], [helper.make_empty_tensor_value_info('z')], ini, opset=20)


def S_random():
    w = numpy_helper.from_array(np.array([2, 2], np.int64), 'w')
    return gx.model([nd('ConstantOfShape', ['w'], ['c'], name='n0'), nd('RandomUniformLike', ['c'], ['r'], name='n1'), nd('Mul', ['r', 'c'], ['z'], name='n2'), nd('Add', ['x', 'z'], ['y'], name='n3')],
                    [gx.vi('x', [2, 2])], [gx.vi('y', [2, 2])], [w])


def S_if(cond, reads, outer_const):
    """If in a graph whose branch reads constant or dynamic outer tensors"""
    tb = helper.make_graph([nd('Neg', [reads], ['ty'], name='tn')], 'tb', [], [gx.vi('ty', [2, 2])])
    eb = helper.make_graph([nd('Relu', ['w'], ['ey'], name='en')], 'eb', [], [gx.vi('ey', [2, 2])])
    ns = [nd('Mul', ['w', 'w'], ['cw'], name='n0'), nd('Add', ['x', 'cw'], ['dx'], name='n1'), nd('If', ['c'], ['i'], name='nif', then_branch=tb, else_branch=eb), nd('Sub', ['x', 'i'], ['y'], name='n2')]
    inits = [numpy_helper.from_array(np.array([[1, 2], [-3, 4]], F), 'w')]
    ins = [gx.vi('x', [2, 2])]
    if cond == 'in':
        ins.append(gx.vi('c', [1], TP.BOOL))
    else:
        inits.append(numpy_helper.from_array(np.array([cond == 'true']), 'c'))
    return gx.model(ns, ins, [gx.vi('y', [2, 2])], inits)


def S_multi(j):
    """multi-output constant node of which some outputs are used / exported / omitted"""
    outs = [['a', 'b'], ['a', ''], ['', 'b']][j % 3]
    ns = [nd('Split', ['w'], [o or f'u{k}' for k, o in enumerate(outs)] if j < 3 else outs, name='n0', axis=0)]
    use = [o for o in outs if o]
    ns.append(nd('Add', ['x', use[0]], ['y'], name='n1'))
    o = [gx.vi('y', [1, 2])] + [gx.vi(t, [1, 2]) for t in use[1:]]
    return gx.model(ns, [gx.vi('x', [1, 2])], o, [numpy_helper.from_array(np.array([[1, 2], [-3, 4]], F), 'w')])


def S_wide(n, how):
    """constant node with n outputs; how[k]: result k is unused (0), read by a dynamic node (1), a graph output (2), read by a foldable node (3)"""
    outs = [f'p{k}' for k in range(n)]
    ns = [nd('Split', ['w'], outs, name='n0', axis=0)]
    go, acc = [], 'x'
    for k, h in enumerate(how):
        t = outs[k]
        if h == 2:
            go.append(t)
            continue
        if h == 3:
            ns.append(nd('Neg', [t], [f'c{k}'], name=f'c{k}'))
            t = f'c{k}'
        if h:
            ns.append(nd('Sub', [acc, t], [f'd{k}'], name=f'd{k}'))
            acc = f'd{k}'
    ns.append(nd('Relu', [acc], ['y'], name='last'))
    return gx.model(ns, [gx.vi('x', [1, 2])], [gx.vi(t, [1, 2]) for t in ['y'] + go], [numpy_helper.from_array(np.arange(2 * n, dtype=F).reshape(n, 2) - 2.5, 'w')])


def structural():
    yield 'opt', S_opt, ()
    for u in (0, 1):
        yield f'dql{u}', S_dql, (u,)
    for op in ('LogSoftmax', 'LayerNormalization', 'TopK', 'PRelu', 'Hardmax', 'LpNormalization', 'Gelu'):
        yield f'uneval/{op}', S_unevaluable, (op,)
    yield 'random', S_random, ()
    for cnd, r, oc in itertools.product(('in', 'true', 'false'), ('x', 'w', 'cw', 'dx'), (0,)):
        yield f'if/{cnd}/{r}', S_if, (cnd, r, oc)
    for j in range(6):
        yield f'multi/{j}', S_multi, (j,)
    for n in (3, 4):
        for how in itertools.product(range(4) if n == 3 else (0, 1, 3), repeat=n):
            yield f'wide/{n}/{"".join(map(str, how))}', S_wide, (n, how)


def cases(tier):
    for tag, f, a in structural():
        yield f'S/{tag}', ('S', f, a)
    for w, srcs in graphs(tier):
        for outs in outsets(w):
            yield f'{w!r}/{"+".join(outs)}'.replace(' ', ''), ('G', w, srcs, outs)
    for xs in ([2, 3], [1, 2, 4, 4]):
        for cm in ('init', 'node'):
            for tag, b, y in sl.programs(xs, 2 if tier == 'thorough' or cm == 'init' and xs == [2, 3] else 1, cmodes=(cm,), sources=('const',), pairs=False):
                yield f'C/{xs}/{tag}'.replace(' ', ''), ('C', b, y, xs)


def nodes_of(m):
    return [n for n in m.graph.node]


def const_nodes(m):
    """names of nodes all of whose inputs are (transitively) constant - independent of the tool"""
    const = {t.name for t in m.graph.initializer} | {''}
    res = set()
    for n in m.graph.node:
        if all(i in const for i in n.input) and n.op_type not in ('DequantizeLinear',):
            outer = set()
            for a in n.attribute:
                if a.type == onnx.AttributeProto.GRAPH:
                    outer |= {i for q in a.g.node for i in q.input}
            if outer <= const or not outer:
                res.add(n.name)
                const |= {o for o in n.output if o}
    return res


def run_case(cid, case, st):
    kind = case[0]
    models = []
    if kind == 'S':
        models = [('', case[1](*case[2]))]
    elif kind == 'C':
        from mc.c06_graphshapes import mk
        m = mk(case[1], case[2], case[3])
        if m is None:
            return
        models = [('', m)]
    else:
        _, w, srcs, outs = case
        n = len(w)
        orders = [None]
        if n <= 3:
            from mc.c06_graphshapes import extensions
            tmp = build(w, srcs, outs)
            core = [x for x in tmp.graph.node if x.name != 'ck']
            orders = list(extensions(core))
        models = [(str(o), build(w, srcs, outs, o)) for o in orders]
    if st.cases % 499 == 0:
        st.sample(cid)
    for tag, m in models:
        yield from one(m, st, kind, cid)


def one(m, st, kind, cid):
    feeds = {}
    ini = {t.name for t in m.graph.initializer}
    for v in m.graph.input:
        if v.name in ini:
            continue
        tt = v.type.tensor_type
        shp = [d.dim_value or 2 for d in tt.shape.dim] if kind != 'C' else None
        if kind == 'C':
            shp = [int(c) for c in cid.split('/')[1].strip('[]').split(',')]
        n = int(np.prod(shp))
        feeds[v.name] = np.array([True]) if tt.elem_type == TP.BOOL else (np.arange(n, dtype=F) * 3 % 7 - 2.5).reshape(shp)
    rand = any(n.op_type.startswith('Random') for n in m.graph.node)
    try:
        want = None if rand else gx.evaluate(m, feeds)
    except Exception:
        st.count('reference_cannot_run')
        want = None
    if want is not None:
        for o in m.graph.output:
            if not o.type.tensor_type.HasField('shape'):
                o.CopyFrom(helper.make_tensor_value_info(o.name, helper.np_dtype_to_tensor_dtype(want[o.name].dtype), list(want[o.name].shape)))
    names = {n.name for n in m.graph.node}
    try:
        g = gx.load(m, constant_folding=False)
        if set(g.nodemap) != names:
            yield 'off:nodes', f'{sorted(names - set(g.nodemap))} disappeared without folding'
        d = gx.rel_diff(g)
        if d:
            yield 'off:relations', d
    except ToolError as e:
        yield f'off:raises:{e.args[0]}', ' '.join(e.args)
    try:
        mod = tool(onnx_tool.loadmodel, m, {'constant_folding': True})
    except ToolError as e:
        yield f'load:raises:{e.args[0]}', ' '.join(e.args)
        return
    g = mod.graph
    st.valid()
    const = const_nodes(m)
    gone = names - set(g.nodemap)
    if gone - const:
        yield 'removed-dynamic', f'{sorted(gone - const)} removed although not constant'
    if rand and 'n1' in gone:
        yield 'removed-random', 'random node folded'
    d = gx.rel_diff(g)
    if d:
        yield 'relations', d
    made = {o for n in g.nodemap.values() for o in n.output}
    for n in g.nodemap.values():
        for t in n.input:
            if t and t not in made and t not in g.input and t not in g.initials:
                yield 'disconnected', f'{t} of {n.name} has no source'
            if t and t in g.initials and g.tensormap[t].numpy is None:
                yield 'no-value', f'constant {t} has no value'
    for o in m.graph.output:
        if o.name not in made and o.name not in g.initials and o.name not in g.input:
            yield 'output-lost', o.name
    want_in = [v.name for v in m.graph.input if v.name not in ini]
    if not set(g.input) <= set(want_in):
        yield 'new-input', f'{g.input} from {want_in}'
    p = os.path.join(tmpdir(), 'f.onnx')
    if os.path.exists(p):
        os.remove(p)
    try:
        tool(mod.save_model, p)
    except ToolError as e:
        yield f'save:raises:{e.args[0]}', ' '.join(e.args)
        return
    if not os.path.exists(p):
        yield 'nothing-saved', ''
        return
    got = onnx.load(p)
    st.state(got.SerializeToString(deterministic=True))
    if want is not None or rand:
        try:
            onnx.checker.check_model(got, full_check=True)
        except Exception as e:
            yield 'checker', str(e)[:200]
    if want is None:
        return
    try:
        have = gx.evaluate(got, feeds)
    except Exception as e:
        yield 'not-runnable', f'{type(e).__name__} {str(e)[:200]}'
        return
    for k in want:
        if k not in have or not gx.close(want[k], have[k]):
            yield 'result', f'{k}: {have.get(k)} for {want[k]}'
