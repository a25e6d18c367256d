"""C28: operators registered by the user are treated like built-in ones: graphs with twins of built-in operators behave like the built-in graphs."""
import functools
import itertools
import warnings
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
import onnx_tool
from onnx_tool.node import Node, PWNode
from mc import core, gx
from mc.core import tool, ToolError

PID = 'C28'
TECH = 'exhaustive enumeration of programs x node subsets replaced by user-registered twins x implementation forms x registration forms, and of all registration histories, on the real registry and graph; oracle is the graph of built-in operators'
RULE = ('twelve programs of up to five nodes (chains, joins, two results, attributes, omitted inputs, weights, constants, shape-computing chains, a conditional body) x every subset of nodes replaced by registered operator types x five ways to implement a type '
        '(subclass, shape only, value only, macs only, whole profile) x three ways to register x default and custom domain x folding on and off x three input shapes in a row; '
        'every run of consecutive nodes of shape computations fused into a registered type and the graph updated; every history of up to four (thorough: five) of {register implementation 1, register 2, override a built-in, restore it, load, analyse the oldest and the newest graph}')
ASSUME = ['a registered class inherits from Node as the documentation shows']
nd = helper.make_node
F = np.float32
REG = onnx_tool.NODE_REGISTRY


def snapshot():
    """the tables of the registry"""
    return [(v, dict(v)) for v in vars(REG).values() if isinstance(v, dict)]


def restore(snap):
    for v, old in snap:
        v.clear()
        v.update(old)


def forget(name):
    for v in vars(REG).values():
        if isinstance(v, dict):
            v.pop(name, None)


def data(*s):
    n = int(np.prod(s))
    return (np.arange(n) * 5 % 7 - 2.5).astype(F).reshape(s)


def ini(n, a):
    return numpy_helper.from_array(np.asarray(a), n)


# name -> (nodes, initialisers, outputs); input x of rank 2
PROGS = {
    'chain': ([('Relu', ['x'], ['a'], {}), ('LeakyRelu', ['a'], ['b'], {'alpha': 0.25}), ('Neg', ['b'], ['y'], {})], {}, ['y']),
    'diamond': ([('Relu', ['x'], ['a'], {}), ('Exp', ['a'], ['b'], {}), ('Sub', ['b', 'a'], ['c'], {}), ('Mul', ['c', 'x'], ['y'], {})], {}, ['y', 'b']),
    'concat': ([('Relu', ['x'], ['a'], {}), ('Concat', ['a', 'x', 'a'], ['c'], {'axis': 1}), ('Transpose', ['c'], ['y'], {'perm': [1, 0]})], {}, ['y']),
    'split': ([('Split', ['x'], ['a', 'b'], {'axis': 0, 'num_outputs': 2}), ('Tanh', ['b'], ['c'], {}), ('Add', ['a', 'c'], ['y'], {})], {}, ['y', 'b']),
    'gemm': ([('Gemm', ['x', 'w', 'b'], ['a'], {'transB': 1}), ('Relu', ['a'], ['r'], {}), ('MatMul', ['r', 'v'], ['y'], {})], {'w': data(3, 4), 'b': data(3), 'v': data(3, 5)}, ['y']),
    'omitted': ([('Clip', ['x', '', 'hi'], ['a'], {}), ('Dropout', ['a'], ['b', ''], {}), ('Clip', ['b', 'hi'], ['y'], {})], {'hi': np.array(1, F)}, ['y']),
    'const': ([('Add', ['w', 'w'], ['k'], {}), ('Mul', ['k', 'w'], ['q'], {}), ('Add', ['x', 'q'], ['y'], {})], {'w': data(1, 4)}, ['y', 'k']),
    'constshape': ([('Relu', ['one'], ['p'], {}), ('Concat', ['p', 'm'], ['t'], {'axis': 0}), ('Reshape', ['x', 't'], ['r'], {}), ('Neg', ['r'], ['y'], {})], {'one': np.array([2], np.int64), 'm': np.array([-1], np.int64)}, ['y']),
    'reduce': ([('ReduceMean', ['x', 'ax'], ['m'], {'keepdims': 1}), ('Sub', ['x', 'm'], ['d'], {}), ('Pow', ['d', 'two'], ['y'], {})], {'ax': np.array([-1]), 'two': np.array(2, F)}, ['y']),
    'shapes': ([('Shape', ['x'], ['s'], {}), ('Mul', ['s', 'k'], ['t'], {}), ('Relu', ['x'], ['r'], {}), ('Expand', ['r', 's'], ['e'], {}), ('ConstantOfShape', ['t'], ['y'], {})], {'k': np.array([1, 2])}, ['y', 'e']),
    'scale': ([('Sigmoid', ['x'], ['a'], {}), ('Mul', ['a', 'x'], ['y'], {}), ('Identity', ['y'], ['z'], {})], {}, ['z', 'a']),
    'cast': ([('Cast', ['x'], ['h'], {'to': TP.FLOAT16}), ('Mul', ['h', 'h'], ['g'], {}), ('Greater', ['g', 'h'], ['y'], {})], {}, ['y']),
}
SHAPES = [(2, 4), (6, 4), (2, 4)]
HOW = ['sub', 'shape', 'value', 'macs', 'profile']
REGFORM = ['call', 'decorator', 'item']
# nodes whose inputs' values decide the shape are evaluated, by the operator type of the reader: Reshape, Resize, Slice and Expand stay built in
FIXED = {'Reshape', 'Expand', 'ConstantOfShape', 'Shape'}


def twin(op, how, form, name=None):
    """registers a type 'My<op>' that computes the same as op"""
    base = REG['%sNode' % op]
    name = name or f'My{op}'

    if how == 'sub':
        cls = type(name + 'Node', (base,), {})
    else:
        def init(self, n):
            Node.__init__(self, n)
            self.inner = base(n)
            self.inner.input, self.inner.output = self.input, self.output

        def shape(self, i, o):
            self.inner.shape_infer(i, o)

        def value(self, i, o):
            self.inner.value_infer(i, o)

        def core_(self, i, o):
            return self.inner._profile_core(i, o)

        def profile(self, i, o):
            return [self.inner._profile_core(i, o), 3, 2]
        d = {'__init__': init}
        if how == 'shape':
            d.update(shape_infer=shape, _profile_core=core_)
        elif how == 'value':
            d.update(value_infer=value, _profile_core=core_)
        elif how == 'macs':
            d.update(shape_infer=shape, value_infer=value, _profile_core=core_)
        else:
            d.update(shape_infer=shape, value_infer=value, profile=profile)
        cls = type(name + 'Node', (Node,), d)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if form == 'call':
            tool(REG.register, cls)
        elif form == 'decorator':
            r = tool(REG.register)(cls)
            if r is not cls:
                raise AssertionError('the decorator returns another class')
        else:
            REG[name + 'Node'] = cls
    return cls


def build(prog, subset, domain, used=None):
    nodes, inits, outs = PROGS[prog]
    ns = []
    for j, (op, i, o, at) in enumerate(nodes):
        my = j in subset
        ns.append(nd(('My' if my else '') + op, i, o, name=f'n{j}', domain=domain if my and domain else None, **at))
    return gx.model(ns, [gx.vi('x', ['R', 'C'])], [gx.vi(o, None) for o in outs], [ini(k, v) for k, v in inits.items()], opset=18, domains=('mine',) if domain else ())


@functools.lru_cache(None)
def reference(prog, fold, needs_value):
    """what the graph of built-in operators says: per input shape {tensor: (shape, type)}, {node: macs...}, values"""
    m = build(prog, (), '')
    g = gx.load(m, constant_folding=fold)
    res = []
    for s in SHAPES:
        tool(g.shape_infer, {'x': np.zeros(s, F)})
        tool(g.profile)
        res.append(facts(g))
    vals = []
    g = gx.load(m, constant_folding=fold)
    for k, s in enumerate(SHAPES):
        try:
            vals.append([np.array(v) for v in tool(g.value_infer, {'x': data(*s) + k})])
        except ToolError as e:
            vals.append(e.args[0])
    return sorted(g.nodemap), res, vals


def facts(g):
    return ({t: (tuple(v.get_shape()), np.dtype(v.dtype)) for t, v in g.tensormap.items() if t}, {n: (x.macs, x.params, x.memory, tuple(x.inshape), tuple(x.outshape)) for n, x in g.nodemap.items()}, (g.macs[0], g.params, g.dedup_params, g.memory))


def cases(tier):
    th = tier == 'thorough'
    for prog, (nodes, _, _) in PROGS.items():
        free = [j for j, (op, _, _, _) in enumerate(nodes) if op not in FIXED]
        if prog == 'shapes':
            free.append(0)
        for k in range(1, len(free) + 1):
            for sub in itertools.combinations(free, k):
                for how in HOW:
                    if prog in ('shapes', 'constshape') and how == 'shape' or how == 'sub' and 'Gemm' in [nodes[j][0] for j in sub]:
                        continue          # the values decide shapes; the class of Gemm is shared by other operators and not meant to be derived from
                    yield f'{prog}/{"".join(map(str, sub))}/{how}', ('t', prog, sub, how)
    for n in range(1, 6 if th else 5):
        for h in itertools.product(EV, repeat=n):
            if any(e[0] == 'L' for e in h) and h[-1] in ('Ao', 'An'):
                yield 'hist/' + '-'.join(h), ('h', h)
    for cons, (k, kf), fold in itertools.product(CONS, CHAINS.items(), (False, True)):
        ns = len(kf)
        for a in range(ns):
            for b in range(a + 1, ns + 1):
                if (a, b) != (0, 1) or kf[0][0] != 'Shape':
                    yield f'fused/{cons}/{k}/{a}-{b}/{fold}', ('f', cons, k, a, b, fold)
    for k in ('unregistered', 'missing', 'attributes', 'calls', 'registry'):
        yield f'odd/{k}', ('o', k)


def run_twin(prog, subset, how, st):
    nodes, _, outs = PROGS[prog]
    ops = sorted({nodes[j][0] for j in subset})
    for form, domain, fold in itertools.product(REGFORM, ('', 'mine'), (False, True)):
        names, facts_, vals = reference(prog, fold, how)
        for op in ops:
            twin(op, how, form)
        m = build(prog, subset, domain)
        what = f'{form} domain={domain!r} fold={fold}'
        try:
            g = gx.load(m, constant_folding=fold)
        except ToolError as e:
            yield 'load:' + e.args[0], f'{what}: ' + ' '.join(e.args)
            return
        canfold = how != 'shape'          # cannot be evaluated, so its constants stay
        if canfold and sorted(g.nodemap) != names:
            yield 'folded-nodes', f'{what}: {sorted(g.nodemap)} for {names}'
            return
        for k, s in enumerate(SHAPES):
            try:
                tool(g.shape_infer, {'x': np.zeros(s, F)})
                tool(g.profile)
            except ToolError as e:
                yield 'analysis:' + e.args[0], f'{what} at {s}: ' + ' '.join(e.args)
                return
            st.valid()
            t, n, tot = facts(g)
            wt, wn, wtot = facts_[k]
            for x in wt:
                if x in t and t[x] != wt[x]:
                    yield 'shape', f'{what} at {s}: {x} is {t[x]}, built in {wt[x]}'
                    return
                if x not in t:
                    yield 'tensor-missing', f'{what}: {x}'
                    return
            for x in wn:
                j = int(x[1:])
                a, b = n[x], wn[x]
                if how == 'profile' and j in subset:
                    esz = lambda lst: g.tensormap[lst[0]].get_elementsize() if lst else 4
                    b = (b[0], b[1], 3 * esz(g.nodemap[x].output) + 2 * esz(g.nodemap[x].input), b[3], b[4])
                if fold and not canfold:
                    a, b = a[0], b[0]          # unfolded constants count as data
                if a != b:
                    yield 'profile', f'{what} at {s}: {x} has macs, params, memory, in, out {a}, built in {b}'
                    return
            if canfold and set(n) == set(wn) and (tot[:3] != wtot[:3] or tot[3] != sum(q[2] for q in n.values())):
                yield 'totals', f'{what} at {s}: {tot} for {wtot}'
                return
        st.state(prog, subset, how, form, domain, fold)
        # values
        g = gx.load(m, constant_folding=fold)
        for k, s in enumerate(SHAPES):
            try:
                got = tool(g.value_infer, {'x': data(*s) + k})
            except ToolError as e:
                if how == 'shape' and e.args[0] == 'NotImplementedError':
                    break
                if vals[k] == e.args[0]:
                    break
                yield 'values:' + e.args[0], f'{what}: ' + ' '.join(e.args)
                return
            if how == 'shape' and any(f'n{j}' in g.nodemap for j in subset):
                yield 'values', f'{what}: {prog} was evaluated without an evaluator'
                return
            st.valid()
            for o, a, b in zip(outs, got, vals[k]):
                if not gx.close(a, b):
                    yield 'values', f'{what}: {o} {np.asarray(a).tolist()} for {b.tolist()}'[:400]
                    return
        # saved
        s_ = gx.saved(g)
        src = {n.name: n for n in m.graph.node}
        for n in s_.graph.node:
            w = src[n.name]
            a = lambda q: (q.op_type, q.domain, list(q.input), list(q.output), sorted((x.name, x.SerializeToString(deterministic=True)) for x in q.attribute))
            if a(n) != a(w):
                yield 'saved', f'{what}: {n} for {w}'
                return


# ---------------------------------------------------------------- histories
EV = ['R1', 'R2', 'B', 'U', 'L', 'Ao', 'An']


def impl(k, name):
    """implementation k of a type: shape grows by k rows, k MACs per element"""
    def shape(self, i, o):
        s = list(i[0].get_shape())
        o[0].update_shape([s[0] + k] + s[1:])
        o[0].update_dtype(i[0].dtype)

    def core_(self, i, o):
        return k * int(np.prod(o[0].get_shape()))
    return type(name, (Node,), {'shape_infer': shape, '_profile_core': core_})


def run_hist(h, st):
    """the newest registration counts for graphs loaded afterwards; loaded graphs keep theirs"""
    m = gx.model([nd('Twice', ['x'], ['a'], name='n0'), nd('Neg', ['a'], ['b'], name='n1'), nd('Twice', ['b'], ['y'], name='n2')], [gx.vi('x', ['R', 'C'])], [gx.vi('y', None)])
    orig = REG['NegNode']
    obj = snapshot()
    try:
        forget('TwiceNode')
        cur, neg = 0, 0
        graphs = []
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for e in h:
                if e in ('R1', 'R2'):
                    cur = int(e[1])
                    tool(REG.register, impl(cur, 'TwiceNode'))
                elif e == 'B':
                    neg = 3
                    tool(REG.register)(impl(3, 'NegNode'))
                elif e == 'U':
                    neg = 0
                    tool(REG.register, orig)
                elif e == 'L':
                    try:
                        graphs.append((gx.load(m), cur, neg))
                    except ToolError as x:
                        yield 'load:' + x.args[0], f'{h}: {" ".join(x.args)}'
                        return
                elif graphs:
                    g, c, b = graphs[0 if e == 'Ao' else -1]
                    try:
                        tool(g.shape_infer, {'x': np.zeros((2, 5), F)})
                        tool(g.profile)
                        ok = True
                    except ToolError as x:
                        ok = False
                        if c:
                            yield 'analysis:' + x.args[0], f'{h}: {" ".join(x.args)}'
                            return
                    st.valid()
                    if ok and not c:
                        yield 'unregistered-answered', f'{h}: {[(t, g.tensormap[t].get_shape()) for t in "aby"]}'
                        return
                    if c:
                        r1, r2 = 2 + c, 2 + c + b
                        r3 = r2 + c
                        got = [list(g.tensormap[t].get_shape()) for t in 'aby']
                        if got != [[r1, 5], [r2, 5], [r3, 5]]:
                            yield 'registered-class', f'{h}: shapes {got}, expected rows {r1}, {r2}, {r3}'
                            return
                        mac = [g.nodemap[f'n{j}'].macs for j in (0, 2)]
                        if mac != [c * r1 * 5, c * r3 * 5] or b and g.nodemap['n1'].macs != b * r2 * 5:
                            yield 'registered-macs', f'{h}: {mac} {g.nodemap["n1"].macs}'
                            return
                    st.state(h, c, b, ok)
    finally:
        restore(obj)


# ---------------------------------------------------------------- shape computations fused into a registered operator
# chains that compute a shape from x of rank 2; every run of consecutive nodes is fused
CHAINS = {
    'halves': [('Shape', ['x'], 's'), ('Gather', ['s', 'i0'], 'g'), ('Mul', ['g', 'two'], 'm'), ('Concat', ['m', 'neg'], 't')],
    'plus': [('Shape', ['x'], 's'), ('Slice', ['s', 'i0', 'i1'], 'g'), ('Concat', ['g', 'neg', 'one'], 't')],
    'swap': [('Shape', ['x'], 's'), ('Gather', ['s', 'rev'], 'g'), ('Mul', ['g', 'k11'], 't')],
}
CINIT = {'i0': np.array([0]), 'i1': np.array([1]), 'two': np.array([2]), 'neg': np.array([-1]), 'one': np.array([1]), 'rev': np.array([1, 0]), 'k11': np.array([1, 1])}
CONS = {'Reshape': lambda t: nd('Reshape', ['x', t], ['y'], name='last'), 'after': lambda t: nd('Reshape', ['r', t], ['y'], name='last'), 'Fill': lambda t: nd('ConstantOfShape', ['p'], ['y'], name='last')}


def run_fused(cons, k, a, b, fold, st):
    chain = CHAINS[k]
    if k != 'swap' and cons == 'Fill':
        return
    ns = [nd('Relu', ['x'], ['r'], name='relu')] + [nd(op, i, [o], name=f'c{j}', **({'axis': 0} if op in ('Gather', 'Concat') else {})) for j, (op, i, o) in enumerate(chain)]
    if cons == 'Fill':
        ns.append(nd('Mul', ['t', 'k11'], ['p'], name='pre'))
    ns.append(CONS[cons]('t'))
    used = {i for n in ns for i in n.input}
    m = gx.model(ns, [gx.vi('x', ['R', 'C'])], [gx.vi('y', None), gx.vi('r', None)], [ini(q, v) for q, v in CINIT.items() if q in used], opset=18)
    base = gx.load(m)

    inner = [base.nodemap[f'c{j}'] for j in range(a, b)]

    def value(self, i, o):
        vals = {t.name: t for t in i}
        for n in inner:
            for t in n.input:
                if t in CINIT and t not in vals:
                    vals[t] = onnx_tool.tensor.create_initial_Tensor(t, CINIT[t])
            outs = [onnx_tool.tensor.create_initial_Tensor(t, np.zeros(1)) if t not in [q.name for q in o] else next(q for q in o if q.name == t) for t in n.output]
            n.value_infer([vals[t] for t in n.input], outs)
            vals.update({t.name: t for t in outs})

    def shape(self, i, o):
        raise RuntimeError('only values')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        REG.register(type('ShapeMathNode', (Node,), {'value_infer': value, 'shape_infer': shape}))
    want = []
    for s in SHAPES + [(4, 6)]:
        tool(base.shape_infer, {'x': np.zeros(s, F)})
        want.append((list(base.tensormap['y'].get_shape()), list(base.tensormap['r'].get_shape())))
    try:
        g = gx.load(m, constant_folding=fold)
        tool(g.fuse_subgraph_node_names, [f'c{j}' for j in range(a, b)], 'ShapeMath', 'fused', False)
        tool(g.update_graph)
        tool(g.graph_reorder_nodes)
        for s, w in zip(SHAPES + [(4, 6)], want):
            tool(g.shape_infer, {'x': np.zeros(s, F)})
            st.valid()
            got = (list(g.tensormap['y'].get_shape()), list(g.tensormap['r'].get_shape()))
            if got != w:
                yield 'fused-shapes', f'{s}: {got} for {w}'
                return
            st.state(cons, k, s, tuple(got[0]))
        cg = tool(g.get_compute_graph)
        if sorted(cg.nodemap) != ["last", "relu"]:
            yield 'fused-compute-nodes', f'{sorted(cg.nodemap)}'
    except ToolError as e:
        yield 'fused:' + e.args[0], ' '.join(e.args)


def run_odd(k, st):
    obj = snapshot()
    try:
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            if k == 'unregistered':
                # a model with operators nobody registered loads, keeps them, and its shapes are refused instead of guessed
                for domain in ('', 'mine'):
                    m = gx.model([nd('Nobody', ['x'], ['a'], name='n0', domain=domain or None, level=4), nd('Relu', ['a'], ['y'], name='n1')], [gx.vi('x', [2, 3])], [gx.vi('y', None)], domains=('mine',))
                    g = gx.load(m)
                    if type(g.nodemap['n0']) is not Node or g.nodemap['n0'].level != 4:
                        yield 'unregistered', f'{type(g.nodemap["n0"])}'
                    try:
                        tool(g.shape_infer, {'x': np.zeros((2, 3), F)})
                        yield 'unregistered-answered', f'{g.tensormap["y"].get_shape()}'
                    except ToolError:
                        pass
                    if g.valid_shape:
                        yield 'unregistered-valid', 'the shapes count as valid'
                    st.valid()
                    st.state(domain)
            elif k == 'missing':
                if REG.get('NoSuchNode') is not None or 'NoSuchNode' in REG or 'ReluNode' not in REG or 'ReluNode' not in list(REG.keys()) or dict(iter(REG)).get('ReluNode') is not REG['ReluNode']:
                    yield 'lookup', 'membership of the registry'
                try:
                    REG['NoSuchNode']
                    yield 'lookup', 'an unknown name is found'
                except KeyError:
                    pass
                st.valid()
            elif k == 'attributes':
                # every attribute is a field of the node before and after registration, defaults do not overwrite
                class SeesNode(Node):
                    def __init__(self, n):
                        super().__init__(n)
                        self.add_default_value('level', 9)
                        self.add_default_value('extra', 7)

                    def shape_infer(self, i, o):
                        o[0].update_shape([self.level, self.extra, len(self.dims), len(self.title)])
                        o[0].update_dtype(i[0].dtype)
                tool(REG.register, SeesNode)
                for lv, ex in itertools.product((None, 0, 3), (None, 5)):
                    at = {'dims': [1, 2, 3], 'title': 'four'}
                    at.update({} if lv is None else {'level': lv})
                    at.update({} if ex is None else {'extra': ex})
                    m = gx.model([nd('Sees', ['x'], ['y'], name='n0', **at)], [gx.vi('x', [1])], [gx.vi('y', None)])
                    g = gx.load(m)
                    tool(g.shape_infer, {'x': np.zeros(1, F)})
                    st.valid()
                    st.state(lv, ex)
                    want = [9 if lv is None else lv, 7 if ex is None else ex, 3, 4]
                    if list(g.tensormap['y'].get_shape()) != want:
                        yield 'attributes', f'{at}: {g.tensormap["y"].get_shape()} for {want}'
                    s = gx.saved(g)
                    have = {a.name: helper.get_attribute_value(a) for a in s.graph.node[0].attribute}
                    if have != {q: v.encode() if isinstance(v, str) else v for q, v in at.items()}:
                        yield 'saved-attributes', f'{have} for {at}'
            elif k == 'calls':
                # called once per node and analysis, in graph order, with the tensors of the node
                seen = []

                class SpyNode(Node):
                    def shape_infer(self, i, o):
                        seen.append((self.name, [t.name for t in i], [t.name for t in o], [list(t.get_shape()) for t in i]))
                        for t in o:
                            t.update_shape(i[0].get_shape())
                            t.update_dtype(i[0].dtype)

                    def _profile_core(self, i, o):
                        seen.append((self.name, 'profile', [t.name for t in i], [t.name for t in o]))
                        return 11
                tool(REG.register, SpyNode)
                m = gx.model([nd('Spy', ['x', '', 'w'], ['a', '', 'b'], name='p'), nd('Spy', ['b', 'a', 'x', 'a'], ['y'], name='q')], [gx.vi('x', [2, 3])], [gx.vi('y', None)], [ini('w', data(2))])
                g = gx.load(m)
                for r in range(2):
                    del seen[:]
                    tool(g.shape_infer, {'x': np.zeros((2 + r, 3), F)})
                    s = [2 + r, 3]
                    if [x[:3] for x in seen] != [('p', ['x', '', 'w'], ['a', '', 'b']), ('q', ['b', 'a', 'x', 'a'], ['y'])] or seen[1][3] != [s] * 4 or seen[0][3][0] != s or seen[0][3][2] != [2]:
                        yield 'calls', f'{seen}'
                    del seen[:]
                    tool(g.profile)
                    if seen != [('p', 'profile', ['x', '', 'w'], ['a', '', 'b']), ('q', 'profile', ['b', 'a', 'x', 'a'], ['y'])] or g.macs[0] != 22:
                        yield 'profile-calls', f'{seen} {g.macs}'
                    st.valid()
                    st.state(tuple(map(str, seen)))
            else:
                # a private registry behaves like the global one
                from onnx_tool.utils import Registry
                for names in itertools.product('AB', repeat=3):
                    r, want = Registry('t'), {}
                    for j, (n, form) in enumerate(zip(names, REGFORM)):
                        c = type(n, (), {'k': j})
                        want[n] = c
                        before = len(log)
                        known = n in r
                        if form == 'call':
                            r.register(c)
                        elif form == 'decorator':
                            if r.register()(c) is not c:
                                yield 'registry-decorator', n
                        else:
                            r[n] = c
                        if (len(log) > before) != known:
                            yield 'registry-warning', f'{names}: {n} known={known} {len(log) - before} warnings'
                    st.valid()
                    st.state(names)
                    if dict(iter(r)) != want or set(r.keys()) != set(want) or any(r[n] is not c or r.get(n) is not c for n, c in want.items()):
                        yield 'registry', f'{names}: {dict(iter(r))}'
    finally:
        restore(obj)


def run_case(cid, p, st):
    if st.cases % 199 == 0:
        st.sample(cid)
    core.CALLS += 1
    if p[0] == 't':
        yield from run_twin(*p[1:], st)
    elif p[0] == 'h':
        yield from run_hist(p[1], st)
    elif p[0] == 'f':
        obj = snapshot()
        try:
            yield from run_fused(*p[1:], st)
        finally:
            restore(obj)
    else:
        yield from run_odd(p[1], st)
