"""C12: fusion pattern search on every small graph x a family of patterns, against an exhaustive subgraph matcher."""
import itertools
import numpy as np
from onnx import helper, numpy_helper, TensorProto as TP
import onnx
from mc import gx
from mc.core import tool, ToolError
from onnx_tool import fusion

PID = 'C12'
TECH = 'exhaustive enumeration of all small graphs x a pattern family; every assignment of nodes to pattern nodes is enumerated as oracle'
RULE = ('every DAG wiring of up to 4 nodes (5 for unary/binary kinds in the thorough tier) over two unary kinds, an ordered two-input kind, a two-output kind and a weighted kind x extra graph outputs x node order x '
        'patterns: chains, wildcard operator and ports, operator lists, branches, joins, diamonds, two-edge connections, multi-output ports, patterns listed from the end, link declared on one side only, both in-place modes, '
        'patterns derived from every node subset; a separate space of attribute conditions over all comparison operators, indices and operators with explicit, defaulted and missing attributes; the shipped patterns on graphs built for them with all single edits')
ASSUME = ['graphs of at most 5 nodes represent larger ones for patterns of at most 4 nodes']
nd = helper.make_node
OPS = {'u': 'Relu', 'v': 'Sigmoid', 'c': 'Sub', 's': 'Split', 'w': 'Mul'}


def build(w, outs, order):
    ns = []
    for j, a in enumerate(w):
        ins = list(a.i) + (['k'] if a.k == 'w' else [])
        kw = {'axis': 0} if a.k == 's' else {}
        ns.append(nd(OPS[a.k], ins, list(a.o), name=f'n{j}', **kw))
    used = {t for a in w for t in a.i}
    return gx.model([ns[j] for j in order], [gx.vi(t, [4, 4]) for t in 'xz' if t in used], [gx.vi(o, None) for o in outs],
                    [numpy_helper.from_array(np.ones((4, 4), np.float32), 'k')] if any(a.k == 'w' for a in w) else [])


# ------------------------------------------------------------------ patterns
class Pat:
    def __init__(self, name, ops, links, side='both', order=None):
        """ops: {desc: op}, links: [(src, outidx, dst, inidx)]; side: where the link is declared; order: listing order"""
        self.name, self.ops, self.links = name, dict(ops), list(links)
        ds = []
        for k in (order or list(self.ops)):
            ds.append({'name': k, 'op': self.ops[k], 'attrs': [],
                       'inport': [[i, s, o] for s, o, d, i in links if d == k and side in ('both', 'in')],
                       'outport': [[o, d, i] for s, o, d, i in links if s == k and side in ('both', 'out')]})
        self.descs = ds
        self.keys = [d['name'] for d in ds]


def patterns():
    u, v, c, s, w, any_ = 'Relu', 'Sigmoid', 'Sub', 'Split', 'Mul', 'Any'
    P = []
    for x, y in itertools.product([u, v, any_, [u, v]], repeat=2):
        P.append(Pat(f'chain:{x}>{y}', {'a': x, 'b': y}, [('a', 0, 'b', 0)]))
    for i in (0, 1, -1):
        for o in (0, -1):
            P.append(Pat(f'join:{o}>{i}', {'a': any_, 'b': c}, [('a', o, 'b', i)]))
            P.append(Pat(f'join-end-first:{o}>{i}', {'a': u, 'b': c}, [('a', o, 'b', i)], order=['b', 'a']))
    for sd in ('in', 'out'):
        P.append(Pat(f'chain-{sd}', {'a': u, 'b': [v, c]}, [('a', 0, 'b', 0)], side=sd))
        P.append(Pat(f'chain3-{sd}', {'a': u, 'b': v, 'c': any_}, [('a', 0, 'b', 0), ('b', 0, 'c', -1)], side=sd))
    P.append(Pat('single', {'a': u}, []))
    P.append(Pat('chain3', {'a': any_, 'b': u, 'c': any_}, [('a', 0, 'b', 0), ('b', 0, 'c', -1)]))
    P.append(Pat('chain3-mid', {'a': any_, 'b': u, 'c': any_}, [('a', -1, 'b', 0), ('b', 0, 'c', 0)], order=['b', 'a', 'c']))
    P.append(Pat('chain3-end', {'a': u, 'b': [u, v], 'c': v}, [('a', 0, 'b', 0), ('b', 0, 'c', 0)], order=['c', 'b', 'a']))
    P.append(Pat('chain4', {'a': any_, 'b': any_, 'c': any_, 'd': u}, [('a', 0, 'b', -1), ('b', 0, 'c', -1), ('c', 0, 'd', 0)]))
    P.append(Pat('residual', {'a': any_, 'b': [u, v], 'c': c}, [('a', 0, 'b', 0), ('a', 0, 'c', 0), ('b', 0, 'c', 1)]))
    P.append(Pat('residual-swap', {'a': any_, 'b': [u, v], 'c': c}, [('a', 0, 'c', 1), ('b', 0, 'c', 0), ('a', 0, 'b', 0)]))
    P.append(Pat('residual-end', {'a': any_, 'b': [u, v], 'c': c}, [('a', 0, 'b', 0), ('a', 0, 'c', 0), ('b', 0, 'c', 1)], order=['c', 'b', 'a']))
    P.append(Pat('fork', {'a': any_, 'b': u, 'c': v}, [('a', 0, 'b', 0), ('a', 0, 'c', 0)]))
    P.append(Pat('fork-same', {'a': any_, 'b': u, 'c': u}, [('a', 0, 'b', 0), ('a', 0, 'c', 0)]))
    P.append(Pat('fork-leaf', {'a': any_, 'b': u, 'c': v}, [('a', 0, 'b', 0), ('a', 0, 'c', 0)], order=['c', 'a', 'b']))
    P.append(Pat('join3', {'a': u, 'b': [u, v], 'c': c}, [('a', 0, 'c', 0), ('b', 0, 'c', 1)]))
    P.append(Pat('join3-end', {'a': u, 'b': v, 'c': c}, [('a', 0, 'c', 0), ('b', 0, 'c', 1)], order=['c', 'a', 'b']))
    P.append(Pat('join3-in', {'a': u, 'b': v, 'c': c}, [('a', 0, 'c', 0), ('b', 0, 'c', 1)], order=['c', 'a', 'b'], side='in'))
    P.append(Pat('join3-any', {'a': u, 'b': any_, 'c': c}, [('a', -1, 'c', -1), ('b', -1, 'c', -1)]))
    P.append(Pat('twice', {'a': u, 'c': c}, [('a', 0, 'c', 0), ('a', 0, 'c', 1)]))
    P.append(Pat('twice-any', {'a': any_, 'c': c}, [('a', -1, 'c', 0), ('a', -1, 'c', 1)]))
    for o in (0, 1):
        P.append(Pat(f'split{o}', {'a': s, 'b': u}, [('a', o, 'b', 0)]))
        P.append(Pat(f'split{o}-end', {'a': s, 'b': [u, v]}, [('a', o, 'b', 0)], order=['b', 'a']))
    P.append(Pat('split-both', {'a': s, 'b': u, 'c': [u, v]}, [('a', 0, 'b', 0), ('a', 1, 'c', 0)]))
    P.append(Pat('split-join', {'a': s, 'c': c}, [('a', 0, 'c', 0), ('a', 1, 'c', 1)]))
    P.append(Pat('split-diamond', {'a': s, 'b': u, 'c': c}, [('a', 0, 'b', 0), ('a', 1, 'c', 1), ('b', 0, 'c', 0)]))
    P.append(Pat('weighted', {'a': w, 'b': any_}, [('a', 0, 'b', -1)]))
    P.append(Pat('weighted-in', {'a': any_, 'b': w}, [('a', 0, 'b', 1)]))
    P.append(Pat('outrange', {'a': u, 'b': any_}, [('a', 1, 'b', 0)]))
    P.append(Pat('inrange', {'a': any_, 'b': u}, [('a', 0, 'b', 1)]))
    P.append(Pat('diamond', {'a': any_, 'b': u, 'c': v, 'd': c}, [('a', 0, 'b', 0), ('a', 0, 'c', 0), ('b', 0, 'd', 0), ('c', 0, 'd', 1)]))
    P.append(Pat('diamond-end', {'a': any_, 'b': any_, 'c': any_, 'd': c}, [('a', 0, 'b', 0), ('a', 0, 'c', 0), ('b', 0, 'd', 0), ('c', 0, 'd', 1)], order=['d', 'c', 'b', 'a']))
    return P


PATS = patterns()
SERIAL = [['Relu', 'Sigmoid'], ['Relu', 'Sub'], ['Split', 'Sub'], ['Split', 'Relu', 'Sub'], ['Sub', 'Sub'], ['Relu', 'Relu', 'Relu'], ['Mul', 'Relu']]


# ------------------------------------------------------------------ oracle
class G:
    """plain view of the model graph"""

    def __init__(self, m):
        self.n = {x.name: x for x in m.graph.node}
        self.outs = {o.name for o in m.graph.output}
        self.prod = {o: x.name for x in m.graph.node for o in x.output if o}
        self.cons = {}
        for x in m.graph.node:
            for t in x.input:
                self.cons.setdefault(t, set()).add(x.name)
        self.succ = {x.name: {c for o in x.output for c in self.cons.get(o, ())} for x in m.graph.node}
        self.reach = {}
        for a in self.n:
            seen, todo = set(), [a]
            while todo:
                for b in self.succ[todo.pop()]:
                    if b not in seen:
                        seen.add(b)
                        todo.append(b)
            self.reach[a] = seen

    def link(self, p, o, c, i):
        po, ci = self.n[p].output, self.n[c].input
        return any((o in (-1, a)) and (i in (-1, b)) and x == y and x for a, x in enumerate(po) for b, y in enumerate(ci))

    def private(self, S):
        """results passed inside the group are seen nowhere else"""
        for a in S:
            for t in self.n[a].output:
                cs = self.cons.get(t, set())
                if cs & set(S) and (cs - set(S) or t in self.outs):
                    return False
        return True

    def acyclic(self, groups):
        """the graph with every group contracted to one node has no cycle"""
        rep = {x: k for k, grp in enumerate(groups) for x in grp}
        lab = lambda x: rep.get(x, x)
        succ = {}
        for a in self.n:
            for b in self.succ[a]:
                if lab(a) != lab(b):
                    succ.setdefault(lab(a), set()).add(lab(b))
        state = {}

        def walk(x):
            state[x] = 1
            for y in succ.get(x, ()):
                if state.get(y) == 1 or (y not in state and not walk(y)):
                    return False
            state[x] = 2
            return True
        return all(x in state or walk(x) for x in list(succ))


def is_op(op, x):
    return op == 'Any' or x.op_type == op or (isinstance(op, list) and x.op_type in op)


def all_matches(g, keys, ops, links, inplace, attrs=None):
    """every assignment (tuple of node names in keys order)"""
    names = list(g.n)
    cand = {k: [x for x in names if is_op(ops[k], g.n[x]) and (attrs is None or attrs(k, g.n[x]))] for k in keys}
    res = []

    def rec(k, cur):
        if k == len(keys):
            if not inplace or g.private(list(cur.values())):
                res.append(tuple(cur[x] for x in keys))
            return
        for x in cand[keys[k]]:
            if x in cur.values():
                continue
            cur[keys[k]] = x
            if all(g.link(cur[s], o, cur[d], i) for s, o, d, i in links if s in cur and d in cur and keys[k] in (s, d)):
                rec(k + 1, cur)
            cur.pop(keys[k])
    rec(0, {})
    return res


def judge(g, found, matches, what):
    """found: groups in reporting order; matches: all valid assignments"""
    ms = set(matches)
    used = set()
    for k, grp in enumerate(found):
        if tuple(grp) not in ms:
            yield 'not-a-match', f'{what}: reported {grp}; valid groups {matches[:5]}'
            return
        if used & set(grp):
            yield 'shared-node', f'{what}: {found}'
            return
        used |= set(grp)
        if not g.acyclic(found[:k + 1]):
            yield 'cycle', f'{what}: fusing {found[:k + 1]} makes a cycle'
            return
    # scan order: a start node whose occurrence avoids all groups reported up to it must be reported
    bystart = {grp[0]: grp for grp in found}
    used, sofar = set(), []
    for name in g.n:
        if name in bystart:
            used |= set(bystart[name])
            sofar.append(bystart[name])
        elif name not in used:
            mm = [m for m in matches if m[0] == name and not used & set(m) and g.acyclic(sofar + [m])]
            if mm:
                yield 'missed', f'{what}: {mm[0]} is an occurrence disjoint from the earlier groups, reported {found}'
                return


# ------------------------------------------------------------------ cases
def graphs(tier):
    th = tier == 'thorough'
    seen = set()
    plan = [(1, 'uvcsw'), (2, 'uvcsw'), (3, 'uvcsw'), (4, 'uvc')]
    if th:
        plan += [(4, 'uvcs'), (5, 'uc')]
    for n, kinds in plan:
        for w in gx.wirings(n, ['x'] if n > 2 else ['x', 'z'], kinds):
            key = gx.canonical(w, 'xz')
            if key in seen:
                continue
            seen.add(key)
            base = gx.sinks(w)
            inner = [o for a in w for o in a.o if o not in base]
            ext = [[]] + ([[t] for t in inner] if n <= 3 or th else [])
            for ex in ext:
                orders = [tuple(range(n))]
                if n == 3 and not ex:
                    orders = [p for p in itertools.permutations(range(n))]
                elif n == 2 and not ex:
                    orders.append((1, 0))
                elif n > 3 and not ex:
                    orders.append(tuple(range(n))[::-1])
                for od in orders:
                    yield w, ex + base, od


def cases(tier):
    for w, outs, od in graphs(tier):
        yield f'{w!r}/{"+".join(outs)}/{"".join(map(str, od))}'.replace(' ', ''), ('g', w, outs, od, tier)
    for c in attr_cases(tier):
        yield c
    for c in shipped_cases(tier):
        yield c


def snapshot(g):
    return {n: (list(x.input), list(x.output)) for n, x in g.nodemap.items()}, list(g.output), {k: list(v) for k, v in g.consumedby.items()}


def run_graph(cid, w, outs, od, tier, st):
    m = build(w, outs, od)
    G_ = G(m)
    g = gx.load(m)
    snap = snapshot(g)
    for p in PATS:
        for inplace in (False, True):
            fp = tool(fusion.FusionPattern, p.descs, inplace)
            found = tool(fp.search_pattern, g)
            ms = all_matches(G_, p.keys, p.ops, p.links, inplace)
            st.valid()
            if ms:
                st.state(cid, p.name, inplace, tuple(map(tuple, found)))
                st.count('matches', len(ms))
            for s, d in judge(G_, found, ms, f'{p.name} inplace={inplace}'):
                yield s, d
        # the same object again must answer the same
        if tool(fp.search_pattern, g) != found:
            yield 'repeat', f'{p.name}: second search differs'
    for ops in SERIAL:
        fp = tool(fusion.createSerialPattern, ops)
        found = tool(fp.search_pattern, g)
        keys = [str(i) for i in range(len(ops))]
        ms = all_matches(G_, keys, dict(zip(keys, ops)), [(str(i), -1, str(i + 1), -1) for i in range(len(ops) - 1)], False)
        st.valid()
        for s, d in judge(G_, found, ms, f'serial {ops}'):
            yield s, d
    names = list(G_.n)
    for r in range(1, len(names) + 1):
        for sub in itertools.combinations(names, r):
            descs = tool(fusion.create_descs_from_nodenames, g, list(sub))
            links = []
            for i, x in enumerate(sub):
                for y in sub:
                    for a, t in enumerate(G_.n[x].output):
                        for b, t2 in enumerate(G_.n[y].input):
                            if t == t2 and t:
                                links.append((x, a, y, b))
            # every connection is named at both of its ends
            for port, wl in (('inport', [(b, c, a, o) for o, a, c, b in [(l[1], l[0], l[2], l[3]) for l in links]]), ('outport', [(l[1], l[0], l[2], l[3]) for l in links])):
                got = sorted((p[0], d['name'], p[1], p[2]) if port == 'inport' else (p[0], d['name'], p[1], p[2]) for d in descs for p in d[port])
                if got != sorted(wl):
                    yield 'description', f'{port} of {sub}: {got} for {sorted(wl)}'
            fp = tool(fusion.FusionPattern, descs)
            found = tool(fp.search_pattern, g)
            ms = all_matches(G_, list(sub), {x: G_.n[x].op_type for x in sub}, links, False)
            st.valid()
            if sub not in ms:
                raise AssertionError('oracle: a subset must match its own description')
            for s, d in judge(G_, found, ms, f'description of {sub}'):
                yield s, d
    if snapshot(g) != snap:
        yield 'search-changed-graph', 'the search modified the graph'


# ------------------------------------------------------------------ attribute conditions
ATTR_NODES = {
    'conv2': ('Conv', {'kernel_shape': [3, 5], 'group': 2, 'strides': [1, 2]}),
    'conv1': ('Conv', {'kernel_shape': [3], 'pads': [1, 2]}),
    'leaky': ('LeakyRelu', {'alpha': 0.5}),
    'leaky0': ('LeakyRelu', {}),
    'relu': ('Relu', {}),
    'concat': ('Concat', {'axis': -1}),
    'lrn': ('LRN', {'size': 3}),
    'pad': ('MaxPool', {'kernel_shape': [2, 2], 'auto_pad': 'SAME_UPPER'}),
    'custom': ('MyOp', {'f': 2.5, 'i': 4, 'fs': [0.5, 1.5], 's': 'abc'}),
}
ATTR_PROBES = [('kernel_shape', None), ('kernel_shape', 0), ('kernel_shape', 1), ('kernel_shape', 2), ('group', None), ('strides', 1), ('pads', 1), ('alpha', None), ('axis', None), ('size', None),
               ('f', None), ('i', None), ('fs', 0), ('fs', 1), ('fs', 5), ('nosuch', None), ('nosuch', 0)]
CMP = {'<=': lambda a, b: a <= b, '<': lambda a, b: a < b, '>=': lambda a, b: a >= b, '>': lambda a, b: a > b, '==': lambda a, b: a == b}
NUMS = [-1, 0, 0.5, 1, 2, 2.5, 3, 4, 5]
LISTS = [[3, 5], [5, 3], [3], [1, 2], [0.5, 1.5], [3, 5, 1]]     # whole-list equality


def attr_cases(tier):
    for nm in ATTR_NODES:
        for an, ix in ATTR_PROBES:
            yield f'attr/{nm}/{an}.{ix}', ('a', nm, an, ix)
    for a, b in itertools.product(ATTR_PROBES, repeat=2):
        yield f'attr2/{a[0]}.{a[1]}/{b[0]}.{b[1]}', ('a2', a, b)


def attr_model():
    ns = []
    for j, (nm, (op, at)) in enumerate(ATTR_NODES.items()):
        ins = ['x'] if op not in ('Conv',) else ['x', 'w']
        ns.append(nd(op, ins, [f't{j}'], name=nm, domain='cust' if op == 'MyOp' else None, **at))
    return gx.model(ns, [gx.vi('x', None), gx.vi('w', None)], [gx.vi(f't{j}', None) for j in range(len(ns))], domains=['cust'])


def attr_holds(op, at, an, ix, cmp, num):
    if an not in at:
        return False
    v = at[an]
    if ix is not None:
        if ix >= len(v):
            return False
        v = v[ix]
    elif isinstance(v, list) != isinstance(num, list):
        return None         # comparing a whole list with a number: not specified
    return CMP[cmp](v, num)


def run_attr(cid, p, st):
    m = attr_model()
    g = gx.load(m)
    if p[0] == 'a':
        _, nm, an, ix = p
        op, at = ATTR_NODES[nm]
        if an not in at and an not in ('nosuch',):
            # an attribute left to its default: either reading is acceptable, but no error and nothing else
            if any(an in a for o, a in ATTR_NODES.values() if o == op) or hasattr(onnx.defs, 'x') or _known_attr(op, an):
                for cmp in CMP:
                    d = [{'name': 'a', 'op': op, 'attrs': [[an, cmp] + ([ix] if ix is not None else []) + [NUMS[3]]], 'inport': [], 'outport': []}]
                    if ix is None and an in ('kernel_shape', 'strides', 'pads'):
                        continue
                    tool(tool(fusion.FusionPattern, d).search_pattern, g)
                    st.valid()
                return
        for cmp in CMP:
            for num in NUMS + (LISTS if cmp == '==' and ix is None else []):
                w = attr_holds(op, at, an, ix, cmp, num)
                if w is None:
                    continue
                d = [{'name': 'a', 'op': op, 'attrs': [[an, cmp] + ([ix] if ix is not None else []) + [num]], 'inport': [], 'outport': []}]
                found = tool(tool(fusion.FusionPattern, d).search_pattern, g)
                st.valid()
                st.state(nm, an, ix, cmp, num, w)
                if ([nm] in found) != bool(w):
                    yield 'attr', f'{nm} {at}: [{an}{"" if ix is None else [ix]} {cmp} {num}] should be {w}; found {found}'
    else:
        _, a, b = p
        ops = sorted({o for o, _ in ATTR_NODES.values()})
        for (c1, n1), (c2, n2) in itertools.product([('<=', 3), ('>', 1), ('==', 2)], [('>=', 1), ('<', 4)]):
            at = [[a[0], c1] + ([a[1]] if a[1] is not None else []) + [n1], [b[0], c2] + ([b[1]] if b[1] is not None else []) + [n2]]
            if any(x[0] in ('kernel_shape', 'strides', 'pads') and len(x) == 3 for x in at):
                continue
            d = [{'name': 'a', 'op': 'Any', 'attrs': at, 'inport': [], 'outport': []}]
            found = tool(tool(fusion.FusionPattern, d).search_pattern, g)
            st.valid()
            for nm, (op, atts) in ATTR_NODES.items():
                if any(x[0] not in atts and _known_attr(op, x[0]) for x in (a, b)):
                    continue
                w = attr_holds(op, atts, a[0], a[1], c1, n1) and attr_holds(op, atts, b[0], b[1], c2, n2)
                if ([nm] in found) != bool(w):
                    yield 'attr2', f'{nm} {atts}: {at} should be {bool(w)}; found {found}'


def _known_attr(op, an):
    try:
        return an in onnx.defs.get_schema(op, 17).attributes
    except Exception:
        return False


# ------------------------------------------------------------------ shipped patterns
def shipped_graph(which):
    if which == 'ConvBN':
        ns = [nd('Conv', ['x', 'w'], ['a'], name='n0', kernel_shape=[3, 3]), nd('BatchNormalization', ['a', 's', 's', 's', 's'], ['b'], name='n1')]
    elif which == 'Fused_Element':
        ns = [nd('Conv', ['x', 'w'], ['a'], name='n0', kernel_shape=[3, 3]), nd('Relu', ['a'], ['b'], name='n1')]
    elif which == 'Conv_Res':
        ns = [nd('Conv', ['x', 'w'], ['a'], name='n0', kernel_shape=[3, 3]), nd('Add', ['x', 'a'], ['b'], name='n1'), nd('Relu', ['b'], ['c'], name='n2')]
    elif which == 'MHAint8_Pattern':
        ns = [nd('QLinearMatMul', ['x', 's', 's', 'w', 's', 's', 's', 's'], ['a'], name='n0'), nd('DequantizeLinear', ['a', 's'], ['b'], name='n1'), nd('Div', ['b', 's'], ['c'], name='n2'),
              nd('Add', ['c', 'm'], ['d'], name='n3'), nd('Softmax', ['d'], ['e'], name='n4'), nd('QuantizeLinear', ['e', 's'], ['f'], name='n5'), nd('QLinearMatMul', ['f', 's', 's', 'w', 's', 's', 's', 's'], ['g'], name='n6')]
    elif which == 'layernorm_pattern':
        ns = [nd('ReduceMean', ['x'], ['a'], name='n0'), nd('Sub', ['x', 'a'], ['b'], name='n1'), nd('Pow', ['b', 's'], ['c'], name='n2'), nd('ReduceMean', ['c'], ['d'], name='n3'), nd('Add', ['d', 's'], ['e'], name='n4'),
              nd('Sqrt', ['e'], ['f'], name='n5'), nd('Div', ['b', 'f'], ['g'], name='n6')]
    return ns


SHIPPED = ['ConvBN', 'Fused_Element', 'Conv_Res', 'MHAint8_Pattern', 'layernorm_pattern']


def links_of(pat):
    res = []
    for d in pat:
        for i, s, o in d['inport']:
            res.append((s, o, d['name'], i))
        for o, t, i in d['outport']:
            res.append((d['name'], o, t, i))
    return res


def shipped_cases(tier):
    for which in SHIPPED:
        ns = shipped_graph(which)
        yield f'shipped/{which}/asis', ('s', which, 'asis', None)
        for k, n in enumerate(ns):
            yield f'shipped/{which}/op{k}', ('s', which, 'op', k)            # another operator in its place
            yield f'shipped/{which}/observed{k}', ('s', which, 'observed', k)     # its result is also a graph output
            yield f'shipped/{which}/reader{k}', ('s', which, 'reader', k)       # its result is also read outside
            yield f'shipped/{which}/back{k}', ('s', which, 'back', k)           # an outside path re-enters at the last node
            for i in range(len(n.input)):
                yield f'shipped/{which}/cut{k}.{i}', ('s', which, 'cut', (k, i))     # the input comes from elsewhere
                for i2 in range(i + 1, len(n.input)):
                    yield f'shipped/{which}/swap{k}.{i}.{i2}', ('s', which, 'swap', (k, i, i2))
        for order in ('reverse', 'rotate'):
            yield f'shipped/{which}/{order}', ('s', which, order, None)
        yield f'shipped/{which}/twice', ('s', which, 'twice', None)


def run_shipped(cid, which, edit, k, st):
    ns = shipped_graph(which)
    outs = [ns[-1].output[0]]
    if edit == 'op':
        ns[k].op_type = 'Identity'
    elif edit == 'observed':
        if ns[k].output[0] not in outs:
            outs.append(ns[k].output[0])
    elif edit == 'reader':
        ns.append(nd('Neg', [ns[k].output[0]], ['rr'], name='r0'))
        outs.append('rr')
    elif edit == 'back':
        ns.append(nd('Neg', [ns[k].output[0]], ['rr'], name='r0'))
        ns[-2].input.append('rr')
        if k == len(ns) - 2:
            ns[-2].input.pop()
            outs.append('rr')
    elif edit == 'cut':
        ns[k[0]].input[k[1]] = 'x2'
    elif edit == 'swap':
        a = ns[k[0]]
        a.input[k[1]], a.input[k[2]] = a.input[k[2]], a.input[k[1]]
    elif edit == 'reverse':
        ns = ns[::-1]
    elif edit == 'rotate':
        ns = ns[1:] + ns[:1]
    elif edit == 'twice':
        second = []
        for n in ns:
            c = onnx.NodeProto()
            c.CopyFrom(n)
            c.name = 'm' + n.name
            for i, t in enumerate(c.input):
                if t in {o for q in ns for o in q.output}:
                    c.input[i] = 'm' + t
                elif t == 'x':
                    c.input[i] = ns[-1].output[0]
            for i, t in enumerate(c.output):
                c.output[i] = 'm' + t
            second.append(c)
        ns = [q for pair in zip(ns, second) for q in pair]
        outs = ['m' + outs[0]]
    m = gx.model(ns, [gx.vi(t, None) for t in ('x', 'x2', 'm')], [gx.vi(o, None) for o in outs], [helper.make_tensor(t, 1, [1], [1.0]) for t in ('s', 'w')])
    pat = getattr(fusion, which)
    ops = {d['name']: d['op'] for d in pat}
    # the shipped pattern must describe the occurrence it is meant for
    G_ = G(m)
    links = links_of(pat)

    def attrs(key, x):
        d = [q for q in pat if q['name'] == key][0]
        at = {a.name: helper.get_attribute_value(a) for a in x.attribute}
        return all(bool(attr_holds(x.op_type, at, q[0], q[2] if len(q) == 4 else None, q[1], q[-1])) for q in d['attrs'])
    g = gx.load(m)
    for inplace in (False, True):
        ms = all_matches(G_, [d['name'] for d in pat], ops, links, inplace, attrs)
        found = tool(tool(fusion.FusionPattern, pat, inplace).search_pattern, g)
        st.valid()
        st.state(cid, inplace, tuple(map(tuple, found)))
        for s, d in judge(G_, found, ms, f'{which} inplace={inplace}'):
            yield s, d
        want = 1 if edit in ('asis', 'reverse', 'rotate') else 2 if edit == 'twice' else None
        inner_shared = which == 'layernorm_pattern' and inplace
        if want is not None and len(found) != want:
            yield 'shipped-occurrence', f'{which}: {want} occurrences, found {found}'


def run_case(cid, p, st):
    if st.cases % 1499 == 0:
        st.sample(cid)
    if p[0] == 'g':
        yield from run_graph(cid, *p[1:], st)
    elif p[0] in ('a', 'a2'):
        yield from run_attr(cid, p, st)
    else:
        yield from run_shipped(cid, *p[1:], st)
