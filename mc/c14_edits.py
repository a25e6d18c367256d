"""C14: all bounded sequences of graph edits, checked step by step against an abstract graph."""
import collections
import itertools
import numpy as np
import onnx
from onnx import helper, numpy_helper
from mc import gx
from mc.c13_fuse import build, graphs, reads_proto
from mc.core import tool, ToolError
from onnx_tool import fusion

PID = 'C14'
TECH = 'explicit-state breadth-first search over all edit sequences; every history is replayed from scratch on the real graph and compared with an abstract graph after each step'
RULE = ('source graphs: every DAG wiring of up to 3 nodes over unary, binary, weighted, two-output, omitted-input and conditional kinds (4 nodes over unary/binary) with every extra graph output; edit alphabet: remove node (plain, recursive), '
        'remove subtree, remove dangling nodes, skip node, reorder, add or replace a constant, fuse two nodes, relation update, graph update, save and reload; all sequences up to depth 4/3/2 for 2/3/4 nodes (one more in the thorough tier), '
        'merging histories that reach the same complete graph state')
ASSUME = ['the part of the graph state not observable through nodes, relations, inputs, outputs, constants and tensor tables does not influence edits']


class A:
    """abstract graph"""

    def __init__(self):
        self.nodes = collections.OrderedDict()      # name -> (op, ins, outs, body reads)
        self.outs = []
        self.ins = []
        self.inits = {}                 # name -> value
        self.k = 0

    @staticmethod
    def of(m):
        a = A()
        for n in m.graph.node:
            ins = tuple(n.input)
            a.nodes[n.name] = (n.op_type, ins, tuple(n.output), tuple(t for t in reads_proto(n) if t not in ins))
        a.outs = [o.name for o in m.graph.output]
        a.ins = [i.name for i in m.graph.input]
        a.inits = {i.name: numpy_helper.to_array(i) for i in m.graph.initializer}
        return a

    def copy(self):
        b = A()
        b.nodes = collections.OrderedDict(self.nodes)
        b.outs, b.ins, b.inits, b.k = list(self.outs), list(self.ins), dict(self.inits), self.k
        return b

    def prod(self, t):
        return next((n for n, x in self.nodes.items() if t and t in x[2]), None)

    def readers(self, t):
        return [n for n, x in self.nodes.items() if t and (t in x[1] or t in x[3])]

    def orphans(self):
        made = {o for x in self.nodes.values() for o in x[2]}
        return {t for x in self.nodes.values() for t in x[1] + x[3] if t and t not in made and t not in self.inits and t not in self.ins}

    def used(self, n):
        return any(o and (o in self.outs or self.readers(o)) for o in self.nodes[n][2])

    def drop(self, n):
        x = self.nodes.pop(n)
        self.outs = [o for o in self.outs if o not in x[2]]
        return x

    # every edit returns False when it does not apply here (not explored)
    def apply(self, op):
        k, arg = op[0], op[1:]
        if k == 'remove':
            self.drop(arg[0])
        elif k == 'removeR':
            todo = [arg[0]]
            while todo:
                x = self.drop(todo.pop())
                for t in x[1] + x[3]:
                    p = self.prod(t)
                    if p is not None and p not in todo and not self.used(p):
                        todo.append(p)
        elif k == 'subtree':
            todo, sub = [arg[0]], [arg[0]]
            while todo:
                for o in self.nodes[todo.pop()][2]:
                    for r in self.readers(o):
                        if r not in sub:
                            sub.append(r)
                            todo.append(r)
            for n in sub:
                self.drop(n)
        elif k == 'dangling':
            ch = True
            while ch:
                ch = False
                for n in list(self.nodes):
                    if not self.used(n):
                        self.drop(n)
                        ch = True
        elif k == 'skip':
            op_, ins, outs, body = self.nodes[arg[0]]
            if set(ins) & self.orphans():
                return False
            dyn = [t for t in ins if t and t not in self.inits]
            if len(dyn) != 1 or len(outs) != 1:
                return True          # refused, nothing changes
            i, o = dyn[0], outs[0]
            if o not in self.outs:
                old, new = o, i
            elif self.prod(i) is not None and i not in self.outs:
                old, new = i, o
            else:
                return True
            rs = [r for r in self.readers(old) if r != arg[0]]
            if any(old in self.nodes[r][3] for r in rs):
                return True
            self.nodes.pop(arg[0])
            for n, x in list(self.nodes.items()):
                sub = lambda ts: tuple(new if t == old else t for t in ts)
                self.nodes[n] = (x[0], sub(x[1]), sub(x[2]), x[3])
        elif k == 'fuse':
            grp = list(arg)
            S = set(grp)
            made = {o for n in grp for o in self.nodes[n][2] if o}
            if any(t in made for n in grp for t in self.nodes[n][3]):
                return False
            if self.reenters(S):
                return False
            ins, outs = [], []
            for n in grp:
                for t in self.nodes[n][1] + self.nodes[n][3]:
                    if t and t not in made and t not in ins:
                        ins.append(t)
                for o in self.nodes[n][2]:
                    rs = self.readers(o)
                    if o and (o in self.outs or not rs or set(rs) - S):
                        outs.append(o)
            body = tuple(dict.fromkeys(t for n in grp for t in self.nodes[n][3]))      # the recorded branches still read them
            for n in grp:
                self.nodes.pop(n)
            self.nodes[f'F{self.k}'] = ('Fused', tuple(ins), tuple(outs), body)
            self.k += 1
        elif k == 'reorder':
            self.nodes = collections.OrderedDict((n, self.nodes[n]) for n in self.topo())
        elif k == 'const':
            if arg[0] == 'new':
                self.inits['extra'] = CONST['f']
            elif arg[0] not in self.inits:
                return False
            else:
                self.inits[arg[0]] = CONST[arg[1]]
        elif k == 'reload':
            if self.orphans() or not self.outs or not self.nodes or list(self.nodes) != self.topo():
                return False
            used = {t for x in self.nodes.values() for t in x[1] + x[3]}
            self.ins = [i for i in self.ins if i in used]
            self.inits = {i: v for i, v in self.inits.items() if i in used}
        elif k == 'update_graph':
            if self.orphans():
                return False
            used = {t for x in self.nodes.values() for t in x[1] + x[3]}
            self.ins = [i for i in self.ins if i in used]
        return True

    def topo(self):
        made = {o for x in self.nodes.values() for o in x[2] if o}
        done, res, rest = set(), [], list(self.nodes)
        while rest:
            # level by level, in node order (any valid order is accepted by the comparison)
            lvl = [n for n in rest if all(t in done or t not in made for t in self.nodes[n][1] + self.nodes[n][3])]
            if not lvl:
                return res
            n = lvl[0]
            rest.remove(n)
            done |= set(self.nodes[n][2])
            res.append(n)
        return res

    def reenters(self, S):
        succ = {n: {r for o in x[2] for r in self.readers(o)} for n, x in self.nodes.items()}
        todo, seen = [r for n in S for r in succ[n] if r not in S], set()
        while todo:
            n = todo.pop()
            if n in S:
                return True
            if n not in seen:
                seen.add(n)
                todo += succ[n]
        return False

    def ops(self):
        for n in self.nodes:
            for k in ('remove', 'removeR', 'subtree', 'skip'):
                yield (k, n)
        for a, b in itertools.combinations(self.nodes, 2):
            yield ('fuse', a, b)
        for k in ('dangling', 'reorder', 'relations', 'reload', 'update_graph'):
            yield (k,)
        yield ('const', 'new')
        if self.inits:
            for v in CONST:
                yield ('const', sorted(self.inits)[0], v)


CONST = {'f': np.array([[[[4.0, 4.0]]]], np.float32), 'd': np.array([[[[4.5], [0.1]]]], np.float64), 'i': np.array([3, -7], np.int64)}


def do(g, op, k):
    n = op[0]
    if n == 'remove':
        tool(g.remove_node, op[1])
    elif n == 'removeR':
        tool(g.remove_node, op[1], True)
    elif n == 'subtree':
        tool(g.remove_subtree, op[1])
    elif n == 'skip':
        tool(g.skip_node, op[1])
    elif n == 'fuse':
        tool(g.fuse_subgraph_node_names, list(op[1:]), 'Fused', f'F{k}', True)
    elif n == 'dangling':
        tool(g.remove_dangling_nodes)
    elif n == 'reorder':
        tool(g.graph_reorder_nodes)
    elif n == 'relations':
        tool(g.update_tensor_relations)
    elif n == 'update_graph':
        tool(g.update_graph)
    elif n == 'const':
        tool(g.add_initial, 'extra' if op[1] == 'new' else op[1], CONST['f' if op[1] == 'new' else op[2]].copy())
    elif n == 'reload':
        return gx.load(gx.saved(g, no_shape=False))
    return g


def snap(g):
    return repr(([(n, x.op_type, list(x.input), list(x.output)) for n, x in g.nodemap.items()], {t: sorted(v) for t, v in sorted(g.producedby.items())}, {t: sorted(v) for t, v in sorted(g.consumedby.items())},
                 sorted(g.input), g.output, sorted((t, str(g.tensormap[t].dtype), repr(g.tensormap[t].numpy)) for t in g.initials if t in g.tensormap), sorted(g.dynamics), sorted(g.tensormap), getattr(g, 'shape_tensors', None) and sorted(g.shape_tensors)))


def compare(g, a, op):
    have = {n: (x.op_type, tuple(x.input), tuple(x.output)) for n, x in g.nodemap.items()}
    want = {n: x[:3] for n, x in a.nodes.items()}
    if set(have) != set(want):
        return 'nodes', f'{sorted(have)} for {sorted(want)}'
    for n in want:
        if want[n][0] == 'Fused':
            if (have[n][0] != 'Fused') or set(have[n][1]) != set(want[n][1]) or set(have[n][2]) != set(want[n][2]):
                return 'connections', f'{n} is {have[n]} for {want[n]}'
        elif have[n] != want[n]:
            return 'connections', f'{n} is {have[n]} for {want[n]}'
    dd = gx.rel_diff(g)
    if dd:
        return 'relations', dd
    if sorted(g.output) != sorted(a.outs):
        return 'outputs', f'{g.output} for {a.outs}'
    if sorted(g.input) != sorted(a.ins):
        return 'inputs', f'{g.input} for {a.ins}'
    for nm, lst in (('initials', g.initials), ('dynamics', g.dynamics)):
        d = [t for t, c in collections.Counter(lst).items() if c > 1]
        if d:
            return 'duplicates', f'{nm} lists {d} twice'
    if not set(a.inits) <= set(g.initials):
        return 'constants', f'{g.initials} for {sorted(a.inits)}'
    for t in a.inits:
        if t not in g.tensormap or g.tensormap[t].numpy is None:
            return 'constant-data', t
        c, v = g.tensormap[t].numpy, a.inits[t]
        if c.dtype != v.dtype or c.shape != v.shape or not np.array_equal(c, v) or g.tensormap[t].dtype != v.dtype.type or list(g.tensormap[t].shape) != list(v.shape):
            return 'constant-value', f'{t}: {g.tensormap[t].dtype} {g.tensormap[t].shape} {c.tolist()} for {v.dtype} {v.tolist()}'
    if op[0] == 'reorder':
        done = set()
        made = {o for x in a.nodes.values() for o in x[2] if o}
        for n in g.nodemap:
            if any(t in made and t not in done for t in a.nodes[n][1] + a.nodes[n][3]):
                return 'order', f'{list(g.nodemap)}'
            done |= set(a.nodes[n][2])
    return None


def sources(tier):
    th = tier == 'thorough'
    plan = [([(1, ['x'], 'ucwsei'), (2, ['x'], 'ucwsei'), (2, ['x', 'z'], 'uc')], 4 if th else 3), ([(3, ['x'], 'ucsi'), (3, ['x', 'z'], 'uc')], 3 if th else 2), ([(4, ['x'], 'uc')], 2)]
    for p, d in plan:
        for w, outs in graphs(tier, p):
            yield w, outs, d
            # leave one sink unobserved: dangling regions
            if len(outs) > 1:
                for o in outs:
                    yield w, [q for q in outs if q != o], d


def cases(tier):
    seen = set()
    for w, outs, d in sources(tier):
        c = f'{w!r}/{"+".join(outs)}/{d}'.replace(' ', '')
        if c in seen:
            continue
        seen.add(c)
        yield c, (w, outs, d)
    for c in shapeop_cases():
        yield c


def replay(m, hist):
    g = gx.load(m)
    k = 0
    for op in hist:
        g = do(g, op, k)
        if op[0] == 'fuse':
            k += 1
    return g


def run_case(cid, p, st):
    if p[0] == 'shapeops':
        yield from run_shapeops(p, st)
        return
    w, outs, depth = p
    m = build(w, outs)
    a0 = A.of(m)
    used = {t for x in a0.nodes.values() for t in x[1] + x[3]}
    a0.ins = [i for i in a0.ins if i in used]
    g0 = gx.load(m)
    if cid and st.cases % 197 == 0:
        st.sample(cid)
    frontier = [((), a0)]
    seen = {snap(g0)}
    bad = 0
    for d in range(depth):
        nxt = []
        for hist, a in frontier:
            for op in a.ops():
                b = a.copy()
                if not b.apply(op):
                    continue
                h = hist + (op,)
                try:
                    g = replay(m, h)
                except ToolError as e:
                    yield 'raises:' + e.args[0] + ':' + op[0], f'{h}: {e.args}'
                    bad += 1
                    continue
                st.valid()
                v = compare(g, b, op)
                if v:
                    bad += 1
                    yield v[0] + ':' + op[0], f'{h}: {v[1]}'
                    if bad > 20:
                        return
                    continue
                if op[0] in ('reorder', 'reload'):
                    b.nodes = collections.OrderedDict((n, b.nodes[n]) for n in g.nodemap)
                s = snap(g)
                if s not in seen:
                    seen.add(s)
                    st.state(cid, s)
                    nxt.append((h, b))
        frontier = nxt


# ------------------------------------------------------------------ removing shape-only operators
def shapeop_cases():
    ops = ['Flatten', 'Reshape', 'Unsqueeze', 'Squeeze', 'Relu']
    for n in (1, 2, 3):
        for seq in itertools.product(ops, repeat=n):
            for obs in range(n):
                yield f'shapeops/{"+".join(seq)}/{obs}', ('shapeops', seq, obs)


def run_shapeops(p, st):
    _, seq, obs = p
    ns = [helper.make_node('Neg', ['x'], ['t'], name='first')]
    cur = 't'
    for j, op in enumerate(seq):
        ins = [cur] + (['sh'] if op == 'Reshape' else ['ax'] if op in ('Unsqueeze', 'Squeeze') else [])
        ns.append(helper.make_node(op, ins, [f's{j}'], name=f'n{j}'))
        cur = f's{j}'
    ns.append(helper.make_node('Add', [cur, f's{obs}'], ['y'], name='last'))
    m = gx.model(ns, [gx.vi('x', None)], [gx.vi('y', None)], [numpy_helper.from_array(np.array([1, 4], np.int64), 'sh'), numpy_helper.from_array(np.array([0], np.int64), 'ax')])
    g = gx.load(m)
    tool(fusion.removeShapeOps, g)
    st.valid()
    st.state(seq, obs)
    left = [n for n in g.nodemap]
    want = ['first'] + [f'n{j}' for j, op in enumerate(seq) if op == 'Relu'] + ['last']
    if left != want:
        yield 'shapeops-nodes', f'{left} for {want}'
        return
    last = {-1: 't'}
    for j, op in enumerate(seq):
        last[j] = f's{j}' if op == 'Relu' else last[j - 1]
    for j, op in enumerate(seq):
        if op == 'Relu' and list(g.nodemap[f'n{j}'].input) != [last[j - 1]]:
            yield 'shapeops-input', f'n{j} reads {g.nodemap[f"n{j}"].input} for {last[j - 1]}'
    if list(g.nodemap['last'].input) != [last[len(seq) - 1], last[obs]]:
        yield 'shapeops-input', f'last reads {g.nodemap["last"].input}'
    dd = gx.rel_diff(g)
    if dd:
        yield 'relations', dd
