"""C09: node reordering on every DAG wiring and every node permutation."""
import itertools
from onnx import helper
from mc import gx
from mc.core import tool

PID = 'C09'
TECH = 'exhaustive exploration of all DAG wirings x all node permutations on the real sort'
RULE = ('every DAG wiring (up to isomorphism of construction order) of up to 4 nodes over 6 node kinds (one-input, two-input with repeats, two-output, omitted optional input, omitted first output, '
        'conditional whose branches read an outer tensor) and up to 5 nodes over unary/binary kinds, x every permutation of the node list; whole-graph reorder and reorder of every node subset used for subgraph extraction; thorough goes one node further')
ASSUME = ['DAGs of at most 5 nodes represent larger ones']


def proto(nd, name):
    k = nd.k
    if k in ('u', 'v'):
        return helper.make_node('Relu', nd.i, nd.o, name=name)
    if k == 'b':
        return helper.make_node('Add', nd.i, nd.o, name=name)
    if k == 's':
        return helper.make_node('Split', nd.i, nd.o, name=name, axis=0)
    if k == 'e':
        return helper.make_node('Clip', [nd.i[0], '', 'w'], nd.o, name=name)
    if k == 'o':
        return helper.make_node('LSTM', [nd.i[0], 'w', 'w'], ['', nd.o[0]], name=name, hidden_size=2)
    if k == 'i':
        br = helper.make_graph([helper.make_node('Relu', [nd.i[0]], ['y_' + name])], 'b_' + name, [], [gx.vi('y_' + name, None)])
        return helper.make_node('If', ['c'], nd.o, name=name, then_branch=br, else_branch=br)
    raise KeyError(k)


def space(tier):
    seen = set()
    plans = [(1, 'ubseoi'), (2, 'ubseoi'), (3, 'ubseoi'), (4, 'ubs')]
    if tier == 'thorough':
        plans += [(4, 'ubseoi'), (5, 'ub')]
    for n, kinds in plans:
        for w in gx.wirings(n, ['x'] if n > 2 else ['x', 'z'], kinds):
            key = gx.canonical(w, ['x', 'z'])
            if key in seen:
                continue
            seen.add(key)
            yield w


def cases(tier):
    for w in space(tier):
        yield repr(w).replace(' ', ''), w


def implicit(nd):
    return set(nd.i)


def run_case(cid, w, st):
    n = len(w)
    protos = [proto(nd, f'n{j}') for j, nd in enumerate(w)]
    prod = {o: j for j, nd in enumerate(w) for o in nd.o}
    outs = gx.sinks(w)
    want = {f'n{j}': (list(p.input), list(p.output)) for j, p in enumerate(protos)}
    if st.cases % 499 == 0:
        st.sample(cid)
    for perm in itertools.permutations(range(n)):
        m = gx.model([protos[j] for j in perm], [gx.vi('x', [2, 2]), gx.vi('z', [2, 2]), gx.vi('c', [1], 9)], [gx.vi(o, [2, 2]) for o in outs],
                     [helper.make_tensor('w', 1, [1], [1.0])])
        g = gx.load(m)
        tool(g.graph_reorder_nodes)
        order = list(g.nodemap)
        st.valid()
        st.state(cid, tuple(order))
        if sorted(order) != sorted(want):
            yield 'nodes', f'permutation {perm}: nodes {order}'
            continue
        pos = {nm: k for k, nm in enumerate(order)}
        for j, nd in enumerate(w):
            for t in nd.i:
                if t in prod and pos[f'n{prod[t]}'] > pos[f'n{j}']:
                    yield 'order', f'permutation {perm}: order {order} places n{j} before n{prod[t]}'
        for nm, (i, o) in want.items():
            if list(g.nodemap[nm].input) != i or list(g.nodemap[nm].output) != o:
                yield 'connections', f'{nm}: {g.nodemap[nm].input}->{g.nodemap[nm].output}'
        dd = gx.rel_diff(g)
        if dd:
            yield 'relations', f'permutation {perm}: {dd}'
        if sorted(g.output) != sorted(outs):
            yield 'outputs', f'{g.output} for {outs}'
        ins = {t for p in protos for t in p.input if t in ('x', 'z', 'c')}
        if not ins <= set(g.input):
            yield 'inputs', f'{g.input} for {sorted(ins)}'
        # sorting a node subset (as subgraph extraction does)
        if perm == tuple(range(n))[::-1] or perm == tuple(range(n)):
            for r in range(1, n):
                for sub in itertools.combinations(range(n), r):
                    names = [f'n{j}' for j in (sub if perm[0] == 0 else sub[::-1])]
                    got = tool(g.topsort_nodes, names, [])
                    if sorted(got) != sorted(names):
                        yield 'subset-nodes', f'{names} -> {got}'
                        continue
                    p2 = {nm: k for k, nm in enumerate(got)}
                    for j in sub:
                        for t in w[j].i:
                            if t in prod and prod[t] in sub and p2[f'n{prod[t]}'] > p2[f'n{j}']:
                                yield 'subset-order', f'{names} -> {got}'
