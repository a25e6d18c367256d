"""C13: replacing node groups by fused nodes; folding batch normalisation."""
import copy
import itertools
import os
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from mc import gx

from mc.c12_patterns import PATS, G
from mc.core import tool, ToolError
from onnx_tool import fusion
import onnx_tool

PID = 'C13'
TECH = 'exhaustive enumeration of small graphs x node groups x fusion histories on the real code; every fused node is expanded again and the result compared and executed'
RULE = ('every DAG wiring of up to 3 nodes over unary, attributed, ordered binary, weighted, two-output, omitted-input, stateful (omitted output) and conditional kinds and of 4 nodes over unary/binary/two-output x extra graph outputs x node orders x '
        'every convex node group, every pair of successive groups, every pattern of the C12 family searched and fused, every boundary pair for fusion by boundary tensors; post-operator chains over main operators x post operators x '
        'observers x attribute recording; batch-normalisation folding over dimensions, groups, bias forms, parameter sharing, observers, precisions and chains')
ASSUME = ['the ONNX reference evaluator is correct']
nd = helper.make_node
F = np.float32


def node_for(a, j):
    ins = list(a.i)
    if a.k == 'u':
        return [nd('Neg', ins, list(a.o), name=f'n{j}')]
    if a.k == 'v':
        return [nd('LeakyRelu', ins, list(a.o), name=f'n{j}', alpha=0.25 + j)]
    if a.k in 'bc':
        return [nd('Sub', ins, list(a.o), name=f'n{j}')]
    if a.k == 'w':
        return [nd('Mul', [ins[0], 'w'], list(a.o), name=f'n{j}')]
    if a.k == 's':
        return [nd('Split', [ins[0]], list(a.o), name=f'n{j}', axis=0, num_outputs=2)]
    if a.k == 'e':
        return [nd('Clip', [ins[0], '', 'hi'], list(a.o), name=f'n{j}')]
    if a.k == 'o':
        return [nd('MaxPool', [ins[0]], [a.o[0], ''], name=f'n{j}', kernel_shape=[1, 1])]
    if a.k == 'i':
        mk = lambda t, op: helper.make_graph([nd(op, [ins[0]], [f'{t}{j}'], name=f'{t}n{j}')], f'{t}g{j}', [], [gx.vi(f'{t}{j}', None)])
        return [nd('If', ['cond'], list(a.o), name=f'n{j}', then_branch=mk('p', 'Neg'), else_branch=mk('q', 'Relu'))]
    raise KeyError(a.k)


INIT = {'w': np.array([[[[2.0, -1.0]]]], F), 'hi': np.array(1.5, F), 'cond': np.array([True])}


def build(w, outs, order=None):
    ns = [node_for(a, j)[0] for j, a in enumerate(w)]
    if order is not None:
        ns = [ns[j] for j in order]
    used = {t for a in w for t in a.i}
    need = [k for k in INIT if any(k in n.input for n in ns)]
    return gx.model(ns, [gx.vi(t, None) for t in 'xz' if t in used], [gx.vi(o, None) for o in outs], [numpy_helper.from_array(INIT[k], k) for k in need], opset=18)


FEED = {'x': np.arange(-7, 9, dtype=F).reshape(8, 1, 2, 1) * 0.5, 'z': np.arange(16, dtype=F)[::-1].reshape(8, 1, 2, 1) * 0.3 - 1}


# ------------------------------------------------------------------ judging a fused graph
def reads_proto(n):
    return [t for t in n.input if t] + [t for a in n.attribute if a.type == onnx.AttributeProto.GRAPH for t in gx.body_reads(a.g) if t not in n.input]


def group_of(m, f_in, f_out, gone):
    """source nodes a fused node stands for: everything among the vanished nodes behind its outputs up to its inputs"""
    prod = {o: n for n in m.graph.node for o in n.output if o}
    todo, grp = [t for t in f_out if t], {}
    while todo:
        t = todo.pop()
        if t in prod and prod[t].name in gone and prod[t].name not in grp:
            n = prod[t]
            grp[n.name] = n
            todo += [q for q in reads_proto(n) if q not in f_in]
    return grp


def judge(m, g, fused, what, inputs_exact=True):
    """m: source model; g: fused graph; fused: {fused node name: set of source node names or None}"""
    src = {n.name: n for n in m.graph.node}
    gone = set(src) - {n for n in g.nodemap if n not in fused}
    outs = {o.name for o in m.graph.output}
    for name, x in g.nodemap.items():
        if name in fused:
            continue
        if name not in src:
            yield 'foreign-node', f'{what}: {name}'
            return
        if list(x.input) != list(src[name].input) or list(x.output) != list(src[name].output) or x.op_type != src[name].op_type:
            yield 'other-node', f'{what}: {name} is {x.op_type} {x.input}->{x.output}'
            return
    if set(fused) - set(g.nodemap):
        yield 'fused-missing', f'{what}: {list(g.nodemap)}'
        return
    if sorted(g.output) != sorted(outs):
        yield 'graph-outputs', f'{what}: {g.output} for {sorted(outs)}'
        return
    if sorted(g.input) != sorted(i.name for i in m.graph.input):
        yield 'graph-inputs', f'{what}: {g.input}'
        return
    dd = gx.rel_diff(g)
    if dd:
        yield 'relations', f'{what}: {dd}'
        return
    groups = {}
    left = set(gone)
    for f, members in fused.items():
        x = g.nodemap[f]
        if members is None:
            members = set(group_of(m, list(x.input), list(x.output), gone))
        groups[f] = members
        made = {o for n in members for o in src[n].output if o}
        need = {t for n in members for t in reads_proto(src[n])} - made
        seen = {t for n in src if n not in members for t in reads_proto(src[n])} | outs
        allr = {t for n in src for t in reads_proto(src[n])} | outs
        must, may = made & seen, made - allr
        gi, go = [t for t in x.input if t], [t for t in x.output if t]
        if inputs_exact and (set(gi) != need or len(set(gi)) != len(gi)) or set(gi) != need:
            yield 'fused-inputs', f'{what}: {f} reads {gi}, its group needs {sorted(need)}'
            return
        if not must <= set(go) or set(go) - must - may or len(set(go)) != len(go):
            yield 'fused-outputs', f'{what}: {f} gives {go}, outside needs {sorted(must)}'
            return
        left -= members
    if left:
        yield 'lost-nodes', f'{what}: {sorted(left)} are gone without a fused node'
        return
    before = set(g.nodemap)
    tool(g.graph_reorder_nodes)
    if set(g.nodemap) != before:
        yield 'cycle', f'{what}: reordering loses {sorted(before - set(g.nodemap))}'
        return
    # save, expand, execute
    with gx.scratch() as d:
        p = os.path.join(d, 'm.onnx')
        tool(g.save_model, p, False, True, m)
        s = onnx.load(p)
    nodes = []
    for n in s.graph.node:
        if n.name in fused:
            nodes += [src[q] for q in src if q in groups[n.name]]
        else:
            nodes.append(n)
    order = topo(nodes)
    e = onnx.ModelProto()
    e.CopyFrom(m)
    del e.graph.node[:]
    e.graph.node.extend(order)
    del e.graph.initializer[:]
    e.graph.initializer.extend(s.graph.initializer)
    feeds = {i.name: FEED[i.name] for i in m.graph.input}
    r = onnx.ModelProto()
    r.CopyFrom(m)
    del r.graph.node[:]
    r.graph.node.extend(topo(list(m.graph.node)))
    a, b = gx.evaluate(r, feeds), gx.evaluate(e, feeds)
    for k in a:
        if not gx.close(a[k], b[k]):
            yield 'expanded-values', f'{what}: output {k}'


def topo(nodes):
    nodes, done, res = list(nodes), set(), []
    made = {o for n in nodes for o in n.output if o}
    for k, n in enumerate(nodes):
        # the reference evaluator would feed an omitted output to omitted inputs
        if '' in n.output:
            c = onnx.NodeProto()
            c.CopyFrom(n)
            while c.output and not c.output[-1]:
                c.output.pop()
            nodes[k] = c
    while nodes:
        k = next(i for i, n in enumerate(nodes) if all(t in done or t not in made for t in reads_proto(n)))
        n = nodes.pop(k)
        done |= set(n.output)
        res.append(n)
    return res


def attrs_kept(m, x, order, what):
    """attributes of every member can be recovered from the fused node"""
    src = {n.name: n for n in m.graph.node}
    have = {a.name: a for a in x.make_nodeproto().attribute}
    n = 0
    for c, q in enumerate(order):
        for a in src[q].attribute:
            n += 1
            b = have.get(f'{src[q].op_type}{c}_{a.name}')
            if b is None:
                yield 'attribute-lost', f'{what}: {q}.{a.name}'
                return
            b = copy.deepcopy(b)
            b.name = a.name
            if helper.get_attribute_value(a) != helper.get_attribute_value(b) or a.type != b.type:
                yield 'attribute-changed', f'{what}: {q}.{a.name} {a} / {b}'
                return
    if len(have) != n:
        yield 'attribute-extra', f'{what}: {sorted(have)}'


# ------------------------------------------------------------------ graph spaces
def splits_ok(w):
    """shapes stay legal: two-output results are half size; keep them out of binary nodes with other sizes"""
    sz = {'x': 0, 'z': 0}
    for a in w:
        s = {sz[t] for t in a.i}
        if len(s) > 1:
            return False
        v = s.pop()
        if a.k == 's':
            v += 1
        if v > 3:
            return False
        for o in a.o:
            sz[o] = v
    return True


def graphs(tier, plan):
    seen = set()
    for n, srcs, kinds in plan:
        for w in gx.wirings(n, srcs, kinds, use_all=srcs):
            if not splits_ok(w):
                continue
            key = gx.canonical(w, srcs)
            if key in seen:
                continue
            seen.add(key)
            base = gx.sinks(w)
            inner = [o for a in w for o in a.o if o not in base]
            for ex in [[]] + [[t] for t in inner]:
                yield w, ex + base


def cases(tier):
    th = tier == 'thorough'
    plan = [(1, ['x'], 'uvcwseoi'), (2, ['x'], 'uvcwseoi'), (2, ['x', 'z'], 'uc'), (3, ['x'], 'uvcwsi' if not th else 'uvcwseoi'), (3, ['x', 'z'], 'uc')]
    big = [(4, ['x'], 'uc')]
    if th:
        big += [(4, ['x'], 'uvcs'), (4, ['x', 'z'], 'uc')]
    for w, outs in graphs(tier, plan + big):
        yield f'grp/{w!r}/{"+".join(outs)}'.replace(' ', ''), ('grp', w, outs, th)
    for w, outs in graphs(tier, [(2, ['x'], 'uvcws'), (3, ['x'], 'uvcs'), (3, ['x', 'z'], 'uc'), (4, ['x'], 'uc')] + ([(4, ['x', 'z'], 'uc'), (4, ['x'], 'uvcs')] if th else [])):
        yield f'pat/{w!r}/{"+".join(outs)}'.replace(' ', ''), ('pat', w, outs, th)
    for w, outs in graphs(tier, [(2, ['x'], 'uvcwsi'), (3, ['x'], 'uvcs'), (3, ['x', 'z'], 'uc')] + ([(4, ['x'], 'uc')])):
        yield f'io/{w!r}/{"+".join(outs)}'.replace(' ', ''), ('io', w, outs, th)
    yield from attr_cases()
    yield from postop_cases(th)
    yield from bn_cases(th)
    yield from entry_cases()


def body_crosses(m, grp):
    """a conditional of the group reads, inside its branches, a result of the group itself"""
    src = {n.name: n for n in m.graph.node}
    made = {o for n in grp for o in src[n].output}
    return any(t in made for n in grp for t in reads_proto(src[n]) if t not in src[n].input)


def convex_groups(m):
    v = G(m)
    for n in m.graph.node:        # reachability through branch bodies
        pass
    src = {n.name: n for n in m.graph.node}
    succ = {a: {b for b in src if set(src[a].output) & set(reads_proto(src[b]))} for a in src}
    reach = {}
    for a in src:
        s, todo = set(), [a]
        while todo:
            for b in succ[todo.pop()]:
                if b not in s:
                    s.add(b)
                    todo.append(b)
        reach[a] = s
    names = list(src)
    for r in range(1, len(names) + 1):
        for grp in itertools.combinations(names, r):
            S = set(grp)
            if any(b not in S and b in reach[a] and reach[b] & S for a in S for b in src):
                continue
            if body_crosses(m, grp):
                continue
            yield grp


def run_grp(w, outs, th, st):
    n = len(w)
    orders = [None] if n > 2 else [None, tuple(range(n))[::-1]]
    for od in orders:
        m = build(w, outs, od)
        groups = list(convex_groups(m))
        for fold in (True, False):
            for grp in groups:
                for name in ('fresh', grp[0], next((x.name for x in m.graph.node if x.name not in grp), None)):
                    if name is None or (name != grp[0] and (n > 3 or not fold)):
                        continue
                    g = gx.load(m, constant_folding=fold)
                    what = f'order {od} fold {fold} group {grp} as {name}'
                    before = set(g.nodemap)
                    tool(g.fuse_subgraph_node_names, list(grp), 'Fused', name, True)
                    st.valid()
                    new = [k for k, x in g.nodemap.items() if x.op_type == 'Fused']
                    if len(new) != 1:
                        yield 'fused-count', f'{what}: {new}'
                        continue
                    if name not in before - set(grp) and new[0] != name:
                        yield 'fused-name', f'{what}: {new}'
                    bad = list(attrs_kept(m, g.nodemap[new[0]], grp, what)) or list(judge(m, g, {new[0]: set(grp)}, what))
                    st.state(w, outs, od, grp, tuple(g.nodemap[new[0]].input), tuple(g.nodemap[new[0]].output))
                    yield from bad
            # successive fusions
            if n > (3 if not th else 4) or not fold:
                continue
            for g1, g2 in itertools.permutations(groups, 2):
                if set(g1) & set(g2):
                    continue
                if joint_cycle(m, g1, g2):
                    continue
                g = gx.load(m, constant_folding=fold)
                tool(g.fuse_subgraph_node_names, list(g1), 'Fused', 'f1', False)
                tool(g.fuse_subgraph_node_names, list(g2), 'Fused', 'f2', False)
                st.valid()
                yield from judge(m, g, {'f1': set(g1), 'f2': set(g2)}, f'groups {g1} then {g2}')
            for g1 in groups:
                for g2 in groups:
                    if len(g1) < 2 or not set(g1) < set(g2):
                        continue
                    g = gx.load(m, constant_folding=fold)
                    tool(g.fuse_subgraph_node_names, list(g1), 'Fused', 'f1', True)
                    tool(g.fuse_subgraph_node_names, ['f1'] + [q for q in g2 if q not in g1], 'Fused', 'f2', True)
                    st.valid()
                    yield from judge(m, g, {'f2': set(g2)}, f'group {g1} inside {g2}')


def joint_cycle(m, a, b):
    src = {n.name: n for n in m.graph.node}
    rep = {**{x: 'A' for x in a}, **{x: 'B' for x in b}}
    lab = lambda x: rep.get(x, x)
    succ = {}
    for x in src:
        for y in src:
            if set(src[x].output) & set(reads_proto(src[y])) and lab(x) != lab(y):
                succ.setdefault(lab(x), set()).add(lab(y))
    seen, todo = set(), ['A']
    while todo:
        for q in succ.get(todo.pop(), ()):
            if q not in seen:
                seen.add(q)
                todo.append(q)
    s2, todo = set(), ['B']
    while todo:
        for q in succ.get(todo.pop(), ()):
            if q not in s2:
                s2.add(q)
                todo.append(q)
    return 'A' in seen or 'B' in s2


def run_pat(w, outs, th, st):
    m = build(w, outs)
    for p in PATS:
        for inplace in (False, True):
            g = gx.load(m)
            found = tool(tool(fusion.FusionPattern, p.descs, inplace).search_pattern, g)
            if not found:
                continue
            for names in found:
                tool(g.fuse_subgraph_node_names, names, 'Fused', names[0], True)
            st.valid()
            st.state(w, outs, p.name, inplace)
            bad = list(judge(m, g, {x[0]: set(x) for x in found}, f'{p.name} inplace={inplace} groups {found}'))
            yield from bad
            if inplace and not bad:
                # post-operator form
                g = gx.load(m)
                for names in found:
                    tool(g.fuse_postop_node_names, names, True)
                yield from judge(m, g, {x[0]: set(x) for x in found}, f'postop {p.name} groups {found}', inputs_exact=False)


def run_io(w, outs, th, st):
    from mc.c11_subgraph import oracle_parts
    m = build(w, outs)
    tens = sorted({t for a in w for t in a.i} | {o for a in w for o in a.o})
    src = {n.name: n for n in m.graph.node}
    for i1 in itertools.chain([(t,) for t in tens], itertools.combinations(tens, 2) if len(w) < 4 else ()):
        for o1 in [(t,) for t in tens]:
            _, mid, _ = oracle_parts(m, list(i1), list(o1))
            g = gx.load(m)
            if body_crosses(m, mid):
                continue
            tool(g.fuse_subgraph_iotensors, list(i1), list(o1), 'Fused', 'F', True)
            st.valid()
            new = {k: None for k, x in g.nodemap.items() if x.op_type == 'Fused'}
            what = f'between {i1} and {o1}'
            if not mid:
                if new or set(g.nodemap) != set(src):
                    yield 'io-empty', f'{what}: {list(g.nodemap)}'
                continue
            if mid & set(g.nodemap):
                yield 'io-not-fused', f'{what}: {sorted(mid)} but {list(g.nodemap)}'
                continue
            st.state(w, outs, i1, o1, len(new))
            gone = set(src) - set(g.nodemap)
            sets = {}
            for k in new:
                sets[k] = set(group_of(m, list(g.nodemap[k].input), list(g.nodemap[k].output), gone))
            if mid not in sets.values():
                yield 'io-wrong-group', f'{what}: want {sorted(mid)}, fused {sets}'
                continue
            size = len(mid)
            if any(len(s) != size for s in sets.values()):
                yield 'io-other-size', f'{what}: {sets}'
            yield from judge(m, g, sets, what)


# ------------------------------------------------------------------ attribute kinds
def attr_cases():
    for op in ('subgraph', 'postop'):
        for rec in (True, False):
            yield f'attrs/{op}/{rec}', ('attrs', op, rec)


ATTRS = {'i': 7, 'neg': -3, 'f': 0.1, 's': 'text', 'by': b'\xff\x01', 'is_': [1, -2, 3], 'fs': [0.5, -1.5], 'ss': ['a', 'bc'], 't': numpy_helper.from_array(np.arange(6, dtype=np.int16).reshape(2, 3), 'tt')}


def run_attrs(op, rec, st):
    sub = helper.make_graph([nd('Relu', ['x'], ['sy'])], 'sub', [], [gx.vi('sy', None)])
    e = nd('Odd', ['a'], ['b'], name='n1', domain='cust', g=sub, **ATTRS)
    em = onnx.AttributeProto()
    em.name = 'empty'
    em.type = onnx.AttributeProto.INTS
    e.attribute.append(em)
    m = gx.model([nd('Odd', ['x'], ['a'], name='n0', domain='cust', **ATTRS), e, nd('LeakyRelu', ['b'], ['y'], name='n2', alpha=0.3)], [gx.vi('x', None)], [gx.vi('y', None)], domains=['cust'])
    g = gx.load(m)
    g.nodemap['n2'].set_attr('alpha', 0.75)      # attributes set after loading count as well
    m.graph.node[2].attribute[0].f = 0.75
    st.valid()
    st.state(op, rec)
    if op == 'subgraph':
        tool(g.fuse_subgraph_node_names, ['n0', 'n1', 'n2'], 'Fused', 'f', rec)
        x = g.nodemap['f']
        if rec:
            yield from attrs_kept(m, x, ['n0', 'n1', 'n2'], op)
        elif x.make_nodeproto().attribute:
            yield 'attribute-extra', f'{[a.name for a in x.make_nodeproto().attribute]}'
    else:
        tool(g.fuse_postop_node_names, ['n0', 'n1', 'n2'], rec, mark=5)
        x = g.nodemap['n0']
        yield from postop_attrs(m, x, ['n0', 'n1', 'n2'], rec, {'mark': 5}, op)
        if x.make_nodeproto().domain != 'cust':
            yield 'domain', f'{x.make_nodeproto().domain!r}'


def postop_attrs(m, x, order, rec, extra, what):
    src = {n.name: n for n in m.graph.node}
    p = x.make_nodeproto()
    have = {a.name: a for a in p.attribute}
    want = {a.name: a for a in src[order[0]].attribute}
    for k, v in extra.items():
        want[k] = helper.make_attribute(k, v)
    c = 0
    recs = [rec] * (len(order) - 1) if isinstance(rec, bool) else rec      # recorded or not, per post operator
    for q, r in zip(order[1:], recs):
        if r:
            want[f'postop_{c}'] = helper.make_attribute(f'postop_{c}', src[q].op_type)
            for a in src[q].attribute:
                want[f'postop_{c}_{a.name}'] = a
            c += 1
    want['postop_count'] = helper.make_attribute('postop_count', c)
    if set(want) != set(have):
        yield 'postop-attributes', f'{what}: {sorted(have)} for {sorted(want)}'
        return
    for k in want:
        a, b = want[k], have[k]
        va, vb = helper.get_attribute_value(a), helper.get_attribute_value(b)
        if a.type != b.type or va != vb:
            yield 'postop-attribute', f'{what}: {k} = {vb} for {va}'


# ------------------------------------------------------------------ post operators
def mains():
    W = numpy_helper.from_array(np.ones((2, 2, 1, 1), F) * 0.5, 'cw')
    B = numpy_helper.from_array(np.array([1, -1], F), 'cb')
    return {
        'conv': ([nd('Conv', ['x', 'cw'], ['m'], name='main', kernel_shape=[1, 1])], [W], 0),
        'convb': ([nd('Conv', ['x', 'cw', 'cb'], ['m'], name='main', kernel_shape=[1, 1])], [W, B], 0),
        'self': ([nd('Mul', ['x', 'x'], ['m'], name='main')], [], 0),
        'clip': ([nd('Clip', ['x', '', 'hi'], ['m'], name='main')], [numpy_helper.from_array(np.array(1.5, F), 'hi')], 0),
        'resize': ([nd('Resize', ['x', '', 'sc'], ['m'], name='main', mode='nearest')], [numpy_helper.from_array(np.array([1, 1, 2, 2], F), 'sc')], 0),
        'split0': ([nd('Split', ['x'], ['m', 'm2'], name='main', axis=1, num_outputs=2)], [], 0),
        'split1': ([nd('Split', ['x'], ['m2', 'm'], name='main', axis=1, num_outputs=2)], [], 0),
        'gemmlike': ([nd('MatMul', ['x', 'x'], ['m'], name='main')], [], 0),
        'bn': ([nd('BatchNormalization', ['x', 'cb', 'cb', 'cb', 'cv'], ['m'], name='main', epsilon=0.125)], [B, numpy_helper.from_array(np.array([1, 2], F), 'cv')], 0),
    }


POSTS = {
    'relu': lambda a, o, n: nd('Relu', [a], [o], name=n),
    'leaky': lambda a, o, n: nd('LeakyRelu', [a], [o], name=n, alpha=0.3),
    'addres': lambda a, o, n: nd('Add', [a, 'res'], [o], name=n),
    'radd': lambda a, o, n: nd('Add', ['res', a], [o], name=n),
    'mulc': lambda a, o, n: nd('Mul', [a, 'one'], [o], name=n),
    'dbl': lambda a, o, n: nd('Add', [a, a], [o], name=n),
    'clipp': lambda a, o, n: nd('Clip', [a, '', 'one'], [o], name=n),
    'addx': lambda a, o, n: nd('Add', [a, 'x'], [o], name=n),
}


def postop_cases(th):
    for mn in mains():
        for k in (1, 2, 3) if th else (1, 2):
            for ps in itertools.product(POSTS, repeat=k):
                if 'addx' in ps and mn in ('resize', 'split0', 'split1'):
                    continue
                for rec in (True, False):
                    for tail in ('out', 'read'):
                        yield f'post/{mn}/{"+".join(ps)}/{rec}/{tail}', ('post', mn, ps, rec, tail)


def run_post(mn, ps, rec, tail, st):
    ns, inits, _ = mains()[mn]
    ns = list(ns)
    inits = list(inits)
    cur = 'm'
    for j, p in enumerate(ps):
        ns.append(POSTS[p](cur, f'p{j}', f'post{j}'))
        cur = f'p{j}'
    outs = [cur]
    if tail == 'read':
        ns.append(nd('Neg', [cur], ['tail'], name='tail'))
        outs = ['tail']
    if mn.startswith('split'):
        outs.append('m2')
    if any('one' in n.input for n in ns):
        inits.append(numpy_helper.from_array(np.array(1.0, F), 'one'))
    ins = [gx.vi('x', [1, 2, 4, 4])]
    if any('res' in n.input for n in ns):
        ins.append(gx.vi('res', [1]))
    m = gx.model(ns, ins, [gx.vi(o, None) for o in outs], inits, opset=18)
    ref = gx.load(m)
    feeds = {'x': np.ones((1, 2, 4, 4), F), 'res': np.ones(1, F)}
    tool(ref.shape_infer, {k: v for k, v in feeds.items() if k in ref.input})
    modes = [None]
    if len(ps) > 1:
        modes += [s for s in itertools.product((True, False), repeat=len(ps)) if s[0] == rec]
    for stepwise in modes:
        g = gx.load(m)
        names = ['main'] + [f'post{j}' for j in range(len(ps))]
        if stepwise is None:
            extra = {'flag': 3}
            tool(g.fuse_postop_node_names, names, rec, flag=3)
        else:
            extra = {}
            for k, q in enumerate(names[1:]):
                key = {f'flag{k % 2}': k, 'last': q}
                extra.update(key)
                tool(g.fuse_postop_node_names, ['main', q], stepwise[k], **key)
        st.valid()
        st.state(mn, ps, rec, tail, stepwise)
        what = f'{mn}+{ps} record={rec} stepwise={stepwise}'
        if 'main' not in g.nodemap:
            yield 'post-main-lost', f'{what}: {list(g.nodemap)}'
            continue
        x = g.nodemap['main']
        mi = list(m.graph.node[0].input)
        if list(x.input)[:len(mi)] != mi:
            yield 'post-input-positions', f'{what}: {x.input}'
        mo = [cur if t == 'm' else t for t in m.graph.node[0].output]
        if list(x.output) != mo:
            yield 'post-output-positions', f'{what}: {x.output} for {mo}'
        if x.op_type != m.graph.node[0].op_type:
            yield 'post-op', f'{what}: {x.op_type}'
        yield from postop_attrs(m, x, names, rec if stepwise is None else list(stepwise), extra, what)
        tags = [a.name for a in x.make_nodeproto().attribute]
        if len(set(tags)) != len(tags):
            yield 'post-attribute-twice', f'{what}: {tags}'
        bad = list(structure(m, g, set(names), what))
        yield from bad
        if mn in ('resize', 'split0', 'split1') and set(ps) & {'addres', 'radd', 'mulc', 'clipp', 'addx'}:
            continue       # the appended operand takes the place of the optional operand: shapes of this form are not specified
        if not bad:
            tool(g.graph_reorder_nodes)
            tool(g.shape_infer, {k: v for k, v in feeds.items() if k in g.input})
            for t in g.nodemap['main'].output + outs:
                if list(g.tensormap[t].shape) != list(ref.tensormap[t].shape):
                    yield 'post-shape', f'{what}: {t} {g.tensormap[t].shape} for {ref.tensormap[t].shape}'


def structure(m, g, members, what):
    src = {n.name: n for n in m.graph.node}
    rest = {n for n in src if n not in members}
    if set(g.nodemap) != rest | {'main'}:
        yield 'post-nodes', f'{what}: {list(g.nodemap)}'
        return
    made = {o for n in members for o in src[n].output}
    need = {t for n in members for t in reads_proto(src[n])} - made
    if {t for t in g.nodemap['main'].input if t} != need:
        yield 'post-inputs', f'{what}: {g.nodemap["main"].input} for {sorted(need)}'
    if sorted(g.output) != sorted(o.name for o in m.graph.output):
        yield 'post-graph-outputs', f'{what}: {g.output}'
    dd = gx.rel_diff(g)
    if dd:
        yield 'relations', f'{what}: {dd}'


# ------------------------------------------------------------------ batch normalisation
def bn_cases(th):
    for dim, grp, bias, obs, share, dt in itertools.product((1, 2, 3), (1, 2), ('none', 'bias', 'omitted'), ('only', 'out', 'read', 'second'), ('own', 'weight', 'bias', 'bnparam'),
                                                               ('float32', 'float64', 'float16')):
        if dt != 'float32' and (obs != 'only' or share != 'own'):
            continue
        if share == 'bias' and bias != 'bias':
            continue
        yield f'bn/{dim}d/g{grp}/{bias}/{obs}/{share}/{dt}', ('bn', dim, grp, bias, obs, share, dt)
    for v in ('dynamic-weight', 'dynamic-scale', 'dynamic-bias', 'training', 'epsilon', 'no-kernel-shape', 'kernel9', 'name-taken', 'unnamed-order', 'input-default', 'swapped', 'tail', 'nofold', 'zero-var', 'negative-scale'):
        yield f'bnx/{v}', ('bnx', v)


def bn_model(dim, grp, bias, obs, share, dt):
    rng = np.random.RandomState(7)
    A = lambda *s: (rng.randint(-6, 7, size=s) / 4).astype(dt)
    cin, cout = 2, 4
    inits = {'w': A(cout, cin // grp, *([3] * dim)), 's': A(cout) + np.array(2, dt), 'b': A(cout), 'mu': A(cout), 'va': np.abs(A(cout)) + np.array(0.5, dt)}
    ins = ['x', 'w']
    if bias == 'bias':
        inits['cb'] = A(cout)
        ins.append('cb')
    elif bias == 'omitted':
        ins.append('')
    ns = [nd('Conv', ins, ['c'], name='conv', kernel_shape=[3] * dim, group=grp, pads=[1] * (2 * dim)), nd('BatchNormalization', ['c', 's', 'b', 'mu', 'va'], ['y'], name='bn', epsilon=0.01)]
    outs = ['y']
    if obs == 'out':
        outs.append('c')
    elif obs == 'read':
        ns.append(nd('Relu', ['c'], ['r'], name='r'))
        outs.append('r')
    elif obs == 'second':
        inits['w2'] = A(3, cout, *([1] * dim))
        for k in ('s', 'b', 'mu'):
            inits[k + '2'] = A(3)
        inits['va2'] = np.abs(A(3)) + np.array(0.25, dt)
        ns += [nd('Relu', ['y'], ['r'], name='r'), nd('Conv', ['r', 'w2'], ['c2'], name='conv2', kernel_shape=[1] * dim), nd('BatchNormalization', ['c2', 's2', 'b2', 'mu2', 'va2'], ['y2'], name='bn2')]
        outs = ['y2']
    if share == 'weight':
        ns.append(nd('Conv', ['x', 'w'], ['o'], name='other', kernel_shape=[3] * dim, group=grp))
        outs.append('o')
    elif share == 'bias':
        ns.append(nd('Conv', ['x', 'w', 'cb'], ['o'], name='other', kernel_shape=[3] * dim, group=grp))
        outs.append('o')
    elif share == 'bnparam':
        inits['mu'] = inits['s']
        ns[1].input[3] = 's'
        ns[1].input[2] = 's'
        ns.append(nd('Neg', ['s'], ['o'], name='other'))
        outs.append('o')
    T = helper.np_dtype_to_tensor_dtype(np.dtype(dt))
    used = {t for n in ns for t in n.input}
    return gx.model(ns, [gx.vi('x', [1, cin] + [4] * dim, T)], [gx.vi(o, None, T) for o in outs], [numpy_helper.from_array(v, k) for k, v in inits.items() if k in used], opset=15)


def bn_variant(v):
    m = bn_model(2, 1, 'bias', 'only', 'own', 'float32')
    g = m.graph
    fold = True
    if v.startswith('dynamic'):
        t = {'dynamic-weight': 'w', 'dynamic-scale': 's', 'dynamic-bias': 'cb'}[v]
        k = next(i for i in g.initializer if i.name == t)
        g.input.append(gx.vi(t, list(k.dims)))
        g.initializer.remove(k)
        fold = False
    elif v == 'training':
        g.node[1].attribute.append(helper.make_attribute('training_mode', 1))
        g.node[1].output.extend(['m1', 'v1'])
        g.output.append(gx.vi('m1', None))
        fold = False
    elif v == 'epsilon':
        del g.node[1].attribute[:]
    elif v == 'no-kernel-shape':
        for a in list(g.node[0].attribute):
            if a.name == 'kernel_shape':
                g.node[0].attribute.remove(a)
        fold = None
    elif v == 'kernel9':
        k = next(i for i in g.initializer if i.name == 'w')
        arr = np.arange(4 * 2 * 9 * 9, dtype=F).reshape(4, 2, 9, 9) / 100
        g.initializer.remove(k)
        g.initializer.append(numpy_helper.from_array(arr, 'w'))
        for a in g.node[0].attribute:
            if a.name == 'kernel_shape':
                a.ints[:] = [9, 9]
            if a.name == 'pads':
                a.ints[:] = [4] * 4
        fold = None
    elif v == 'name-taken':
        for t, o in (('conv_bias_', 'o1'), ('conv_weight_', 'o2')):
            g.initializer.append(numpy_helper.from_array(np.array([3.0], F), t))
            g.node.append(nd('Add', [t, 'x'], [o], name='use_' + o))
            g.output.append(gx.vi(o, None))
    elif v == 'unnamed-order':
        for n in g.node:
            n.name = ''
        g.node.insert(0, nd('Relu', ['x'], ['x1']))
        g.node[1].input[0] = 'x1'
    elif v == 'input-default':
        g.input.append(gx.vi('w', [4, 2, 3, 3]))      # the weight is also listed as an input with a default
        fold = None
    elif v == 'swapped':
        a, b = onnx.NodeProto(), onnx.NodeProto()
        a.CopyFrom(g.node[0])
        b.CopyFrom(g.node[1])
        g.node[0].CopyFrom(b)
        g.node[1].CopyFrom(a)
    elif v == 'tail':
        g.node.append(nd('Relu', ['y'], ['q'], name='q'))
        g.output[0].CopyFrom(gx.vi('q', None))
    elif v in ('zero-var', 'negative-scale'):
        t = 'va' if v == 'zero-var' else 's'
        k = next(i for i in g.initializer if i.name == t)
        k.CopyFrom(numpy_helper.from_array(np.array([0, 1, 2, 0], F) if t == 'va' else np.array([-1, 0, 2, -0.5], F), t))
    return m, fold


def run_bn(cid, p, st):
    if p[0] == 'bn':
        m = bn_model(*p[1:])
        _, dim, grp, bias, obs, share, dt = p
        # which pairs have to disappear
        safe = {'only': 1, 'second': 2, 'out': 0, 'read': 0}[obs]
        if dim == 1:
            safe = None             # the pattern is written for two-dimensional kernels
        cfg = {}
    else:
        m, fold = bn_variant(p[1])
        safe = {True: 1, False: 0, None: None}[fold]
        cfg = {'constant_folding': False} if p[1] == 'nofold' else {}
    exe = onnx.ModelProto()
    exe.CopyFrom(m)
    if p[-1] == 'swapped':
        exe.graph.node[0].CopyFrom(m.graph.node[1])
        exe.graph.node[1].CopyFrom(m.graph.node[0])
    feeds = {}
    for i in m.graph.input:
        if i.name in {t.name for t in m.graph.initializer}:
            continue
        sh = [q.dim_value for q in i.type.tensor_type.shape.dim]
        feeds[i.name] = ((np.arange(int(np.prod(sh))).reshape(sh) % 7 - 3) / 2 + 0.25).astype(helper.tensor_dtype_to_np_dtype(i.type.tensor_type.elem_type))
    a = gx.evaluate(exe, feeds)
    for o in m.graph.output:
        o.CopyFrom(gx.vi(o.name, list(a[o.name].shape), o.type.tensor_type.elem_type))
    g = gx.load(m, **cfg)
    nb = sum(n.op_type == 'BatchNormalization' for n in g.nodemap.values())
    tool(fusion.ConvBNFusion, g)
    tool(g.graph_reorder_nodes)
    left = sum(n.op_type == 'BatchNormalization' for n in g.nodemap.values())
    st.valid()
    st.state(cid, left)
    if safe is not None and nb - left != safe:
        yield 'bn-count', f'{nb - left} of {nb} folded, {safe} can be'
    dd = gx.rel_diff(g)
    if dd:
        yield 'relations', dd
    if sorted(g.output) != sorted(o.name for o in m.graph.output):
        yield 'graph-outputs', f'{g.output}'
        return
    with gx.scratch() as d:
        f = os.path.join(d, 'm.onnx')
        tool(g.save_model, f, False, True, m)
        s = onnx.load(f)
    try:
        onnx.checker.check_model(s, full_check=True)
    except onnx.checker.ValidationError as e:
        yield 'bn-invalid', str(e)
        return
    b = gx.evaluate(s, feeds)
    tol = 5e-2 if p[-1] == 'float16' else 1e-4
    for k in a:
        if k not in b or not gx.close(a[k], b[k], tol):
            yield 'bn-values', f'output {k}: {np.asarray(b.get(k)).ravel()[:4]} for {np.asarray(a[k]).ravel()[:4]}'


# ------------------------------------------------------------------ library entry
def entry_cases():
    for v in ('io', 'names', 'names-noattr', 'io-default', 'reversed'):
        yield f'entry/{v}', ('entry', v)


def run_entry(v, st):
    ns = [nd('Neg', ['x'], ['a'], name='n0'), nd('LeakyRelu', ['a'], ['b'], name='n1', alpha=0.5), nd('Relu', ['b'], ['c'], name='n2'), nd('Sub', ['c', 'a'], ['y'], name='n3'), nd('Relu', ['y'], ['q'], name='n4')]
    m = gx.model(ns, [gx.vi('x', [2, 2])], [gx.vi('q', [2, 2])])
    with gx.scratch() as d:
        src, dst = os.path.join(d, 'm.onnx'), os.path.join(d, 'o.onnx')
        onnx.save(m, src)
        if v.startswith('io'):
            kw = {} if v == 'io' else {'keep_attr': True}
            tool(onnx_tool.model_opfusion, src, 'My', 'op', dst, in_tensor_names=['a'], out_tensor_names=['c'], **kw)
            want = {'n1', 'n2'}
        else:
            names = ['n1', 'n2', 'n3'] if v != 'reversed' else ['n3', 'n2', 'n1']
            tool(onnx_tool.model_opfusion, src, 'My', 'op', dst, nodenames=names, keep_attr=v != 'names-noattr')
            want = {'n1', 'n2', 'n3'}
        if not os.path.exists(dst):
            yield 'entry-nofile', v
            return
        s = onnx.load(dst)
    st.valid()
    st.state(v)
    if v.startswith('io'):
        want = {'n1', 'n2'}
        # a is also read by n3, which lies behind a as well but not before c
    my = [n for n in s.graph.node if n.op_type == 'My']
    if len(my) != 1:
        yield 'entry-fused', f'{v}: {[n.op_type for n in s.graph.node]}'
        return
    if not my[0].name.startswith('op'):
        yield 'entry-name', f'{v}: {my[0].name}'
    rest = [n.name for n in s.graph.node if n.op_type != 'My']
    if sorted(rest) != sorted({n.name for n in ns} - want):
        yield 'entry-rest', f'{v}: {rest}'
    have = {t.name for t in s.graph.input} | {t.name for t in s.graph.initializer}
    for n in s.graph.node:
        if not set(n.input) <= have:
            yield 'entry-order', f'{v}: {n.name} reads {list(n.input)} before they are produced'
            break
        have |= set(n.output)
    if (v != 'names-noattr') != any(a.name.endswith('alpha') and a.f == 0.5 for a in my[0].attribute):
        yield 'entry-attr', f'{v}: {[a.name for a in my[0].attribute]}'
    if [o.name for o in s.graph.output] != ['q'] or [i.name for i in s.graph.input] != ['x']:
        yield 'entry-io', v


def run_case(cid, p, st):
    if st.cases % 997 == 0:
        st.sample(cid)
    k = p[0]
    if k == 'grp':
        yield from run_grp(*p[1:], st)
    elif k == 'pat':
        yield from run_pat(*p[1:], st)
    elif k == 'io':
        yield from run_io(*p[1:], st)
    elif k == 'attrs':
        yield from run_attrs(*p[1:], st)
    elif k == 'post':
        yield from run_post(*p[1:], st)
    elif k in ('bn', 'bnx'):
        yield from run_bn(cid, p, st)
    else:
        yield from run_entry(p[1], st)
