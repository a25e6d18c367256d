"""C11: subgraph extraction by boundary tensors and by node sets, every choice on every small graph."""
import itertools
import os
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from mc import gx
from mc.c07_roundtrip import tmpdir
from mc.core import tool, ToolError
import onnx_tool

PID = 'C11'
TECH = 'exhaustive enumeration of all small graphs x all boundary choices and node subsets; the extracted parts are executed in order against the whole model'
RULE = ('every DAG wiring of up to 4 nodes (unary/binary also 5 in the thorough tier) over unary, weighted, binary, two kinds of two-output, constant-node and conditional kinds, two graph inputs for up to 3 nodes, x every set of extra graph outputs x '
        'every pair of boundary tensor sets (one input-side tensor set of size up to 2, one output-side set of size up to 2) and every non-empty node subset; library entry points with saved files')
ASSUME = ['the ONNX reference evaluator is correct']
nd = helper.make_node
F = np.float32


def build(w, outs, order=None):
    ns, inits, pre = [], {}, []
    for j, a in enumerate(w):
        ins = list(a.i)
        if a.k == 'u':
            ns.append(nd('Neg', ins, list(a.o), name=f'n{j}'))
        elif a.k == 'w':
            ns.append(nd('Mul', ins + ['w'], list(a.o), name=f'n{j}'))
            inits['w'] = numpy_helper.from_array(np.array([[2.0], [-1.0], [0.5], [3.0]], F), 'w')
        elif a.k == 'b':
            ns.append(nd('Sub', ins, list(a.o), name=f'n{j}'))
        elif a.k == 's':
            ns.append(nd('TopK', ins + ['one'], list(a.o), name=f'n{j}', axis=1))
            inits['one'] = numpy_helper.from_array(np.array([2], np.int64), 'one')
        elif a.k == 'm':     # two results of the same type, both of use to other nodes
            ns.append(nd('Split', ins, list(a.o), name=f'n{j}', axis=1))
        elif a.k == 'o':     # constant node joined in
            pre.append(nd('Constant', [], [f'k{j}'], name=f'c{j}', value=numpy_helper.from_array(np.array([[1.0, 2.0]], F), 'v')))
            ns.append(nd('Add', ins + [f'k{j}'], list(a.o), name=f'n{j}'))
        elif a.k == 'i':
            mk = lambda t, op: helper.make_graph([nd(op, [ins[0]], [f'{t}{j}'], name=f'{t}n{j}')], f'{t}g{j}', [], [gx.vi(f'{t}{j}', [4, 2])])
            inits['cond'] = numpy_helper.from_array(np.array([True]), 'cond')
            ns.append(nd('If', ['cond'], list(a.o), name=f'n{j}', then_branch=mk('p', 'Neg'), else_branch=mk('q', 'Relu')))
    if order is not None:
        ns = [ns[j] for j in order]
    used = {t for a in w for t in a.i}
    # typed value information, so that the parts can be typed
    typ = {'x': TP.FLOAT, 'z': TP.FLOAT}
    for j, a in enumerate(w):
        for k, o in enumerate(a.o):
            typ[o] = TP.INT64 if a.k == 's' and k == 1 else TP.FLOAT
    wd = widths(w)
    g = helper.make_graph(pre + ns, 'g', [gx.vi(t, [4, 2]) for t in 'xz' if t in used], [gx.vi(o, [4, wd[o]], typ[o]) for o in outs], list(inits.values()),
                          value_info=[gx.vi(o, [4, wd[o]], t) for o, t in typ.items() if o not in outs and o not in 'xz'] + [gx.vi(p.output[0], [1, 2]) for p in pre])
    return helper.make_model(g, opset_imports=[helper.make_opsetid('', 17)], ir_version=8)


def widths(w):
    """number of columns of every tensor"""
    r = {'x': 2, 'z': 2}
    for a in w:
        for o in a.o:
            r[o] = 1 if a.k == 'm' else 2 if a.k in 'so' else max(r[i] for i in a.i)
    return r


def typed_ok(w):
    """int64 index tensors are only produced, never mixed with floats; only two columns can be split or searched"""
    wd = widths(w)
    if any(a.k in 'smi' and wd[a.i[0]] < 2 for a in w):
        return False
    ints = {a.o[1] for a in w if a.k == 's'}
    return not any(t in ints for a in w for t in a.i)


def graphs(tier):
    th = tier == 'thorough'
    seen = set()
    plan = [(1, ['x'], 'uwbsoi'), (2, ['x'], 'uwbsoi'), (2, ['x', 'z'], 'ub'), (3, ['x'], 'uwbsi' if not th else 'uwbsoi'), (3, ['x', 'z'], 'ub'), (4, ['x'], 'ub'), (2, ['x'], 'ubm'), (3, ['x'], 'ubm')]
    if th:
        plan += [(4, ['x'], 'uwbs'), (4, ['x'], 'ubm'), (5, ['x'], 'ub')]
    for n, srcs, kinds in plan:
        for w in gx.wirings(n, srcs, kinds, use_all=srcs):
            if not typed_ok(w):
                continue
            key = gx.canonical(w, srcs)
            if key in seen:
                continue
            seen.add(key)
            base = gx.sinks(w)
            inner = [o for a in w for o in a.o if o not in base]
            for ex in [[]] + [[t] for t in inner]:
                yield w, ex + base


def cases(tier):
    for w, outs in graphs(tier):
        yield f'{w!r}/{"+".join(outs)}'.replace(' ', ''), (w, outs)
    for e in ENTRY:
        yield f'entry/{e}', e


def oracle_parts(m, ins, outs):
    """three-way partition computed independently: after = fed (transitively) by an output-side tensor; between = fed by an input-side tensor, not after; before = the rest"""
    reads = {n.name: [t for t in n.input if t] + [t for a in n.attribute if a.type == onnx.AttributeProto.GRAPH for t in gx.body_reads(a.g)] for n in m.graph.node}

    def closure(ts):
        ts = set(ts)
        res = set()
        ch = True
        while ch:
            ch = False
            for n in m.graph.node:
                if n.name not in res and ts & set(reads[n.name]):
                    res.add(n.name)
                    ts |= set(n.output)
                    ch = True
        return res
    l2 = closure(outs)
    l1 = closure(ins) - l2
    return {n.name for n in m.graph.node} - l1 - l2, l1, l2


def want_io(m, names):
    """crossing tensors of a node set: (inputs needed from outside, results needed outside, results nobody uses)"""
    init = {t.name for t in m.graph.initializer}
    reads = {n.name: [t for t in n.input if t] + [t for a in n.attribute if a.type == onnx.AttributeProto.GRAPH for t in gx.body_reads(a.g)] for n in m.graph.node}
    made = {o for n in m.graph.node if n.name in names for o in n.output if o}
    need = {t for n in names for t in reads[n]} - made - init
    outside = {t for n in m.graph.node if n.name not in names for t in reads[n.name]}
    gouts = {o.name for o in m.graph.output}
    anyread = {t for r in reads.values() for t in r}
    return need, made & (outside | gouts), made - anyread - gouts


FEEDS = {t: np.array([[1, -2], [3, 0.5], [-1, 4], [2, -0.25]], F) * k for t, k in (('x', 1), ('z', -0.5))}


def check_part(m, g, names, what):
    """an extracted GraphProto/Graph must have exactly the crossing tensors"""
    need, out, dead = want_io(m, names)
    gi, go = set(g['in']), set(g['out'])
    if gi != need:
        yield f'{what}:inputs', f'{sorted(gi)} for {sorted(need)} of nodes {sorted(names)}'
    if not (out <= go <= out | dead):
        yield f'{what}:outputs', f'{sorted(go)} for {sorted(out)} (unused {sorted(dead)}) of nodes {sorted(names)}'
    if g['nodes'] != sorted(names):
        yield f'{what}:nodes', f'{g["nodes"]} for {sorted(names)}'


def as_model(gp, m):
    mm = helper.make_model(gp, opset_imports=list(m.opset_import), ir_version=m.ir_version)
    return mm


def run_case(cid, case, st):
    if isinstance(case, str):
        yield from entry(case, st)
        return
    w, outs = case
    m = build(w, outs)
    n = len(m.graph.node)
    if st.cases % 299 == 0:
        st.sample(cid)
    feeds = {v.name: FEEDS[v.name] for v in m.graph.input}
    whole = gx.evaluate(m, feeds)
    from onnx.reference import ReferenceEvaluator
    allv = ReferenceEvaluator(m).run(None, feeds, intermediate=True)
    g = gx.load(m)
    names = [x.name for x in m.graph.node]
    # node subsets
    for r in range(1, n + 1):
        for sub in itertools.combinations(names, r):
            for lst in ([list(sub), list(sub)[::-1]] if r > 1 else [list(sub)]):
                gp = tool(g.get_onnxgraph_by_nodenames, lst)
                st.valid()
                st.state(cid, tuple(lst))
                d = {'in': [v.name for v in gp.input], 'out': [v.name for v in gp.output], 'nodes': sorted(x.name for x in gp.node)}
                yield from check_part(m, d, set(sub), 'subset')
                mm = as_model(gp, m)
                try:
                    onnx.checker.check_model(mm, full_check=True)
                    have = gx.evaluate(mm, {v.name: np.asarray(allv[v.name]) for v in gp.input})
                except Exception as e:
                    yield 'subset:not-runnable', f'{lst}: {type(e).__name__} {str(e)[:150]}'
                    continue
                for k, v in have.items():
                    if not gx.close(v, allv[k]):
                        yield 'subset:result', f'{lst}: {k}'
    # boundaries
    ts = [v.name for v in m.graph.input] + [o for x in m.graph.node for o in x.output if o]
    big = n >= 4
    sets1 = [(t,) for t in ts] + ([] if big else list(itertools.combinations(ts, 2)))
    parts_seen = set()
    for ins in sets1:
        for ous in sets1:
            want = oracle_parts(m, ins, ous)
            got = tool(g.get_subgraph, list(ins), list(ous))
            st.valid()
            key = tuple(map(frozenset, want))
            sets = [set(p.nodemap) for p in got]
            if [sorted(s) for s in sets] != [sorted(s) for s in want]:
                yield 'boundary:partition', f'{ins}->{ous}: {sets} for {want}'
                continue
            if key in parts_seen:
                continue
            parts_seen.add(key)
            # run the parts in order
            env = dict(feeds)
            ok = True
            for k, p in enumerate(got):
                if not sets[k]:
                    continue
                d = {'in': list(p.input), 'out': list(p.output), 'nodes': sorted(sets[k])}
                for v in check_part(m, d, sets[k], f'part{k}'):
                    yield v
                    ok = False
                if not ok:
                    break
                f = os.path.join(tmpdir(), 'p.onnx')
                if os.path.exists(f):
                    os.remove(f)
                tool(p.save_model, f, rawmodel=m)
                pm = onnx.load(f)
                try:
                    onnx.checker.check_model(pm, full_check=True)
                    env.update(gx.evaluate(pm, {v.name: env[v.name] for v in pm.graph.input}))
                except Exception as e:
                    yield f'part{k}:not-runnable', f'{ins}->{ous}: {type(e).__name__} {str(e)[:200]}'
                    ok = False
                    break
            if ok:
                for o, v in whole.items():
                    if o not in env or not gx.close(env[o], v):
                        yield 'boundary:result', f'{ins}->{ous}: {o}'


# ------------------------------------------------------------------ library entry points
ENTRY = [f'{k}/{f}' for k in ('tensors', 'nodes', 'both') for f in ('plain', 'folder')] + ['tensors/emptylast', 'tensors/emptyfirst']


def entry(e, st):
    kind, how = e.split('/')
    d = tmpdir()
    src = os.path.join(d, 'whole.onnx')
    w = [gx.N('u', ['x'], ['t0']), gx.N('w', ['t0'], ['t1']), gx.N('b', ['t1', 't0'], ['t2']), gx.N('u', ['t2'], ['t3'])]
    m = build(w, ['t3'])
    m.opset_import[0].version = 15
    onnx.save(m, src)
    sub = os.path.join(d, 'sub')
    os.makedirs(sub, exist_ok=True)
    for f in os.listdir(sub):
        os.remove(os.path.join(sub, f))
    kw = {}
    if kind in ('tensors', 'both'):
        kw['in_tensor_names'] = ['x'] if how == 'emptyfirst' else ['t0']
        kw['out_tensor_names'] = ['t3'] if how == 'emptylast' else ['t2']
    if kind in ('nodes', 'both'):
        kw['nodenames'] = ['n1', 'n2']
    tool(onnx_tool.model_subgraph, src, save_folder=sub, **kw)
    st.valid()
    st.sample(e)
    files = sorted(os.listdir(sub))
    st.state(e, files)
    want = []
    if kind in ('tensors', 'both'):
        lv = oracle_parts(m, kw['in_tensor_names'], kw['out_tensor_names'])
        want += [(f'whole_level{k}.onnx', s) for k, s in enumerate(lv) if s]
    if kind in ('nodes', 'both'):
        want += [('whole_subgraph.onnx', {'n1', 'n2'})]
    if files != sorted(a for a, _ in want):
        yield 'entry:files', f'{files} for {[a for a, _ in want]}'
        return
    from onnx.reference import ReferenceEvaluator
    feeds = {'x': FEEDS['x']}
    allv = ReferenceEvaluator(m).run(None, feeds, intermediate=True)
    for f, names in want:
        mm = onnx.load(os.path.join(sub, f))
        onnx.checker.check_model(mm, full_check=True)
        yield from check_part(m, {'in': [v.name for v in mm.graph.input], 'out': [v.name for v in mm.graph.output], 'nodes': sorted(x.name for x in mm.graph.node)}, names, 'entry')
        if mm.opset_import[0].version != 15:
            yield 'entry:opset', f'{f} {mm.opset_import}'
        have = gx.evaluate(mm, {v.name: np.asarray(allv[v.name]) for v in mm.graph.input})
        for k, v in have.items():
            if not gx.close(v, allv[k]):
                yield 'entry:result', f'{f}: {k}'
