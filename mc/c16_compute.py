"""C16: the compute graph drops exactly the nodes that only serve shapes, on every program of two bounded spaces."""
import itertools
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from onnx.reference import ReferenceEvaluator
from mc import gx, shapelang as sl
from mc import c06_graphshapes as c6
from mc.core import tool, ToolError

PID = 'C16'
TECH = 'exhaustive enumeration of shape-computing programs and of all small wirings mixing data, shapes and exported tensors; the derived graph is compared with an independently computed set and executed'
RULE = ('(a) every wiring of up to 5 nodes over kinds {unary, binary, two-output, Shape, shape arithmetic, Reshape by a shape, Expand of a constant by a shape, Cast of a shape to data, conditional reading an outer tensor} on a 4-D input, with every single additional exported '
        'tensor; (b) every shape-chain program of C06 up to two steps with its consumers, and its structural programs; each with folding on and off, at two input shapes, with shapes inferred beforehand or not')
ASSUME = ['the compute graph is executed with the values of the shape operands already inferred, as the tool\'s engine does', 'graphs of at most 5 nodes represent larger ones']
nd = helper.make_node
SHAPE_POS = {'Reshape': lambda n: (1,), 'Resize': lambda n: (2,) if n == 3 else (3,) if n == 4 else (), 'Expand': lambda n: (1,), 'Slice': lambda n: tuple(range(1, n)), 'ConstantOfShape': lambda n: (0,), 'Tile': lambda n: (1,), 'Range': lambda n: (0, 1, 2),
             'OneHot': lambda n: (1,), 'TopK': lambda n: (1,), 'Pad': lambda n: (1,) if n < 4 else (1, 3), 'Split': lambda n: (1,), 'Unsqueeze': lambda n: (1,), 'Squeeze': lambda n: (1,),
             'ReduceSum': lambda n: (1,), 'ReduceMean': lambda n: (1,), 'ReduceProd': lambda n: (1,), 'ReduceMax': lambda n: (1,), 'ReduceMin': lambda n: (1,), 'ReduceL2': lambda n: (1,)}

# kind: (input types, output types); d = data, s = shape vector
KINDS = {'u': ('d', 'd'), 'b': ('dd', 'd'), 'p': ('d', 'di'), 'S': ('q', 's'), 'm': ('s', 's'), 'r': ('ds', 'd'), 'x': ('s', 'd'), 'c': ('s', 'd'), 'f': ('d', 'd'), 'k': ('i', 'd')}


def wirings(n, kinds):
    def rec(k, avail, nodes):
        if k == n:
            if any(nd_.k == 'S' for nd_ in nodes):
                yield list(nodes)
            return
        for kd in kinds:
            it, ot = KINDS[kd]
            opts = [[t for t, ty in avail if (ty == c or c == 'q' and ty in 'di')] for c in it]
            for ins in itertools.product(*opts):
                if kd == 'b' and ins[0] > ins[1]:
                    continue
                outs = [f't{k}' if j == 0 else f't{k}b' for j in range(len(ot))]
                nodes.append(gx.N(kd, ins, outs))
                yield from rec(k + 1, avail + list(zip(outs, ot)), nodes)
                nodes.pop()
    yield from rec(0, [('x', 'd')], [])


def proto(n, name):
    k = n.k
    if k == 'u':
        return nd('Relu', n.i, n.o, name=name)
    if k == 'b':
        return nd('Add', n.i, n.o, name=name)
    if k == 'p':
        return nd('MaxPool', n.i, n.o, name=name, kernel_shape=[1, 1])
    if k == 'S':
        return nd('Shape', n.i, n.o, name=name)
    if k == 'm':
        return nd('Mul', [n.i[0], 'one'], n.o, name=name)
    if k == 'r':
        return nd('Reshape', n.i, n.o, name=name)
    if k == 'x':
        return nd('Expand', ['w', n.i[0]], n.o, name=name)
    if k == 'c':
        return nd('Cast', n.i, n.o, name=name, to=TP.FLOAT)
    if k == 'k':
        return nd('Cast', n.i, n.o, name=name, to=TP.FLOAT)
    if k == 'f':
        br = helper.make_graph([nd('Neg', [n.i[0]], ['y_' + name])], 'b_' + name, [], [gx.vi('y_' + name, None)])
        br2 = helper.make_graph([nd('Abs', [n.i[0]], ['z_' + name])], 'e_' + name, [], [gx.vi('z_' + name, None)])
        return nd('If', ['cond'], n.o, name=name, then_branch=br, else_branch=br2)
    raise KeyError(k)


def build(w, extra):
    protos = [proto(n, f'n{j}') for j, n in enumerate(w)]
    outs = gx.sinks(w) + list(extra)
    # a cast shape has 4 elements and broadcasts with the data; nothing else changes the shape
    inits = [numpy_helper.from_array(np.ones((), np.int64), 'one'), numpy_helper.from_array(np.ones((1,), np.float32), 'w'), numpy_helper.from_array(np.array(True), 'cond')]
    used = {t for p in protos for t in p.input}
    return gx.model(protos, [helper.make_tensor_value_info('x', TP.FLOAT, ['a', 'b', 'c', 'd'])], [helper.make_empty_tensor_value_info(o) for o in outs], [i for i in inits if i.name in used])


def legal(w):
    """casts of a shape have one dimension, so a Reshape of them by the full shape is illegal"""
    vec = set()
    small = set()
    for n in w:
        if n.k == 'c':
            vec.add(n.o[0])
        elif n.k in 'ubpf':
            if all(i in vec for i in n.i):
                if n.k == 'p':
                    return False
                vec.update(n.o)
        elif n.k == 'S' and n.i[0] in vec:
            return False
        elif n.k == 'r' and n.i[0] in vec:
            return False
    return True


def cases(tier):
    th = tier == 'thorough'
    seen = set()
    plans = [(1, 'S'), (2, 'upSf'), (3, 'ubpSmrxcfk'), (4, 'ubpSmrxc' if not th else 'ubpSmrxcfk'), (4, 'uSrxf'), (5, 'uSrb')] + ([(5, 'uSrbc'), (5, 'ubpSmrxfk'), (6, 'uSrb')] if th else [])
    for n, kinds in plans:
        for w in wirings(n, kinds):
            if not legal(w):
                continue
            key = gx.canonical(w, ['x'])
            if key in seen:
                continue
            seen.add(key)
            inner = [o for m in w for o in m.o if o not in gx.sinks(w)]
            for ex in [()] + [(o,) for o in inner]:
                yield f'{w}+{",".join(ex)}'.replace(' ', ''), ('w', w, ex)
    for xs, depth in ([([2, 3], 2), ([1, 2, 4, 4], 2 if th else 1), ([2, 3, 4], 1)]):
        for tag, b, y in sl.programs(xs, depth, cmodes=('init', 'node') if depth == 1 or th else ('init',), pairs='S' if depth == 1 else False, sources=('shape',) if depth == 2 and not th else None):
            yield f'{xs}/{depth}/{tag}'.replace(' ', ''), ('p', (b, y, xs), None)
    for f in c6.STRUCT:
        for xs in c6.XS:
            if f in c6.NEED4 and len(xs) != 4 or f in c6.NEED2 and len(xs) < 2:
                continue
            yield f'{f.__name__}/{xs}'.replace(' ', ''), ('s', f, xs)


def snapshot(g):
    return (list(g.nodemap), {k: (list(n.input), list(n.output), n.op_type, n.shape_calc) for k, n in g.nodemap.items()}, list(g.input), list(g.output), list(g.initials), list(g.dynamics), sorted(g.tensormap),
            {k: list(v) for k, v in g.producedby.items()}, {k: list(v) for k, v in g.consumedby.items()}, {k: str(t.shape) for k, t in g.tensormap.items()})


def run_case(cid, payload, st):
    kind, p1, p2 = payload
    if kind == 'w':
        m = build(p1, p2)
        shapes = [[2, 2, 3, 3], [1, 3, 2, 4]]
    elif kind == 'p':
        b, y, xs = p1
        m = c6.mk(b, y, xs)
        if m is None:
            return
        shapes = [xs]
    else:
        b, outs = p1(p2)
        names = sorted({t for nn in b.nodes for t in nn.input if t in 'xz' and t})
        m = helper.make_model(helper.make_graph(b.nodes, 'g', [helper.make_tensor_value_info(t, TP.FLOAT, [f'N{j}' for j in range(len(p2))]) for t in names],
                                                [helper.make_empty_tensor_value_info(o) for o in outs], initializer=b.inits), opset_imports=[helper.make_opsetid('', getattr(p1, 'opset', 17))], ir_version=8)
        shapes = [p2]
    ins = [v.name for v in m.graph.input]
    outs = [v.name for v in m.graph.output]
    ref = ReferenceEvaluator(m)
    for fold in (False, True):
        tag = 'fold:' if fold else ''
        for s in shapes:
            n = int(np.prod(s))
            feeds = {t: ((np.arange(n, dtype=np.float32) * 7) % 11 - 4.5).reshape(s) for t in ins}
            try:
                vals = {k: np.asarray(v) for k, v in ref.run(None, feeds, intermediate=True).items() if k and v is not None}
            except Exception:
                st.count('not_executable')
                continue
            g = gx.load(m, constant_folding=fold)
            cond = any(x.op_type == 'If' for x in m.graph.node)     # the tool does not infer shapes through an unresolved conditional
            if not cond:
                tool(g.shape_infer, {t: np.zeros(s, np.float32) for t in ins})
            snap = snapshot(g)
            cg = tool(g.get_compute_graph)
            if snapshot(g) != snap:
                d = [i for i, (a, c) in enumerate(zip(snap, snapshot(g))) if a != c]
                yield tag + 'original-changed', f'parts {d}: {snap[d[0]]} -> {snapshot(g)[d[0]]}'[:400]
                return
            # ---- which nodes may and must go
            nodes = {k: (x.op_type, gx.reads(x), list(x.output)) for k, x in g.nodemap.items()}
            readers = {}
            for k, (op, rd, ou) in nodes.items():
                pos = SHAPE_POS.get(op, lambda n: ())(len(g.nodemap[k].input))
                for j, t in enumerate(rd):
                    if t:
                        readers.setdefault(t, []).append((k, j in pos))
            need = set()
            work = [t for t in g.output] + [o for _, (_, _, ou) in nodes.items() for o in ou if o and o not in readers]
            prod = {o: k for k, (_, _, ou) in nodes.items() for o in ou if o}
            while work:
                k = prod.get(work.pop())
                if k is None or k in need:
                    continue
                need.add(k)
                op, rd, _ = nodes[k]
                pos = SHAPE_POS.get(op, lambda n: ())(len(g.nodemap[k].input))
                work += [t for j, t in enumerate(rd) if t and j not in pos]
            st.state(tuple(sorted(nodes[k][0] for k in need)), tuple(sorted(nodes[k][0] for k in nodes if k not in need)))
            lost = [k for k in need if k not in cg.nodemap]
            if lost:
                yield tag + 'computing-node-dropped', f'{[nodes[k] for k in lost]}'
                continue
            kept = [k for k in cg.nodemap if k not in need]
            if kept:
                yield tag + 'shape-node-kept', f'{[nodes.get(k) for k in kept]}'
                continue
            for k in need:
                if list(cg.nodemap[k].input) != list(g.nodemap[k].input) or list(cg.nodemap[k].output) != list(g.nodemap[k].output):
                    yield tag + 'connection-changed', k
            if [k for k in nodes if k in need] != list(cg.nodemap):
                yield tag + 'order-changed', f'{list(cg.nodemap)}'
            if cg.output != g.output or sorted(cg.input) != sorted(g.input):
                yield tag + 'graph-io', f'in {g.input}->{cg.input} out {g.output}->{cg.output}'
                continue
            d = gx.rel_diff(cg)
            if d:
                yield tag + 'relations', d
            dyn = [t for t in cg.dynamics if t]
            wantdyn = set(cg.input) | {o for x in cg.nodemap.values() for o in x.output if o} | set(cg.output)
            if len(dyn) != len(set(dyn)) or set(dyn) != wantdyn:
                yield tag + 'dynamics', f'{dyn} want {sorted(wantdyn)}'
            # ---- execution with the inferred shape operands
            made = {o for x in cg.nodemap.values() for o in x.output if o} | set(cg.input) | set(cg.initials)
            orphans = sorted({t for x in cg.nodemap.values() for t in gx.reads(x) if t and t not in made})
            extra = {}
            bad = False
            for t in orphans if not cond else []:
                v = cg.tensormap[t].numpy if t in cg.tensormap else None
                if v is None or not gx.close(np.asarray(v), vals[t]):
                    yield tag + 'shape-operand-unknown', f'{t}: {v} for {vals.get(t)}'
                    bad = True
                    break
                extra[t] = np.asarray(v)
            if bad or cond or not cg.nodemap:
                continue
            sm = gx.saved(cg, rawmodel=m)
            for t, v in extra.items():
                sm.graph.initializer.append(numpy_helper.from_array(v, t))
            if [o.name for o in sm.graph.output] != list(cg.output):
                yield tag + 'saved-outputs', str([o.name for o in sm.graph.output])
                continue
            try:
                del_vi = [v for v in sm.graph.value_info]
                got = ReferenceEvaluator(sm).run(None, {k: v for k, v in feeds.items() if k in [i.name for i in sm.graph.input]})
            except Exception as e:
                yield tag + 'saved-not-executable', repr(e)[:200]
                continue
            st.valid()
            for o, v in zip(cg.output, got):
                if o in vals and not gx.close(np.asarray(v), vals[o]):
                    yield tag + 'wrong-result', f'{o}'
            # ---- editing the compute graph does not reach the original
            if kind == 'w' and not fold:
                for k in list(cg.nodemap)[:2]:
                    cg.nodemap[k].input[:] = ['zz'] * len(cg.nodemap[k].input)
                    tool(cg.remove_node, k)
                if snapshot(g) != snap:
                    yield 'edit-reaches-original', ''
