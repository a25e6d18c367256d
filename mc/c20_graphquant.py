"""C20: graph weight quantisation on every small model of weight consumers, read back by an independent decoder."""
import itertools
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from mc import gx
from mc.core import tool
from mc.c19_quant import groups, TINY
from onnx_tool.quantization import graph_quantize

PID = 'C20'
TECH = 'exhaustive enumeration of small weight-consumer graphs x settings on the real rewrite; saved model decoded independently back to the original model'
RULE = ('models: every multiset of up to two (thorough: three) consumers of one weight from 11 kinds (both matrix-product sides, Gemm with either transposition and the weight as data or bias, elementwise, twice the same input, gather, conditional body) '
        'x weight also an output or not x a second weight shared with one consumer x 11 names of the weight (containing the suffixes of quantised data, like a node, a number) x weight types (float32/64/16, int, rank 1 and 3, odd sizes, constant zero) '
        'x granularity (tensor, row, block 1..32) x symmetric/asymmetric x 8, 4, 3 bits; every listed weight quantised one by one and by iterating over the graph\'s own list, once and twice')
ASSUME = ['the in-place format of the tool: data, scales and, for asymmetric mode, zero points replace the weight in the input list; data of the second operand of a MatMul or non-transposed Gemm is stored transposed; 4-bit data is packed low nibble first']

R, C = 4, 5
# consumer kind -> (op, inputs with W for the weight, attributes, shapes of free inputs)
KINDS = {
    'mmr': ('MatMul', ['a', 'W'], {}), 'mml': ('MatMul', ['W', 'b'], {}),
    'g0': ('Gemm', ['a', 'W'], {}), 'g1': ('Gemm', ['b2', 'W'], {'transB': 1}), 'ga': ('Gemm', ['W', 'b'], {}),
    'gc': ('Gemm', ['q', 'k', 'W'], {}), 'g0b': ('Gemm', ['a', 'W', 'bias'], {'alpha': 0.5}), 'gt': ('Gemm', ['a2', 'W', 'bias'], {'transA': 1, 'transB': 0}),
    'add': ('Add', ['s', 'W'], {}), 'sq': ('Mul', ['W', 'W'], {}), 'ga2': ('Gather', ['W', 'ids'], {}),
    'v': ('Mul', ['W', 'V'], {}), 'if': None,
}
INS = {'a': (2, R), 'b': (C, 3), 'b2': (2, C), 'q': (R, 2), 'k': (2, C), 'a2': (R, 2), 's': (R, C), 'ids': (2,), 'cond': (), 'bias': (C,)}
SETS = [(b, t, n) for b in (0, -1, 2, 32) for t in ('sym', 'asym') for n in (8, 4)] + [(3, 'sym', 3), (1, 'asym', 5)]


def weight(kind):
    a = (np.arange(R * C).reshape(R, C) * 7 % 11 - 4).astype(np.float32) * 0.37
    a[1] = 0
    if kind == 'f64':
        return a.astype(np.float64)
    if kind == 'f16':
        return a.astype(np.float16)
    if kind == 'int':
        return (a * 10).astype(np.int32)
    if kind == 'zero':
        return a * 0
    if kind == 'pos':
        return np.abs(a) + 1
    if kind == 'tiny':
        return a * np.float32(1e-9)
    if kind == 'huge':
        return a * np.float32(1e9)
    return a


def build(kinds, wk, out):
    w = weight(wk)
    v = weight('f32')[::-1] * 3
    t = {np.dtype('float32'): TP.FLOAT, np.dtype('float64'): TP.DOUBLE, np.dtype('float16'): TP.FLOAT16, np.dtype('int32'): TP.INT32}[w.dtype]
    nodes, ins, outs, inits = [], {}, [], [numpy_helper.from_array(w, 'w')]
    for j, k in enumerate(kinds):
        o = f'y{j}'
        if k == 'if':
            th = helper.make_graph([helper.make_node('Neg', ['w'], [f'th{j}'], name=f'neg{j}')], 'th', [], [helper.make_tensor_value_info(f'th{j}', t, [R, C])])
            el = helper.make_graph([helper.make_node('Identity', ['w'], [f'el{j}'], name=f'id{j}')], 'el', [], [helper.make_tensor_value_info(f'el{j}', t, [R, C])])
            nodes.append(helper.make_node('If', ['cond'], [o], name=f'n{j}', then_branch=th, else_branch=el))
            ins['cond'] = TP.BOOL
        else:
            op, i, at = KINDS[k]
            i = [{'W': 'w', 'V': 'v'}.get(x, x) for x in i]
            nodes.append(helper.make_node(op, i, [o], name=f'n{j}', **at))
            for x in i:
                if x in INS and x != 'bias':
                    ins[x] = TP.INT64 if x == 'ids' else t
                if x == 'bias' and all(z.name != 'bias' for z in inits):
                    inits.append(numpy_helper.from_array(np.arange(C).astype(w.dtype), 'bias'))
                if x == 'v' and all(z.name != 'v' for z in inits):
                    inits.append(numpy_helper.from_array(v.astype(w.dtype), 'v'))
        outs.append(helper.make_tensor_value_info(o, t, None))
    if out:
        outs.append(helper.make_tensor_value_info('w', t, [R, C]))
    return gx.model(nodes, [helper.make_tensor_value_info(k, x, INS[k]) for k, x in ins.items()], outs, inits)


def odd(kind):
    """models with special weights"""
    f = np.arange(24, dtype=np.float32) - 7
    if kind == 'rank1':
        return gx.model([helper.make_node('Add', ['x', 'w'], ['y'], name='n0')], [gx.vi('x', [24])], [gx.vi('y', None)], [numpy_helper.from_array(f, 'w')])
    if kind == 'rank3':
        return gx.model([helper.make_node('Add', ['x', 'w'], ['y'], name='n0')], [gx.vi('x', [24])], [gx.vi('y', None)], [numpy_helper.from_array(f.reshape(2, 3, 4), 'w')])
    if kind == 'unused':
        return gx.model([helper.make_node('Neg', ['x'], ['y'], name='n0')], [gx.vi('x', [24])], [gx.vi('y', None)], [numpy_helper.from_array(f.reshape(6, 4), 'w')])
    if kind == 'const':
        return gx.model([helper.make_node('Constant', [], ['w'], name='c', value=numpy_helper.from_array(f.reshape(6, 4))), helper.make_node('Add', ['x', 'w'], ['y'], name='n0')], [gx.vi('x', [4])], [gx.vi('y', None)])


def decode(m, orig, setting, st):
    """undo the rewrite in the saved model m; yields violations; returns (nodes restored, weights restored)"""
    block, typ, bits = setting
    inits = {t.name: numpy_helper.to_array(t) for t in m.graph.initializer}
    ow = {t.name: numpy_helper.to_array(t) for t in orig.graph.initializer}
    step = 3 if typ == 'asym' else 2
    used, got = set(), {}
    nodes = []
    for n in m.graph.node:
        i, k, quant = [], 0, False
        src = list(n.input)
        while k < len(src):
            nm = src[k]
            if not nm.endswith('_ot_q'):
                i.append(nm)
                k += 1
                continue
            base = nm[:-5]
            want = [base + '_ot_q', base + '_ot_s'] + [base + '_ot_z'] * (step == 3)
            if src[k:k + step] != want or base not in ow:
                yield 'triple', f'{n.name} reads {src}'
                return
            if any(x not in inits for x in want):
                yield 'missing-data', f'{want} not all saved'
                return
            used |= set(want)
            quant = True
            q, s = inits[want[0]], inits[want[1]]
            z = inits[want[2]] if step == 3 else np.zeros(s.shape, np.int32)
            pos = len(i)
            tr = n.op_type in ('Gemm', 'MatMul') and pos == 1 and not any(a.name == 'transB' and a.i for a in n.attribute)
            shape = ow[base].shape[::-1] if tr else ow[base].shape
            if bits == 4:
                if q.dtype != np.uint8 or q.shape != (shape[0], -(-shape[1] // 2)):
                    yield 'packed-layout', f'{q.dtype} {q.shape} for {shape}'
                    return
                q = np.stack([q & 15, q >> 4], -1).reshape(shape[0], -1)[:, :shape[1]].astype(int)
                if typ == 'sym':
                    q = np.where(q > 7, q - 16, q)
            elif bits == 8 and q.dtype != (np.uint8 if typ == 'asym' else np.int8):
                yield 'data-type', f'{q.dtype}'
            gs, ps = groups(shape, block)
            if q.shape != tuple(shape) or s.shape != ps or z.shape != ps:
                yield 'layout', f'{q.shape} {s.shape} {z.shape} for {shape} block {block}'
                return
            x = ow[base].astype(np.float64)
            x = x.T if tr else x
            d = np.zeros(shape)
            for key, sl in gs:
                d[sl] = (q[sl].astype(np.float64) - float(z[key])) * float(s[key])
                v = x[sl]
                stp = np.abs(v).max() / (2 ** (bits - 1) - 1) if typ == 'sym' else (max(0., v.max()) - min(0., v.min())) / (2 ** bits - 1)
                if np.abs(d[sl] - v).max() > stp * (0.501 + 2 ** bits * 2.0 ** -11) + TINY * 256:
                    yield 'error-bound', f'{base} as {n.name} reads it: {v.tolist()} -> {d[sl].tolist()}, step {stp}'
                    return
            got[base] = d.T if tr else d
            st.valid()
            i.append(base)
            k += step
        c = onnx.NodeProto()
        c.CopyFrom(n)
        del c.input[:]
        c.input.extend(i)
        at = {a.name: a for a in n.attribute if a.name.startswith('OTQ_')}
        if quant:
            val = {k: helper.get_attribute_value(a) for k, a in at.items()}
            if val != {'OTQ_Block': block, 'OTQ_Type': typ.encode(), 'OTQ_Bits': bits}:
                yield 'setting-mark', f'{n.name} ({n.op_type}) is marked {val}, quantised with {setting}'
                return
        elif at:
            yield 'stray-mark', f'{n.name} reads no quantised weight but is marked'
        keep = [a for a in c.attribute if not a.name.startswith('OTQ_')]
        del c.attribute[:]
        c.attribute.extend(keep)
        nodes.append(c)
    for nm in inits:
        if nm.endswith(('_ot_q', '_ot_s', '_ot_z')) and nm not in used and nm not in ow:
            yield 'unused-data', nm
    for nm, a in ow.items():
        if nm in got:
            if nm in inits:
                yield 'weight-kept', f'{nm} is saved beside its quantised data'
        elif nm not in inits:
            if any(nm in gx.body_reads(orig.graph) or nm in n.input for n in orig.graph.node) or nm in [o.name for o in orig.graph.output]:
                yield 'weight-lost', nm
        elif inits[nm].dtype != a.dtype or inits[nm].shape != a.shape or inits[nm].tobytes() != a.tobytes():
            yield 'other-weight-changed', nm
    a = sorted(norm(n) for n in nodes)
    b = sorted(norm(n) for n in orig.graph.node)
    if a != b:
        yield 'nodes-changed', f'{a} was {b}'[:500]
    for f in ('input', 'output'):
        x = [v.name for v in getattr(m.graph, f)]
        y = [v.name for v in getattr(orig.graph, f)]
        if x != y:
            yield 'graph-' + f, f'{x} was {y}'


def norm(n):
    at = sorted((a.name, a.SerializeToString(deterministic=True)) for a in n.attribute)
    return repr((n.op_type, n.name, list(n.input), list(n.output), at))


def expect(kinds, wk, out):
    """which weights have to be quantised: all plain float matrices read only as node inputs in one layout"""
    if wk == 'int' or out or 'if' in kinds:
        return set()
    lay = {k in ('g0', 'g0b', 'gt', 'mmr') for k in kinds}
    return {'w'} if len(lay) == 1 else set()


def cases(tier):
    th = tier == 'thorough'
    ks = list(KINDS)
    for n in (1, 2, 3) if th else (1, 2):
        for kinds in itertools.combinations_with_replacement(ks, n):
            for out in (0, 1):
                yield f'g/{"-".join(kinds)}/f32/{out}', (kinds, 'f32', out, SETS)
    for wk in ('f64', 'f16', 'int', 'zero', 'pos', 'tiny', 'huge'):
        for kinds in [(k,) for k in ks] + ([('g0', 'g0b'), ('mmr', 'v')] if not th else list(itertools.combinations_with_replacement(ks, 2))):
            if wk == 'f16' and any(k.startswith('g') for k in kinds) or wk == 'int' and any(k in ('g0b', 'gt') for k in kinds):
                pass
            yield f'g/{"-".join(kinds)}/{wk}/0', (kinds, wk, 0, SETS)
    for k in ('rank1', 'rank3', 'unused', 'const'):
        yield f'odd/{k}', (k, None, 0, SETS)
    for name in NAMES:
        for kinds in [('mmr',), ('g1', 'add'), ('v', 'mmr'), ('g0b',), ('sq', 'mml')]:
            yield f'g/{"-".join(kinds)}/f32/0/{name}', (kinds, 'f32', 0, SETS[:4], name)


# names of the weight: only a name that ends like quantised data stands for quantised data
NAMES = ['_ot_q2', 'a_ot_s.b', 'blk_ot_z/weight', 'ot_q', '_ot_', 'w_ot_q_', 'w_OT_Q', 'n0', 'y', '0', 'w_ot_q.w_ot_s.w']


def renamed(m, name):
    m = onnx.ModelProto.FromString(m.SerializeToString())
    for n in m.graph.node:
        for x in (n.input, n.output):
            for j, t in enumerate(x):
                if t == 'w':
                    x[j] = name
    for t in list(m.graph.initializer) + list(m.graph.output):
        if t.name == 'w':
            t.name = name
    return m


def run_case(cid, p, st):
    kinds, wk, out, sets, *name = p
    wn = name[0] if name else 'w'
    for setting in sets:
        for order in ('list', 'iter', 'reverse', 'twice') + (('default',) if setting == (-1, 'sym', 8) else ()):
            m = odd(kinds) if wk is None else build(kinds, wk, out)
            if name:
                m = renamed(m, wn)
            g = gx.load(m)
            names = list(g.initials)
            blk, typ, bits = setting
            if order == 'iter':
                def all_():
                    for k in g.initials:
                        graph_quantize(g, k, block=blk, type=typ, bits=bits)
                tool(all_)
            elif order == 'default':
                for k in names:
                    tool(graph_quantize, g, k)
            else:
                for k in names[::-1] if order == 'reverse' else names * (2 if order == 'twice' else 1):
                    tool(graph_quantize, g, k, blk, typ, bits)
            d = gx.rel_diff(g)
            if d:
                yield 'relations', f'{setting} {order}: {d}'
                return
            if len(set(g.initials)) != len(g.initials) or any(t not in g.tensormap for t in g.initials):
                yield 'initialiser-list', f'{g.initials}'
                return
            gone = [t[:-5] for t in g.initials if t.endswith('_ot_q') and t[:-5] in g.tensormap]
            if gone:
                yield 'weight-kept', f'{setting} {order}: {gone} still in the tensor map'
                return
            s = gx.saved(g, shape_only=False)
            st.state(cid, setting, order, tuple(g.initials))
            st.valid()
            bad = False
            for sig, det in decode(s, m, setting, st):
                yield sig, f'{setting} {order}: {det}'
                bad = True
            if bad:
                return
            if wk is not None:
                q = {t[:-5] for t in g.initials if t.endswith('_ot_q')}
                e = expect(kinds, wk, out)
                if ('w' in e) != (wn in q):
                    yield 'selection', f'{setting} {order}: quantised {sorted(q)}, expected {sorted(e)}'
                    return
                if 'v' in kinds and wk != 'int' and 'v' not in q:
                    yield 'selection', f'{setting} {order}: v not quantised'
                    return
            elif any(t.endswith('_ot_q') for t in g.initials):
                yield 'selection', f'{kinds} quantised'
                return
