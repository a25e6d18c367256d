"""C17: profile totals, exclusions and tables on every small model with shared, repeated, unused and folded constants."""
import contextlib
import csv
import functools
import io
import itertools
import os
import re
import warnings
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
import onnx_tool
from mc import gx
from mc.core import tool, ToolError

PID = 'C17'
TECH = 'exhaustive enumeration of models x exclusion sets x table formats x metrics; totals, per-node numbers and parsed tables compared with independent sums'
RULE = ('every program of up to 3 nodes (4 over a reduced alphabet) over 12 node kinds with shared, repeated, unused, reshaped, quantised and constant-node operands, with two weights of different size; x constant folding off/on x every subset of the present operator types '
        '(and an absent one) as exclusion set, given as set, list and tuple; x csv/text/console tables x MACs/FLOPs; model_profile with every pair of hidden and excluded sets; node names containing separators and quotes; repeated profiling with other exclusions; every sequence of up to five (thorough: six) of {infer at two shapes, refused inference, profile, profile with exclusions, print}: figures are only reported for valid shapes')
ASSUME = ['constants have at least one dimension (the tool counts rank-0 tensors as zero elements)', 'models of at most 4 nodes represent larger ones']
nd = helper.make_node

W = {'w1': np.arange(16, dtype=np.float32).reshape(4, 4) / 8, 'w2': np.ones((1, 4), np.float32), 'sh': np.array([4, 4], np.int64), 'q': np.arange(16, dtype=np.int8).reshape(4, 4),
     'qs': np.full((4,), 0.5, np.float32), 'qz': np.zeros((4,), np.int8), 'un': np.ones((5,), np.float32)}
# kind: operator, inputs ('x' = any available dynamic tensor)
KINDS = {
    'R': ('Relu', ['*']), 'I': ('Identity', ['*']), 'M': ('MatMul', ['*', 'w1']), 'm': ('MatMul', ['w1', '*']), 'A': ('Add', ['*', 'w2']), 'B': ('Add', ['*', '*']), 'W': ('Mul', ['w1', 'w1']),
    'S': ('Reshape', ['*', 'sh']), 'C': ('Concat', ['*', 'w1', 'w1']), 'D': ('DequantizeLinear', ['q', 'qs', 'qz']), 'K': ('Constant', []), 'P': ('Sum', ['*', 'w1', 'w2', 'w1']), 'G': ('Gemm', ['*', 'w1', 'w2']),
    'T': ('Softmax', ['*']), 'E': ('Sigmoid', ['*'])}
NAMES = ['n{}', 'a,b{}', 'q"uo{}', 'p/{} x']


def programs(n, kinds):
    def rec(k, avail, nodes):
        if k == n:
            yield list(nodes)
            return
        for kd in kinds:
            slots = KINDS[kd][1].count('*')
            for ins in itertools.combinations_with_replacement(avail, slots):
                nodes.append((kd, ins, f't{k}'))
                # a concat result has another shape and is not fed on
                yield from rec(k + 1, avail + ([f't{k}'] if kd != 'C' else []), nodes)
                nodes.pop()
    yield from rec(0, ['x'], [])


def build(w, names=None):
    nodes = []
    for j, (kd, ins, out) in enumerate(w):
        op, pat = KINDS[kd]
        it = iter(ins)
        at = {'axis': 1} if kd == 'C' else {'axis': 0} if kd == 'D' else {'value': numpy_helper.from_array(np.ones((4, 4), np.float32))} if kd == 'K' else {}
        nodes.append(nd(op, [next(it) if p == '*' else p for p in pat], [out], name=(names or 'n{}').format(j), **at))
    used = {t for n in nodes for t in n.input}
    outs = [o for _, _, o in w if o not in used]
    return gx.model(nodes, [gx.vi('x', [4, 4])], [helper.make_tensor_value_info(o, TP.FLOAT, None) for o in outs], [numpy_helper.from_array(v, k) for k, v in W.items() if k in used or k == 'un'])


def cases(tier):
    th = tier == 'thorough'
    plans = [(1, 'RIMmABWSCDKPG'), (2, 'RIMmABWSCDKPG'), (3, 'RMABWSCDKP' if not th else 'RIMmABWSCDKPG'), (4, 'MBWK' if not th else 'RMABWDK')]
    seen = set()
    for n, kinds in plans:
        for w in programs(n, kinds):
            if not any('x' in ins for _, ins, _ in w):
                continue
            key = tuple(sorted(repr(x) for x in canon(w)))
            if key in seen:
                continue
            seen.add(key)
            yield 'p:' + ';'.join(f'{k}({",".join(i)})' for k, i, _ in w), ('p', w, None)
    for w in programs(2, 'RMAG'):
        for nm in NAMES[1:]:
            yield f'names:{nm}:' + ';'.join(f'{k}({",".join(i)})' for k, i, _ in w), ('n', w, nm)
    for w in programs(2 if not th else 3, 'RIMASTE'):
        yield 'model_profile:' + ';'.join(f'{k}({",".join(i)})' for k, i, _ in w), ('m', w, None)
    yield 'hist', ('h', None, None)
    for n in range(1, 7 if th else 6):
        for e in itertools.product(EVENTS, repeat=n):
            if e[-1] == 'T':
                yield 'stale:' + '-'.join(e), ('s', e, None)


def canon(w):
    memo = {}
    for k, ins, o in w:
        memo[o] = (k, tuple(sorted((memo.get(i, i) for i in ins), key=repr) if k == 'B' else (memo.get(i, i) for i in ins)))
    return list(memo.values())


def numbers(s):
    return int(s.replace(',', ''))


def text_rows(txt, header):
    """rows of a tabulate table, split by the column rulers"""
    lines = txt.splitlines()
    r = next(i for i, l in enumerate(lines) if l.startswith('---'))
    cols = [m.span() for m in re.finditer(r'-+', lines[r])]
    cut = lambda l: [l[a:b].strip() for a, b in zip([c[0] for c in cols], [c[1] for c in cols[:-1]] + [10 ** 6])]
    return cut(lines[r - 1]), [cut(l) for l in lines[r + 1:] if l.strip()]


def table(g, fmt, metric, exclude):
    """header, rows of the printed table"""
    if fmt == 'console':
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            g.print_node_map(None, metric=metric, exclude_ops=exclude)
        return text_rows(buf.getvalue(), None)
    with gx.scratch() as d:
        f = os.path.join(d, 'p.' + fmt)
        tool(functools.partial(g.print_node_map, f, metric=metric, exclude_ops=exclude))
        if not os.path.exists(f):
            return None, None
        with open(f, newline='') as fp:
            if fmt == 'csv':
                rows = list(csv.reader(fp))
                return rows[0], rows[1:]
            return text_rows(fp.read(), None)


def constants(m, fold, vals):
    """names of constant tensors: initialisers and results of nodes computed from constants only (dequantisation stays)"""
    st = {i.name for i in m.graph.initializer}
    for n in m.graph.node:
        if n.op_type != 'DequantizeLinear' and all(t in st for t in n.input):
            st |= set(n.output)
    return st


def values(m):
    """a value of the right size for every tensor (all results are 4x4, concatenations 4x12)"""
    vals = {n.output[0]: np.zeros((4, 12 if n.op_type == 'Concat' else 4)) for n in m.graph.node}
    vals.update({t.name: numpy_helper.to_array(t) for t in m.graph.initializer})
    vals['x'] = np.zeros((4, 4))
    return vals


def expect(m, g, vals, exclude):
    st = constants(m, None, vals)
    vol = {k: (0 if np.ndim(v) == 0 else int(np.size(v))) for k, v in vals.items()}
    cov = [k for k, n in g.nodemap.items() if n.op_type not in exclude]
    par = {k: sum(vol[t] for t in g.nodemap[k].input if t in st) for k in cov}
    used = {t for k in cov for t in g.nodemap[k].input if t in st}
    return cov, par, sum(vol[t] for t in used)


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(b))


def check_table(g, cov, par, dedup, hdr, rows, metric, tag):
    if hdr is None:
        yield tag + 'no-table', ''
        return
    f = 2 if metric == 'FLOPs' else 1
    if hdr[:2] != ['Name', 'Type'] or f'Forward_{metric}' not in hdr:
        yield tag + 'header', str(hdr)
        return
    if any(len(r) != len(hdr) for r in rows):
        yield tag + 'columns', str([r for r in rows if len(r) != len(hdr)][:2])
        return
    R = [dict(zip(hdr, r)) for r in rows]
    body = R[:len(cov)]
    if [r['Name'] for r in body] != cov or [r['Type'] for r in body] != [g.nodemap[k].op_type for k in cov]:
        yield tag + 'rows', f'{[r["Name"] for r in R]} for {cov}'
        return
    tot = R[len(cov)] if len(R) > len(cov) else None
    if tot is None or tot['Name'] != 'Total':
        yield tag + 'no-total', str(R)
        return
    mac_t = sum(g.nodemap[k].macs for k in cov)
    mem_t = sum(g.nodemap[k].memory for k in cov)
    par_t = sum(par.values())
    for k, r in zip(cov, body):
        n = g.nodemap[k]
        for c, want in ((f'Forward_{metric}', int(n.macs) * f), ('Memory', int(n.memory)), ('Params', par[k])):
            if numbers(r[c]) != want:
                yield tag + 'cell:' + c, f'{k}: {r[c]} want {want}'
        for c, v, t in (('FPercent', n.macs, mac_t), ('MPercent', n.memory, mem_t), ('PPercent', par[k], par_t)):
            want = 0 if t == 0 else 100 * v / t
            if abs(float(r[c].rstrip('%')) - want) > 0.0051:
                yield tag + 'cell:' + c, f'{k}: {r[c]} want {want}'
        ins = 'x'.join(map(str, g.tensormap[n.input[0]].get_shape())) if n.input else '0'
        if r['InShape'] != (ins or '0') or r['OutShape'] != ('x'.join(map(str, g.tensormap[n.output[0]].get_shape())) or '0'):
            yield tag + 'cell:shape', f'{k}: {r["InShape"]} {r["OutShape"]}'
    for c, want in ((f'Forward_{metric}', int(round(mac_t)) * f), ('Memory', int(mem_t)), ('Params', par_t)):
        if numbers(tot[c]) != want:
            yield tag + 'total:' + c, f'{tot[c]} want {want}'
    rest = R[len(cov) + 1:]
    if (dedup != par_t) != bool(rest) or len(rest) > 1:
        yield tag + 'dedup-row', f'{rest} params {par_t} distinct {dedup}'
    elif rest and (rest[0]['Name'] != 'Dedup_Params' or numbers(rest[0]['Params']) != dedup):
        yield tag + 'dedup-value', f'{rest[0]} want {dedup}'


def check_totals(g, cov, par, dedup, base, tag):
    for k in cov:
        if g.nodemap[k].params != par[k]:
            yield tag + 'node-params', f'{k} {g.nodemap[k].op_type}: {g.nodemap[k].params} want {par[k]}'
        if base is not None and (g.nodemap[k].macs, g.nodemap[k].memory) != base[k]:
            yield tag + 'node-changed-by-exclusion', f'{k}: {(g.nodemap[k].macs, g.nodemap[k].memory)} want {base[k]}'
    for nm, got, want in (('macs', g.macs[0], sum(g.nodemap[k].macs for k in cov)), ('params', g.params, sum(par.values())), ('memory', g.memory, sum(g.nodemap[k].memory for k in cov)), ('dedup_params', g.dedup_params, dedup)):
        if not close(got, want):
            yield tag + 'total-' + nm, f'{got} want {want}'


EVENTS = ['I4', 'I2', 'bad', 'P', 'X', 'T']


def stale(ev, st):
    """figures are reported for inferred shapes only, and only by the last profiling"""
    m = gx.model([nd('Relu', ['x'], ['a'], name='n0'), nd('MatMul', ['a', 'w1'], ['b'], name='n1'), nd('Transpose', ['b'], ['y'], name='n2', perm=[1, 0])], [gx.vi('x', ['N', 4])], [gx.vi('y', None)], [numpy_helper.from_array(W['w1'], 'w1')])
    g = gx.load(m)
    shape = prof = None           # rows of the valid shapes; (rows, excluded) of the profile
    for e in ev:
        if e in ('I4', 'I2'):
            tool(g.shape_infer, {'x': np.zeros((int(e[1]), 4), np.float32)})
            shape = int(e[1])
        elif e == 'bad':
            try:
                tool(g.shape_infer, {'x': np.zeros((), np.float32)})
                yield 'stale:answered', f'{ev}: shapes {g.tensormap["y"].get_shape()} for a rank-0 input'
                return
            except ToolError:
                shape = None
        elif e in 'PX':
            tool(functools.partial(g.profile, exclude_ops={'Relu'} if e == 'X' else None))
            prof = shape and (shape, e)
            if prof and g.macs[0] != sum(g.nodemap[k].macs for k in ('n0', 'n1', 'n2')[e == 'X':]):
                yield 'stale:total', f'{ev}: {g.macs}'
                return
        else:
            with gx.scratch() as d:
                f = os.path.join(d, 't.csv')
                tool(g.print_node_map, f)
                rows = []
                if os.path.exists(f):
                    with open(f, newline='') as fp:
                        rows = list(csv.reader(fp))
            if prof is None:
                if rows:
                    yield 'stale:table', f'{ev}: a table without a profile of valid shapes: {rows}'
                    return
            elif rows or prof[0] == shape:
                r = {x[0]: dict(zip(rows[0], x)) for x in rows[1:]}
                n = prof[0]
                want = {'n0': f'{n}x4', 'n1': f'{n}x4', 'n2': f'4x{n}'}
                if prof[1] == 'X':
                    del want['n0']
                if {k: v['OutShape'] for k, v in r.items() if k in ('n0', 'n1', 'n2')} != want or int(r['n1']['Forward_MACs']) != n * 16 or int(r['Total']['Params']) != 16:
                    yield 'stale:numbers', f'{ev}: {rows}'
                    return
        st.state(shape, prof)
    st.valid()


def run_case(cid, payload, st):
    kind, w, arg = payload
    if kind == 's':
        yield from stale(w, st)
        return
    if kind == 'h':
        yield from history(st)
        return
    if kind == 'm':
        yield from entry(w, st)
        return
    m = build(w, arg)
    vals = values(m)
    for fold in (False, True):
        tag = 'fold:' if fold else ''
        g = gx.load(m, constant_folding=fold)
        tool(g.shape_infer, None)
        ops = sorted({n.op_type for n in g.nodemap.values()})
        base = None
        subsets = [s for r in range(len(ops) + 1) for s in itertools.combinations(ops, r)] + [('Conv',)]
        for j, ex in enumerate(subsets):
            if kind == 'n' and ex:
                continue
            cov, par, dedup = expect(m, g, vals, ex)
            val = [None if not ex else set(ex), list(ex), tuple(ex), set(ex)][j % 4]
            tool(functools.partial(g.profile, exclude_ops=val))
            if val is not None and sorted(val) != sorted(ex):
                yield tag + 'exclusions-modified', str(val)
            if base is None:
                base = {k: (n.macs, n.memory) for k, n in g.nodemap.items()}
            bad = list(check_totals(g, cov, par, dedup, base, tag))
            yield from bad
            st.valid()
            st.state(tuple(sorted(par.values())), dedup, g.macs[0], g.memory)
            fmts = [('csv', 'MACs'), ('txt', 'FLOPs'), ('console', 'MACs'), ('csv', 'FLOPs'), ('txt', 'MACs')]
            if not bad and cov:
                for fmt, metric in (fmts if j in (0, len(subsets) - 1) or kind == 'n' else [fmts[j % 5]]):
                    if kind == 'n' and fmt != 'csv':
                        continue
                    hdr, rows = table(g, fmt, metric, val)
                    yield from check_table(g, cov, par, dedup, hdr, rows, metric, f'{tag}{fmt}:')
                # the same table without repeating the exclusions lists what was profiled
                if ex and fold == bool(j % 2):
                    hdr, rows = table(g, 'csv', 'MACs', None)
                    yield from check_table(g, cov, par, dedup, hdr, rows, 'MACs', tag + 'later:')


def entry(w, st):
    """model_profile: hidden and excluded operator types, saved profile, module defaults untouched"""
    m = build(w)
    vals = values(m)
    ops = sorted({n.op_type for n in m.graph.node})
    subs = [()] + [(o,) for o in ops] + ([tuple(ops)] if len(ops) > 1 else [])
    default = set(onnx_tool.NoMacsOps)
    for hid, ex in itertools.product([None] + subs, subs):
        hidden = default if hid is None else set(hid)
        for mk in (set, list) if hid is not None else (set,):
            kw = {}
            if hid is not None:
                kw['hidden_ops'] = mk(hid)
            if ex:
                kw['exclude_ops'] = mk(ex)
            with gx.scratch() as d:
                f = os.path.join(d, 'p.csv')
                tool(functools.partial(onnx_tool.model_profile, m, None, save_profile=f, **kw))
                with open(f, newline='') as fp:
                    rows = list(csv.reader(fp))
            if set(onnx_tool.NoMacsOps) != default:
                onnx_tool.NoMacsOps.clear()
                onnx_tool.NoMacsOps.update(default)
                yield 'default-hidden-ops-changed', f'{hid} {ex}'
                return
            if hid is not None and sorted(kw['hidden_ops']) != sorted(hid) or ex and sorted(kw['exclude_ops']) != sorted(ex):
                yield 'argument-modified', str(kw)
            got = [r[0] for r in rows[1:] if r[0] not in ('Total', 'Dedup_Params')]
            g = gx.load(m)
            tool(g.shape_infer, None)
            tool(g.profile)
            want = [k for k, n in g.nodemap.items() if n.op_type not in hidden | set(ex)]
            st.valid()
            st.state(tuple(got), hid, ex)
            if sorted(got) != sorted(want):
                yield 'model_profile:rows', f'hidden {hid} excluded {ex}: {got} want {want}'
                continue
            cov, par, dedup = expect(m, g, vals, hidden | set(ex))
            tot = dict(zip(rows[0], next(r for r in rows if r[0] == 'Total')))
            for c, v in (('Forward_MACs', int(round(sum(g.nodemap[k].macs for k in cov)))), ('Params', sum(par.values())), ('Memory', int(sum(g.nodemap[k].memory for k in cov)))):
                if int(tot[c]) != v:
                    yield 'model_profile:total', f'{c}: {tot[c]} want {v}'


def history(st):
    """profiling the same graph again with other exclusions gives what a fresh graph gives"""
    w = [('M', ('x',), 't0'), ('R', ('t0',), 't1'), ('M', ('t1',), 't2'), ('A', ('t2',), 't3')]
    m = build(w)
    ops = ['MatMul', 'Relu', 'Add']
    sets = [s for r in range(3) for s in itertools.combinations(ops, r)]

    def read(g):
        return (g.macs[0], g.params, g.memory, g.dedup_params)
    fresh = {}
    for s in sets:
        g = gx.load(m)
        tool(g.shape_infer, None)
        tool(functools.partial(g.profile, exclude_ops=s))
        fresh[s] = read(g)
    for seq in itertools.product(sets, repeat=3):
        g = gx.load(m)
        tool(g.shape_infer, None)
        for s in seq:
            tool(functools.partial(g.profile, exclude_ops=s))
        st.valid()
        if read(g) != fresh[seq[-1]]:
            yield 'history', f'{seq}: {read(g)} want {fresh[seq[-1]]}'
