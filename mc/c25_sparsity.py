"""C25: the sparsity report on every zero mask of small weights."""
import csv
import functools
import itertools
import os
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from mc import gx
from mc.core import tool
from onnx_tool.tensor import search_sparse_blocksize, narray_calc_sparsity

PID = 'C25'
TECH = 'exhaustive enumeration of all zero/non-zero masks of small weights (and their block expansions) on the real search; reported ratios recounted'
RULE = ('block search: every mask of every listed 2-D and 4-D shape up to 16 elements, and every 4x4 mask expanded by blocks of 2x1, 1x2, 2x2, 4x4 and 4x2 with at most one element disturbed, for float32 (smaller shapes: float16, float64, int8, int32, uint8), two tolerances; '
        'report: every mask up to 8 elements tiled to analysed size, as weight initialiser of a loaded model, through Tensor.sparsity and the printed table')
ASSUME = ['zero means the value 0 (128, the zero point, for uint8 weights)', 'only analysed weights are covered: rank 2 or 4, more than 4096 elements, types float16/32/64, int8, int32, uint8; block patterns are reported above a zero ratio of 0.4']

S2 = [(1, 8), (8, 1), (2, 2), (2, 4), (4, 2), (3, 4), (4, 3), (2, 6), (6, 2), (2, 8), (8, 2), (5, 3), (4, 4)]
S4 = [(2, 2, 1, 1), (4, 2, 1, 1), (2, 4, 1, 1), (2, 2, 2, 1), (2, 2, 1, 3), (3, 2, 1, 2), (8, 2, 1, 1), (2, 8, 1, 1), (4, 4, 1, 1), (4, 2, 1, 2), (2, 4, 2, 1)]
TYPES = [np.float32, np.float16, np.float64, np.int8, np.int32, np.uint8]
CH = 2048


def fill(zero, dtype):
    """array with the zero element exactly where the mask says"""
    n = zero.size
    if dtype == np.uint8:
        v = (np.arange(n) * 37 % 127 + 1).astype(np.uint8)
        return np.where(zero, np.uint8(128), v.reshape(zero.shape))
    if np.dtype(dtype).kind == 'f':
        v = np.array([1e-7, -3.0, np.inf, 0.5, -1e-7, 2.0], dtype)[np.arange(n) % 6].reshape(zero.shape)
        z = np.where(np.arange(n).reshape(zero.shape) % 2 == 0, dtype(0.0), dtype(-0.0))
        return np.where(zero, z, v).astype(dtype)
    v = (np.arange(n) % 100 - 120).astype(dtype).reshape(zero.shape)
    return np.where(zero, dtype(0), v)


def blocks(zero, b0, b1):
    """fraction of all-zero blocks, or None when the blocks do not tile"""
    s = zero.shape
    if b0 < 1 or b1 < 1 or s[0] % b0 or s[1] % b1:
        return None
    z = zero.reshape(s[0] // b0, b0, s[1] // b1, b1, *s[2:])
    return z.all(axis=(1, 3)).mean()


def reach(zero, axis, tol, ratio):
    """largest power of two whose one-axis blocks keep the zero ratio within tol at every doubling"""
    b, s = 1, 2
    while True:
        r = blocks(zero, s, 1) if axis == 0 else blocks(zero, 1, s)
        if r is None or not r > ratio - tol:
            return b
        b, s = s, s * 2


def verdict(zero, got, tol):
    ratio = zero.mean()
    (b0, b1), r = got
    true = blocks(zero, b0, b1)
    if true is None:
        return 'blocks-do-not-tile', f'{(b0, b1)} on {zero.shape}'
    if abs(true - r) > 1e-9:
        return 'wrong-block-ratio', f'{(b0, b1)}: reported {r}, real {true}'
    a0, a1 = reach(zero, 0, tol, ratio), reach(zero, 1, tol, ratio)
    big = max(a0, a1)
    if max(b0, b1) != big:
        return 'larger-block-missed', f'{(b0, b1)}, blocks of {(a0, a1)} qualify'
    if a0 == a1 > 1 and blocks(zero, a0, a0) > ratio - tol and (b0, b1) != (a0, a0):
        return 'square-block-missed', f'{(b0, b1)}'
    return None


def masks(n, lo, hi):
    for k in range(lo, hi):
        yield np.array([(k >> i) & 1 for i in range(n)], bool)


EXP = [(1, 2), (2, 1), (2, 2), (4, 4), (4, 2)]


def cases(tier):
    th = tier == 'thorough'
    for s in S2 + S4:
        n = int(np.prod(s))
        for t in TYPES if n <= (12 if not th else 16) else TYPES[:1]:
            for lo in range(0, 2 ** n, CH):
                yield f'search/{s}/{np.dtype(t)}/{lo}'.replace(' ', ''), ('s', s, t, lo, min(lo + CH, 2 ** n))
    for e in EXP:
        for dist in (None, 0, 7) if th else (None, 5):
            for rank in (2, 4):
                if rank == 4 and not th and (dist is not None or e == (4, 4)):
                    continue
                for lo in range(0, 65536, CH):
                    yield f'expand/{e}/{rank}/{dist}/{lo}'.replace(' ', ''), ('e', e, (rank, dist), lo, lo + CH)
    for s in [(1, 8), (2, 4), (4, 2), (3, 2)] + [(2, 2, 1, 2), (4, 2, 1, 1), (2, 4, 1, 1)]:
        n = int(np.prod(s))
        for t in TYPES:
            for lo in range(0, 2 ** n, 32):
                yield f'report/{s}/{np.dtype(t)}/{lo}'.replace(' ', ''), ('r', s, t, lo, min(lo + 32, 2 ** n))


def run_case(cid, p, st):
    kind, s, t, lo, hi = p
    if kind in 'se':
        for m in masks(int(np.prod(s)) if kind == 's' else 16, lo, hi):
            if kind == 's':
                z = m.reshape(s)
                dt = t
            else:
                rank, dist = t
                z = np.kron(m.reshape(4, 4), np.ones(s, bool)).astype(bool)
                if dist is not None:
                    z = z.copy()
                    z.flat[dist] ^= True
                if rank == 4:
                    z = z.reshape(z.shape + (1, 1))
                    z = np.concatenate([z, z], axis=3)
                dt = np.float32
            a = fill(z, dt)
            ratio = z.mean()
            got = tool(narray_calc_sparsity, a)
            if abs(got - ratio) > 1e-9:
                yield 'ratio', f'{z.astype(int).tolist()}: {got} want {ratio}'
                return
            for tol in (0.1, 0.3) if z.size <= 8 else (0.1,):
                res = tool(functools.partial(search_sparse_blocksize, a, ratio, deltar_thres=tol))
                st.valid()
                v = verdict(z, res, tol)
                st.state(tuple(res[0]), round(float(res[1]), 6))
                if v:
                    yield v[0], f'{z.astype(int).tolist()} {v[1]}'
                    return
        return
    # report of a loaded model
    zs = [np.tile(m.reshape(s), (4120 // int(np.prod(s)) // 2 * 2 // 8 + 2, 8) + (1,) * (len(s) - 2)) for m in masks(int(np.prod(s)), lo, hi)]
    nodes, inits = [], []
    for j, z in enumerate(zs):
        inits.append(numpy_helper.from_array(fill(z, t), f'w{j}'))
        nodes.append(helper.make_node('MatMul' if len(s) == 2 else 'Conv', [f'x{j}', f'w{j}'], [f'y{j}'], name=f'n{j}'))
    onx = {np.float32: TP.FLOAT, np.float16: TP.FLOAT16, np.float64: TP.DOUBLE, np.int8: TP.INT8, np.int32: TP.INT32, np.uint8: TP.UINT8}[t]
    ins = [helper.make_tensor_value_info(f'x{j}', onx, [2, z.shape[0]] if len(s) == 2 else [1, z.shape[1], z.shape[2], z.shape[3]]) for j, z in enumerate(zs)]
    m = gx.model(nodes, ins, [helper.make_tensor_value_info(f'y{j}', onx, None) for j in range(len(zs))], inits)
    g = gx.load(m)
    for j, z in enumerate(zs):
        assert z.size > 4096
        sp = g.tensormap[f'w{j}'].sparsity
        st.valid()
        if sp is None or abs(sp['ratio'] - z.mean()) > 1e-9:
            yield 'report-ratio', f'{z[:s[0], :s[1]].astype(int).tolist()}: {sp} want {z.mean()}'
            continue
        if z.mean() > 0.4:
            v = verdict(z, (sp['blocksize'], sp['blockratio']), 0.1)
            if v:
                yield 'report-' + v[0], f'{z[:s[0], :s[1]].astype(int).tolist()} {v[1]}'
        st.state('r', tuple(sp['blocksize']), round(float(sp['blockratio']), 6))
    tool(g.shape_infer, None)
    tool(g.profile)
    with gx.scratch() as d:
        f = os.path.join(d, 'p.csv')
        tool(g.print_node_map, f)
        with open(f, newline='') as fp:
            rows = {r['Name']: r for r in csv.DictReader(fp)}
    want = any(z.mean() > 0.4 for z in zs)
    if ('Sparse Ratio' in rows['n0']) != want:
        yield 'table-columns', f'{list(rows["n0"])}'
    elif want:
        for j, z in enumerate(zs):
            sp = g.tensormap[f'w{j}'].sparsity
            r = rows[f'n{j}']
            if abs(float(r['Sparse Ratio'].rstrip('%')) / 100 - z.mean()) > 1e-4 or r['Sparse Pattern'] != 'x'.join(map(str, sp['blocksize'])) \
                    or abs(float(r['Sparse Block Ratio'].rstrip('%')) / 100 - sp['blockratio']) > 1e-4:
                yield 'table-row', f'{r} for {sp}'
