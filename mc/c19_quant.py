"""C19: weight quantisers on every small weight over a value alphabet, and 4-bit packing on every small code array."""
import itertools
import numpy as np
from mc.core import tool
from onnx_tool.quantization import quantize, pack_4bits, symmetric_dequant, asymmetric_dequant

PID = 'C19'
TECH = 'exhaustive enumeration of small weights x granularities x modes x widths on the real quantiser, and of all small 4-bit code arrays on the real packer; independent dequantiser and unpacker'
RULE = ('weights: every assignment of a 7 or 9 value alphabet (zeros, equal, single sign, mixed, outlier, tiny, huge) to shapes up to 2x2, 1x4, 4x1, 2x3 x per tensor/row/block of 1,2,3 x symmetric/asymmetric x 2 to 16 bits; '
        'ramps through every code, every midpoint and one ulp beside it; packing: every array of 4-bit codes of shapes up to 1x4, 2x2, 2x1, 4, signed and unsigned')
ASSUME = ['weights are finite 2-D float32 or float64 arrays (the layout the quantiser documents); values below the smallest normal float32 count as zero', 'widths of at least 2 bits']

A = [0.0, -0.0, 1.0, -1.0, 0.3, 1e5, -7.25, 1e-30, 3e37]
A7 = [0.0, 1.0, -1.0, 0.3, 1e5, -7.25, 1e-40]
SHAPES = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1)]
BITS = [2, 3, 4, 5, 7, 8, 12, 16]
TINY = float(np.finfo(np.float32).tiny)


def groups(shape, block):
    """list of (index tuple of the parameters, slice pair)"""
    r, c = shape
    if block == 0:
        return [((), (slice(0, r), slice(0, c)))], ()
    if block == -1:
        return [((i,), (slice(i, i + 1), slice(0, c))) for i in range(r)], (r,)
    nb = -(-c // block)
    return [((i, j), (slice(i, i + 1), slice(j * block, min(c, (j + 1) * block)))) for i in range(r) for j in range(nb)], (r, nb)


def judge(a, block, typ, bits, Q, scale, zp):
    """first violation of (a, setting) -> (Q, scale, zp), or None"""
    gs, pshape = groups(a.shape, block)
    Q, scale, zp = np.asarray(Q), np.asarray(scale), np.asarray(zp)
    if Q.shape != a.shape or scale.shape != pshape or zp.shape != pshape:
        return 'layout', f'{Q.shape} {scale.shape} {zp.shape}, want {a.shape} {pshape}'
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if typ == 'sym' else (0, 2 ** bits - 1)
    if Q.dtype.kind not in 'iu' or Q.min() < lo or Q.max() > hi:
        return 'code-range', f'{Q.tolist()} outside [{lo},{hi}]'
    s64 = scale.astype(np.float64)
    if not np.isfinite(s64).all() or (s64 <= 0).any():
        return 'scale', f'{scale}'
    if zp.dtype.kind not in 'iu' or (zp != 0).any() and typ == 'sym' or (zp < 0).any() or (zp > hi).any():
        return 'zero-point', f'{zp}'
    x = a.astype(np.float64)
    for k, sl in gs:
        v = x[sl]
        d = (Q[sl].astype(np.float64) - float(zp[k])) * s64[k]
        step = np.abs(v).max() / (2 ** (bits - 1) - 1) if typ == 'sym' else (max(0., v.max()) - min(0., v.min())) / (2 ** bits - 1)
        tol = step * (0.501 + 2.0 ** (bits - 22)) + TINY * 2 ** bits
        if np.abs(v - d).max() > tol:
            return 'error-bound', f'{v.tolist()} -> {d.tolist()}, step {step}'
        # the tool's own dequantiser reads the codes back the same way
        own = np.asarray(tool(symmetric_dequant if typ == 'sym' else asymmetric_dequant, Q[sl].astype(np.float64), s64[k], float(zp[k])), np.float64)
        if own.shape != d.shape or np.abs(own - d).max() > np.abs(d).max() * 1e-9:
            return 'dequantiser', f'{Q[sl].tolist()} scale {s64[k]} zero point {zp[k]} read back as {own.tolist()}, expected {d.tolist()}'
    return None


def cases(tier):
    th = tier == 'thorough'
    sets = [(t, b, k) for t in ('sym', 'asym') for b in (BITS if th else [2, 4, 7, 8, 16]) for k in (0, -1, 1, 2, 3)]
    for s in SHAPES + [(2, 3)] * th:
        n = s[0] * s[1]
        al = A if n < 4 or th and n == 4 else A7 if n == 4 else A7[:5]
        for t in ('sym', 'asym'):
            for first in itertools.product(range(len(al)), repeat=max(0, n - 2)):
                yield f'w/{s[0]}x{s[1]}/{t}/{"".join(map(str, first))}', ('w', s, t, first, al, [x for x in sets if x[0] == t])
    for dt in ('float32', 'float64'):
        for t, b, k in sets:
            for f in (1.0, 0.1, 1e30, -3.0):
                for mode in (('z',) if t == 'sym' else ('z', 'pos', 'neg', 'off')):
                    if b <= 8 or th and f == 0.1:
                        yield f'ramp/{dt}/{t}/{b}/{k}/{f}/{mode}', ('r', dt, t, b, k, f, mode)
    for kw in ({}, {'block': 0}, {'type': 'asym'}, {'bits': 4}, {'block': 2}, {'type': 'asym', 'bits': 4}, {'block': 0, 'bits': 4}, {'block': 2, 'type': 'asym'}):
        yield 'default/' + ','.join(f'{k}={v}' for k, v in kw.items()), ('d', kw)
    for s in [(1,), (2,), (3,), (4,), (1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (1, 4), (2, 1, 2)]:
        n = int(np.prod(s))
        for dt in ('int32', 'int8', 'uint8'):
            if n == 4 and dt != 'int32' and not th:
                continue
            for a in range(16):
                yield f'pack/{s}/{dt}/{a}'.replace(' ', ''), ('p', s, dt, a)


def run_case(cid, p, st):
    if p[0] == 'w':
        _, s, t, first, al, sets = p
        n = s[0] * s[1]
        for rest in itertools.product(range(len(al)), repeat=n - len(first)):
            a = np.array([al[i] for i in first + rest], np.float32).reshape(s)
            for typ, bits, block in sets:
                if block > s[1] and block > 1:
                    continue
                r = tool(quantize, a.copy(), block, typ, bits)
                st.valid()
                v = judge(a, block, typ, bits, *r)
                st.state(s, typ, bits, block, np.asarray(r[0]).tobytes())
                if v:
                    yield v[0], f'{a.tolist()} {typ} bits={bits} block={block}: {v[1]}'
    elif p[0] == 'r':
        _, dt, typ, bits, block, f, mode = p
        n = 2 ** min(bits, 10)
        g = np.arange(-2 * n, 2 * n + 1, dtype=np.float64) / 4
        if mode == 'pos':
            g = g - g.min() + 5
        elif mode == 'neg':
            g = g - g.max() - 5
        elif mode == 'off':
            g = g + n * 0.3
        g = (g * f).astype(dt)
        up, dn = np.nextafter(g, np.inf, dtype=g.dtype), np.nextafter(g, -np.inf, dtype=g.dtype)
        a = np.stack([g, up, dn])
        if block > 0:
            k = (a.shape[1] - 1) // 8
            a = a[:, ::max(1, k)]
        r = tool(quantize, a.copy(), block, typ, bits)
        st.valid()
        st.state(cid)
        v = judge(a, block, typ, bits, *r)
        if v:
            yield v[0], v[1]
    elif p[0] == 'd':
        # omitted settings are per row, symmetric, 8 bits
        full = dict({'block': -1, 'type': 'sym', 'bits': 8}, **p[1])
        for a in (np.array([[1, 2.5, -3], [40, .5, 6]], np.float32), np.array([[.3, .1], [0, 7], [-2, -2]], np.float32)):
            r = tool(quantize, a.copy(), **p[1])
            st.valid()
            st.state(cid, a.tobytes())
            v = judge(a, full['block'], full['type'], full['bits'], *r)
            if v:
                yield 'default-' + v[0], f'{p[1]}: {v[1]}'
            elif np.ptp(np.asarray(r[0])) < 2 ** (full['bits'] - 2):
                yield 'default-width', f'{p[1]}: {np.asarray(r[0]).tolist()}'
    else:
        _, s, dt, a0 = p
        n = int(np.prod(s))
        for rest in itertools.product(range(16), repeat=n - 1):
            u = np.array((a0,) + rest)
            for sign in (0, 1):
                if sign and dt == 'uint8':
                    continue
                q = (np.where(u > 7, u - 16, u) if sign else u).astype(dt).reshape(s)
                b = np.asarray(tool(pack_4bits, q.copy()))
                st.valid()
                c = s[-1]
                if b.dtype != np.uint8 or b.shape != s[:-1] + (-(-c // 2),):
                    yield 'packed-layout', f'{b.dtype} {b.shape} from {s}'
                    return
                z = np.stack([b & 15, b >> 4], axis=-1).reshape(s[:-1] + (-1,))[..., :c].astype(int)
                if sign:
                    z = np.where(z > 7, z - 16, z)
                st.state(s, sign, b.tobytes())
                if (z != q).any():
                    yield 'packed-value', f'{q.tolist()} reads back {z.tolist()}'
                    return
