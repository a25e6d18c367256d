"""Independent brute-force output shapes for windowed operators (counting window placements)."""
import numpy as np


def _placements(n, padb, pade, k, s, d):
    """Number of window starts p = 0, s, 2s, ... whose whole dilated window lies inside the padded axis."""
    ext = d * (k - 1) + 1
    c = 0
    p = 0
    while p + ext <= n + padb + pade:
        c += 1
        p += s
    return c


def _windowed(case, ishape, ksp, ceil):
    """-> list of spatial output sizes or None when the corner is left open by the specification."""
    a = case.attrs
    nd = len(ishape) - 2
    st = list(a.get('strides', [1] * nd))
    di = list(a.get('dilations', [1] * nd))
    ap = a.get('auto_pad', 'NOTSET')
    pads = list(a.get('pads', [0] * (2 * nd))) if ap == 'NOTSET' else [0] * (2 * nd)
    out = []
    for i in range(nd):
        n, k, s, dd = ishape[2 + i], ksp[i], st[i], di[i]
        if ap in ('SAME_UPPER', 'SAME_LOWER'):
            out.append(len(range(0, n, s)))
            continue
        c = _placements(n, pads[i], pads[nd + i], k, s, dd)
        ext = dd * (k - 1) + 1
        if ceil and ap == 'NOTSET':
            last = (c - 1) * s + ext
            if c and last < n + pads[i] + pads[nd + i]:
                if c * s >= n + pads[i]:
                    return None      # the extra window would start in the right padding: versions differ
                c += 1
        elif ceil and ap == 'VALID':
            if c and (c - 1) * s + ext < n:
                return None          # ceil_mode with automatic padding: reading differs
        if c <= 0:
            return None
        out.append(c)
    return out


def window_shape(case):
    """-> expected output shape, None (open corner), or NotImplemented (not a windowed operator)."""
    op = case.op
    if op in ('Conv', 'ConvInteger'):
        x, w = case.ins[0][0].shape, case.ins[1][0].shape
    elif op == 'QLinearConv':
        x, w = case.ins[0][0].shape, case.ins[3][0].shape
    elif op in ('MaxPool', 'AveragePool'):
        x = case.ins[0][0].shape
        sp = _windowed(case, x, case.attrs['kernel_shape'], case.attrs.get('ceil_mode', 0))
        return None if sp is None else list(x[:2]) + sp
    elif op == 'ConvTranspose':
        return convt_shape(case)
    else:
        return NotImplemented
    sp = _windowed(case, x, w[2:], 0)
    return None if sp is None else [x[0], w[0]] + sp


def convt_shape(case):
    a = case.attrs
    x, w = case.ins[0][0].shape, case.ins[1][0].shape
    nd = len(x) - 2
    st = list(a.get('strides', [1] * nd))
    di = list(a.get('dilations', [1] * nd))
    op = list(a.get('output_padding', [0] * nd))
    pads = list(a.get('pads', [0] * 2 * nd))
    ap = a.get('auto_pad', 'NOTSET')
    g = a.get('group', 1)
    sp = []
    for i in range(nd):
        if 'output_shape' in a:
            sp.append(a['output_shape'][-nd + i])
            continue
        if ap in ('SAME_UPPER', 'SAME_LOWER'):
            sp.append(x[2 + i] * st[i])
            continue
        # last written coordinate + 1 in the scattered buffer, then cropped and extended
        last = (x[2 + i] - 1) * st[i] + (w[2 + i] - 1) * di[i]
        v = last + 1 + op[i]
        if ap == 'NOTSET':
            v -= pads[i] + pads[nd + i]
        if v <= 0:
            return None
        sp.append(v)
    return [x[0], w[1] * g] + sp
