"""Bounded grammar of shape-computing programs (shared by C06, C16, C08)."""
import itertools
import numpy as np
from onnx import helper, numpy_helper, TensorProto as TP

nd = helper.make_node
I = np.int64


class B:
    """Builder: nodes with concretely known chain values (numpy, for the base input shape)."""

    def __init__(self, cmode):
        self.nodes, self.inits, self.vals, self.k, self.cmode, self.tag, self.req = [], [], {}, 0, cmode, [], []

    def clone(self):
        b = B(self.cmode)
        b.nodes, b.inits, b.vals, b.k, b.tag, b.req = list(self.nodes), list(self.inits), dict(self.vals), self.k, list(self.tag), list(self.req)
        return b

    def const(self, a):
        a = np.asarray(a)
        self.k += 1
        n = f'k{self.k}'
        if self.cmode == 'init':
            self.inits.append(numpy_helper.from_array(a, n))
        else:
            self.nodes.append(nd('Constant', [], [n], name=f'n_{n}', value=numpy_helper.from_array(a, n)))
        self.vals[n] = a
        return n

    def op(self, op, ins, val=None, nout=1, **at):
        self.k += 1
        outs = [f't{self.k}' + ('' if j == 0 else f'_{j}') for j in range(nout)]
        self.nodes.append(nd(op, ins, outs, name=f'n{self.k}', **at))
        if nout == 1:
            if val is not None:
                self.vals[outs[0]] = np.asarray(val)
            return outs[0]
        for o, v in zip(outs, val or []):
            if v is not None:
                self.vals[o] = np.asarray(v)
        return outs


# ------------------------------------------------------------------ chain steps: (name, applicable, apply(builder, tensor) -> tensor)
def isvec(v):
    return v.ndim == 1 and v.dtype == I


def issc(v):
    return v.ndim == 0 and v.dtype == I


def num(v):
    return v.dtype == I and v.ndim <= 1


def _arith(op, f, cst):
    def ap(b, t):
        return b.op(op, [t, b.const(np.array(cst, I))], f(b.vals[t]))
    return ap


def _arith1(op, f, cst):
    def ap(b, t):     # one-element vector constant: scalar becomes vector
        return b.op(op, [t, b.const(np.array([cst], I))], f(np.atleast_1d(b.vals[t])))
    return ap


def s_float(op, c, rnd):
    def ap(b, t):
        v = b.vals[t]
        f = b.op('Cast', [t], v.astype(np.float32), to=TP.FLOAT)
        m = (v * np.float32(c) if op == 'Mul' else v / np.float32(c)).astype(np.float32)
        g = b.op(op, [f, b.const(np.array(c, np.float32))], m)
        if rnd:
            m = (np.floor if rnd == 'Floor' else np.ceil if rnd == 'Ceil' else np.round)(m).astype(np.float32)
            g = b.op(rnd, [g], m)
        return b.op('Cast', [g], m.astype(I), to=TP.INT64)
    return ap


def s_reduce(op, f, keep):
    def ap(b, t):
        v = b.vals[t]
        r = f(v, keepdims=bool(keep))
        if op == 'ReduceSum':
            return b.op(op, [t, b.const(np.array([0], I))], np.asarray(r).astype(I), keepdims=keep)
        return b.op(op, [t], np.asarray(r).astype(I), keepdims=keep)
    return ap


def s_where(b, t):
    v = b.vals[t]
    e = b.op('Equal', [t, b.const(np.array(2, I))], v == 2)
    return b.op('Where', [e, b.const(np.full(v.shape, 1, I)), t], np.where(v == 2, 1, v).astype(I))


def s_where_gt(b, t):
    v = b.vals[t]
    e = b.op('Greater', [t, b.const(np.array(2, I))], v > 2)
    n = b.op('Not', [e], ~(v > 2))
    return b.op('Where', [n, t, b.const(np.array(2, I))], np.where(v > 2, 2, v).astype(I))


def s_split(j):
    def ap(b, t):
        v = b.vals[t]
        h = np.split(v, 2)
        return b.op('Split', [t], h, nout=2)[j]
    return ap


def s_split_sizes(j):
    def ap(b, t):
        v = b.vals[t]
        return b.op('Split', [t, b.const(np.array([1, len(v) - 1], I))], [v[:1], v[1:]], nout=2, axis=0)[j]
    return ap


def s_cos_shape(b, t):
    v = b.vals[t]
    c = b.op('ConstantOfShape', [t], np.zeros(v, np.float32))
    return b.op('Shape', [c], np.array(v, I))


def s_cos_ones(b, t):
    """ConstantOfShape of the vector's own length, filled with 1, multiplied in"""
    v = b.vals[t]
    s = b.op('Shape', [t], np.array([len(v)], I))
    c = b.op('ConstantOfShape', [s], np.full(len(v), 3, I), value=numpy_helper.from_array(np.array([3], I)))
    return b.op('Min', [t, c], np.minimum(v, 3))


def s_range(b, t):
    v = int(b.vals[t])
    r = b.op('Range', [b.const(np.array(0, I)), t, b.const(np.array(1, I))], np.arange(v, dtype=I))
    return b.op('Shape', [r], np.array([v], I))


def s_range_val(b, t):
    v = int(b.vals[t])
    return b.op('Range', [b.const(np.array(1, I)), t, b.const(np.array(1, I))], np.arange(1, v, dtype=I))


def s_slice(st, en, step=None, ax=True):
    def ap(b, t):
        v = b.vals[t]
        ins = [t, b.const(np.array([st], I)), b.const(np.array([en], I))]
        if ax:
            ins.append(b.const(np.array([0], I)))
        if step is not None:
            ins.append(b.const(np.array([step], I)))
        return b.op('Slice', ins, v[slice(st, None if en < -2 ** 31 else en, step)])
    return ap


def s_gather(ix):
    def ap(b, t):
        v = b.vals[t]
        return b.op('Gather', [t, b.const(np.array(ix, I))], v[np.array(ix, I)], axis=0)
    return ap


def s_concat(front, c):
    def ap(b, t):
        v = b.vals[t]
        k = b.const(np.array([c], I))
        return b.op('Concat', [k, t] if front else [t, k], np.concatenate([[c], v] if front else [v, [c]]).astype(I), axis=0)
    return ap


def s_scatternd(b, t):
    v = b.vals[t].copy()
    v[0] = 1
    return b.op('ScatterND', [t, b.const(np.array([[0]], I)), b.const(np.array([1], I))], v)


def s_unsq(b, t):
    return b.op('Unsqueeze', [t, b.const(np.array([0], I))], b.vals[t].reshape(1))


def s_sq(b, t):
    return b.op('Squeeze', [t, b.const(np.array([0], I))], b.vals[t].reshape(()))


def s_sq_noaxes(b, t):
    return b.op('Squeeze', [t], b.vals[t].reshape(()))


def s_ident(b, t):
    return b.op('Identity', [t], b.vals[t])


def s_i32(b, t):
    v = b.vals[t]
    c = b.op('Cast', [t], v.astype(np.int32), to=TP.INT32)
    m = b.op('Add', [c, b.const(np.array(1, np.int32))], v.astype(np.int32) + 1)
    return b.op('Cast', [m], v + 1, to=TP.INT64)


def s_2d(b, t):
    """through a 2-D intermediate: reshape, transpose, flatten back"""
    v = b.vals[t]
    r = b.op('Reshape', [t, b.const(np.array([-1, 1], I))], v.reshape(-1, 1))
    c = b.op('Concat', [r, r], np.concatenate([v.reshape(-1, 1)] * 2, 1), axis=1)
    tr = b.op('Transpose', [c], np.concatenate([v.reshape(-1, 1)] * 2, 1).T, perm=[1, 0])
    return b.op('Gather', [tr, b.const(np.array(1, I))], v, axis=0)


def s_pad_pairs(b, t):
    """exporter style: pads built by concat, reshape, slice with step -1, transpose"""
    v = b.vals[t]
    z = b.op('ConstantOfShape', [b.const(np.array([len(v)], I))], np.zeros(len(v), I), value=numpy_helper.from_array(np.array([0], I)))
    c = b.op('Concat', [t, z], np.concatenate([v, np.zeros(len(v), I)]), axis=0)
    r = b.op('Reshape', [c, b.const(np.array([-1, 2], I))], np.concatenate([v, np.zeros(len(v), I)]).reshape(-1, 2))
    w = np.concatenate([v, np.zeros(len(v), I)]).reshape(-1, 2)[::-1]
    s = b.op('Slice', [r, b.const(np.array([-1], I)), b.const(np.array([-2 ** 63 + 1], I)), b.const(np.array([0], I)), b.const(np.array([-1], I))], w)
    tr = b.op('Transpose', [s], w.T, perm=[1, 0])
    q = b.op('Reshape', [tr, b.const(np.array([-1], I))], w.T.reshape(-1))
    return b.op('Slice', [q, b.const(np.array([0], I)), b.const(np.array([len(v)], I)), b.const(np.array([0], I))], w.T.reshape(-1)[:len(v)])


def s_expand(b, t):
    return b.op('Expand', [t, b.const(np.array([2], I))], np.broadcast_to(b.vals[t], (2,)).copy())


def s_tile(b, t):
    return b.op('Tile', [t, b.const(np.array([2], I))], np.tile(b.vals[t], 2))


def s_nonzero(b, t):
    """indices of the non-zero entries of a constant mask as long as the vector, used to gather"""
    v = b.vals[t]
    return b.op('GatherND', [t, b.const(np.array([[i] for i in range(len(v))][::-1], I))], v[::-1].copy())


def s_neg(b, t):
    return b.op('Neg', [t], -b.vals[t])


def s_mod(b, t):
    return b.op('Mod', [t, b.const(np.array(3, I))], np.mod(b.vals[t], 3))


def s_shape_gather_elem(b, t):
    v = b.vals[t]
    ix = np.zeros(len(v), I)
    return b.op('GatherElements', [t, b.const(ix)], v[ix], axis=0)


def s_argmax(b, t):
    return b.op('ArgMax', [t], np.array([int(np.argmax(b.vals[t]))], I), axis=0, keepdims=1)


def s_cumsum(b, t):
    return b.op('CumSum', [t, b.const(np.array(0, I))], np.cumsum(b.vals[t]))


def s_dup(b, t):
    return b.op('Concat', [t, t], np.concatenate([b.vals[t], b.vals[t]]), axis=0)


def s_selfmul(b, t):
    return b.op('Mul', [t, t], b.vals[t] * b.vals[t])


def s_sqrt(b, t):
    v = b.vals[t]
    f = b.op('Cast', [t], v.astype(np.float32), to=TP.FLOAT)
    q = b.op('Sqrt', [f], np.sqrt(v.astype(np.float32)))
    c = b.op('Ceil', [q], np.ceil(np.sqrt(v.astype(np.float32))))
    return b.op('Cast', [c], np.ceil(np.sqrt(v.astype(np.float32))).astype(I), to=TP.INT64)


def s_pow(b, t):
    v = b.vals[t]
    return b.op('Pow', [t, b.const(np.array(2, I))], v ** 2)


vec = isvec
STEPS = [
    ('g0', vec, s_gather(0)), ('g-1', vec, s_gather(-1)), ('g[0]', vec, s_gather([0])), ('g[-1]', vec, s_gather([-1])),
    ('g[1,0]', lambda v: isvec(v) and len(v) >= 2, s_gather([1, 0])),
    ('s0:1', vec, s_slice(0, 1)), ('s1:', lambda v: isvec(v) and len(v) >= 2, s_slice(1, 2 ** 31)), ('s-2:', lambda v: isvec(v) and len(v) >= 2, s_slice(-2, 2 ** 63 - 1, 1)),
    ('s::-1', vec, s_slice(-1, -2 ** 63, -1)), ('s0:-1', lambda v: isvec(v) and len(v) >= 2, s_slice(0, -1, None, False)),
    ('c1', lambda v: isvec(v) and len(v) < 4, s_concat(True, 1)), ('cat-1', lambda v: isvec(v) and len(v) < 4, s_concat(False, -1)), ('cat2', lambda v: isvec(v) and len(v) < 4, s_concat(False, 2)),
    ('dup', lambda v: isvec(v) and len(v) <= 2, s_dup),
    ('+1', num, _arith('Add', lambda v: v + 1, 1)), ('-1', num, _arith('Sub', lambda v: v - 1, 1)), ('*2', num, _arith('Mul', lambda v: v * 2, 2)),
    ('/2', lambda v: num(v) and (v >= 0).all(), _arith('Div', lambda v: v // 2, 2)), ('*[1]', num, _arith1('Mul', lambda v: v * 1, 1)),
    ('sqr', num, s_selfmul), ('mod3', num, s_mod), ('neg', num, s_neg), ('pow2', num, s_pow),
    ('f.5floor', num, s_float('Mul', 0.5, 'Floor')), ('f.5ceil', num, s_float('Mul', 0.5, 'Ceil')), ('f2', num, s_float('Mul', 2.0, '')), ('f/1.5', num, s_float('Div', 1.5, 'Floor')),
    ('sqrt', lambda v: num(v) and (v >= 0).all(), s_sqrt),
    ('rprod', lambda v: isvec(v) and len(v), s_reduce('ReduceProd', np.prod, 0)), ('rprodk', lambda v: isvec(v) and len(v), s_reduce('ReduceProd', np.prod, 1)),
    ('rmax', lambda v: isvec(v) and len(v), s_reduce('ReduceMax', np.max, 1)), ('rmin', lambda v: isvec(v) and len(v), s_reduce('ReduceMin', np.min, 0)), ('rsum', lambda v: isvec(v) and len(v), s_reduce('ReduceSum', np.sum, 1)),
    ('unsq', issc, s_unsq), ('sq', lambda v: isvec(v) and len(v) == 1, s_sq), ('sqn', lambda v: isvec(v) and len(v) == 1, s_sq_noaxes), ('id', num, s_ident), ('i32', num, s_i32),
    ('where', num, s_where), ('wheregt', num, s_where_gt),
    ('half0', lambda v: isvec(v) and len(v) and len(v) % 2 == 0, s_split(0)), ('half1', lambda v: isvec(v) and len(v) and len(v) % 2 == 0, s_split(1)),
    ('split1', lambda v: isvec(v) and len(v) > 1, s_split_sizes(1)),
    ('cosshape', lambda v: isvec(v) and (v >= 0).all() and np.prod(v) < 2000, s_cos_shape), ('min3', lambda v: isvec(v) and len(v), s_cos_ones),
    ('rangelen', lambda v: issc(v) and 0 <= v < 500, s_range), ('range', lambda v: issc(v) and 2 <= v <= 5, s_range_val),
    ('scat', lambda v: isvec(v) and len(v), s_scatternd), ('2d', lambda v: isvec(v) and len(v), s_2d), ('padpairs', lambda v: isvec(v) and len(v), s_pad_pairs),
    ('exp2', lambda v: isvec(v) and len(v) == 1 or issc(v), s_expand), ('tile2', lambda v: isvec(v) and 0 < len(v) <= 2, s_tile), ('gnd', lambda v: isvec(v) and len(v), s_nonzero),
    ('gelem', lambda v: isvec(v) and len(v), s_shape_gather_elem), ('argmax', lambda v: isvec(v) and len(v), s_argmax), ('cumsum', lambda v: isvec(v) and len(v), s_cumsum),
]


# ------------------------------------------------------------------ consumers of a shape value: (name, applicable(v, xshape), apply(b, t, x))
def prodok(v, s):
    if len(v) == 0 or (v == -1).sum() > 1 or (v < -1).any() or len(v) > 5:
        return False
    w = [s[i] if d == 0 and i < len(s) else d for i, d in enumerate(v)]
    if any(d == 0 for d in w):
        return False
    n = int(np.prod(s))
    p = int(np.prod([d for d in w if d != -1])) if len(w) else 1
    return p > 0 and (n % p == 0 if -1 in w else n == p)


def bcok(v, s):
    if (v < 1).any() or len(v) > 5 or np.prod(v) > 512:
        return False
    try:
        return np.prod(np.broadcast_shapes(tuple(int(d) for d in v), tuple(s))) <= 2048
    except ValueError:
        return False


BIG = 2 ** 31 - 1


def c_slice_starts(b, t, x):
    ax = b.const(np.array([len(SH[0]) - 1], I))
    return b.op('Slice', [x, t, b.const(np.array([BIG], I)), ax])


def c_slice_ends(b, t, x):
    return b.op('Slice', [x, b.const(np.array([0], I)), t, b.const(np.array([len(SH[0]) - 1], I)), b.const(np.array([1], I))])


def c_slice_steps(b, t, x):
    return b.op('Slice', [x, b.const(np.array([0], I)), b.const(np.array([BIG], I)), b.const(np.array([-1], I)), t])


def c_slice_axes(b, t, x):
    return b.op('Slice', [x, b.const(np.array([1], I)), b.const(np.array([BIG], I)), t])


def c_slice_all(b, t, x):
    z = b.op('Sub', [t, t], np.zeros(len(b.vals[t]), I))
    return b.op('Slice', [x, z, t])


SH = [None]


def v1(v):
    return isvec(v) and len(v) == 1


CONS = [
    ('reshape', lambda v, s: isvec(v) and prodok(v, s), lambda b, t, x: b.op('Reshape', [x, t])),
    ('expand', lambda v, s: isvec(v) and len(v) and bcok(v, s), lambda b, t, x: b.op('Expand', [x, t])),
    ('tile', lambda v, s: isvec(v) and len(v) == len(s) and (v >= 0).all() and np.prod(v) * np.prod(s) <= 4096, lambda b, t, x: b.op('Tile', [x, t])),
    ('cos', lambda v, s: isvec(v) and (v >= 0).all() and len(v) <= 5 and np.prod(v) <= 2000, lambda b, t, x: b.op('ConstantOfShape', [t])),
    ('resize_sizes', lambda v, s: isvec(v) and len(v) == len(s) == 4 and (v > 0).all() and np.prod(v) <= 2000, lambda b, t, x: b.op('Resize', [x, '', '', t], mode='nearest')),
    ('slice_starts', lambda v, s: v1(v) and abs(v[0]) < 50, c_slice_starts),
    ('slice_ends', lambda v, s: v1(v), c_slice_ends),
    ('slice_axes', lambda v, s: v1(v) and -len(s) <= v[0] < len(s), c_slice_axes),
    ('slice_steps', lambda v, s: v1(v) and 0 < v[0] < 50, c_slice_steps),
    ('slice_all', lambda v, s: isvec(v) and 0 < len(v) <= len(s) and (v > 0).all(), c_slice_all),
    ('pad', lambda v, s: isvec(v) and len(v) == 2 * len(s) and (v >= 0).all() and (v < 6).all(), lambda b, t, x: b.op('Pad', [x, t])),
    ('pad3', lambda v, s: isvec(v) and len(v) == 2 * len(s) and (v >= 0).all() and (v < 6).all(), lambda b, t, x: b.op('Pad', [x, t, b.const(np.array(1, np.float32))])),
    ('pad_axes', lambda v, s: isvec(v) and len(v) == 2 and (v >= 0).all() and (v < 9).all(), lambda b, t, x: b.op('Pad', [x, t, '', b.const(np.array([-1], I))])),
    ('range', lambda v, s: issc(v) and 0 <= v < 2000, lambda b, t, x: b.op('Range', [b.const(np.array(0, I)), t, b.const(np.array(1, I))])),
    ('range_start', lambda v, s: issc(v) and 0 <= v < 40, lambda b, t, x: b.op('Range', [t, b.const(np.array(40, I)), b.const(np.array(3, I))])),
    ('topk', lambda v, s: v1(v) and 0 < v[0] <= s[-1], lambda b, t, x: b.op('TopK', [x, t], nout=2, axis=-1)[1]),
    ('split', lambda v, s: isvec(v) and len(v) == 2 and (v >= 0).all() and v.sum() == s[-1], lambda b, t, x: b.op('Split', [x, t], nout=2, axis=-1)[1]),
    ('onehot', lambda v, s: (issc(v) or v1(v)) and 0 < v.reshape(-1)[0] < 50, lambda b, t, x: b.op('OneHot', [b.op('ArgMax', [x], axis=-1, keepdims=0), t, b.const(np.array([0, 1], np.float32))])),
    ('unsqueeze', lambda v, s: v1(v) and 0 <= v[0] <= len(s), lambda b, t, x: b.op('Unsqueeze', [x, t])),
    ('squeeze', lambda v, s: v1(v) and 0 <= v[0] < len(s) and s[int(v[0])] == 1, lambda b, t, x: b.op('Squeeze', [x, t])),
    ('reducesum', lambda v, s: v1(v) and -len(s) <= v[0] < len(s), lambda b, t, x: b.op('ReduceSum', [x, t], keepdims=0)),
    ('reducemax18', lambda v, s: v1(v) and -len(s) <= v[0] < len(s), lambda b, t, x: b.op('ReduceMax', [x, t], keepdims=0)),
    ('reducemean18', lambda v, s: v1(v) and -len(s) <= v[0] < len(s), lambda b, t, x: b.op('ReduceMean', [x, t], keepdims=1)),
    ('output', lambda v, s: True, lambda b, t, x: t),
]


def c_resize_scales(b, t, x, n=3):
    v = b.vals[t]
    f = b.op('Cast', [t], v.astype(np.float32), to=TP.FLOAT)
    return b.op('Resize', [x, '', f], mode='nearest')


CONS.append(('resize_scales', lambda v, s: isvec(v) and len(v) == len(s) == 4 and (v > 0).all() and np.prod(v) * np.prod(s) <= 4000, c_resize_scales))


# ------------------------------------------------------------------ sources
def srcs(b, xs):
    """(name, tensor) of every chain source for data input x of shape xs"""
    yield 'shape', lambda b: b.op('Shape', ['x'], np.array(xs, I))
    if len(xs) > 1:
        yield 'shape1:', lambda b: b.op('Shape', ['x'], np.array(xs[1:], I), start=1)
        yield 'shape-1', lambda b: b.op('Shape', ['x'], np.array(xs[:-1], I), end=-1)
    yield 'relushape', lambda b: b.op('Shape', [b.op('Relu', ['x'])], np.array(xs, I))
    yield 'trshape', lambda b: b.op('Shape', [b.op('Transpose', ['x'])], np.array(xs[::-1], I))
    yield 'const', lambda b: b.const(np.array(xs, I))


def chains(b, t, depth):
    yield b, t
    if depth == 0:
        return
    v = b.vals[t]
    for name, ok, ap in STEPS:
        if not ok(v):
            continue
        b2 = b.clone()
        b2.tag.append(name)
        b2.req.append((ok, t))
        t2 = ap(b2, t)
        w = b2.vals[t2]
        if w.size > 12 or (w.size and np.abs(w.astype(np.float64)).max() > 1e6):
            continue
        yield from chains(b2, t2, depth - 1)


COMB = [('add', 'Add', lambda a, c: a + c), ('mul', 'Mul', lambda a, c: a * c), ('sub', 'Sub', lambda a, c: a - c), ('max', 'Max', np.maximum), ('min', 'Min', np.minimum)]


def programs(xs, depth, cmodes=('init', 'node'), sources=None, pairs=True, pair_steps=None):
    """Every program of the grammar over data input x of shape xs: yields (tag, builder, output name)."""
    for cm in cmodes:
        for sname, mk in srcs(None, xs):
            if sources and sname not in sources:
                continue
            b0 = B(cm)
            t0 = mk(b0)
            for b, t in chains(b0, t0, depth):
                yield from consumers(b, t, xs, f'{cm}/{sname}')
        if not pairs:
            continue
        # two chains from one or two Shape nodes joined
        b0 = B(cm)
        t0 = b0.op('Shape', ['x'], np.array(xs, I))
        for shared in (True, False) if pairs is True else (True,):
            for b1, t1 in chains(b0, t0, 1):
                b1 = b1.clone()
                u0 = t0 if shared else b1.op('Shape', ['x'], np.array(xs, I))
                for b2, t2 in chains(b1, u0, 1):
                    v, w = b2.vals[t1], b2.vals[t2]
                    outs = []
                    if isvec(v) and isvec(w) and 0 < len(v) + len(w) <= 6:
                        outs.append(('cat', lambda b: b.op('Concat', [t1, t2], np.concatenate([v, w]), axis=0)))
                    if num(v) and num(w) and (v.ndim == 0 or w.ndim == 0 or v.shape == w.shape or 1 in (v.size, w.size)):
                        for nm, op, f in COMB:
                            outs.append((nm, lambda b, op=op, f=f: b.op(op, [t1, t2], f(v, w))))
                    for nm, ap in outs:
                        b3 = b2.clone()
                        t3 = ap(b3)
                        b3.tag.append(nm)
                        yield from consumers(b3, t3, xs, f'{cm}/pair{"S" if shared else "D"}')


def consumers(b, t, xs, pre):
    v = b.vals[t]
    SH[0] = xs
    for cname, ok, ap in CONS:
        if not ok(v, xs):
            continue
        b2 = b.clone()
        b2.opset = 18 if cname.endswith('18') or cname == 'pad_axes' else 17
        if b2.opset == 18 and any(n.op_type == 'Split' and len(n.input) == 1 for n in b2.nodes):
            continue        # the form without sizes changed in opset 18
        b2.creq = (ok, t)
        y = ap(b2, t, 'x')
        yield f'{pre}/{".".join(b.tag) or "-"}>{cname}', b2, y
