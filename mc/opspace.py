"""Bounded spaces of single-operator programs, per operator family.

Every generator yields Case objects in a deterministic order and enumerates its
stated space completely (no sampling).  A Case is one legal ONNX node with
concrete inputs.
"""
import itertools
import numpy as np

F = np.float32
I = np.int64


class Case:
    __slots__ = ('op', 'attrs', 'ins', 'nout', 'opset', 'tag', 'domain')

    def __init__(self, op, attrs, ins, nout=1, opset=17, tag=''):
        # ins: list of (array | None, kind) ; kind 'd' dynamic, 'c' initializer, '' empty optional
        self.op = op
        self.attrs = attrs
        self.ins = ins
        self.nout = nout
        self.opset = opset
        self.tag = tag

    def cid(self):
        a = ','.join(f'{k}={fmt(v)}' for k, v in sorted(self.attrs.items()))
        i = ';'.join('-' if x is None else
                     (f"{k}{x.dtype.name[0]}{x.dtype.itemsize * 8}{list(x.shape)}".replace(' ', '') +
                      ('' if k != 'c' or x.size > 8 or x.dtype.kind == 'f' else '=' + ','.join(str(v) for v in x.flatten().tolist())))
                     for x, k in self.ins)
        return f'{self.op}@{self.opset}({a})[{i}]' + (f'#{self.tag}' if self.tag else '')


def fmt(v):
    if isinstance(v, np.ndarray):
        return f'{v.dtype.name}{list(v.shape)}:{v.flatten().tolist()}'.replace(' ', '')
    if isinstance(v, (list, tuple)):
        return '(' + ' '.join(fmt(x) for x in v) + ')'
    if hasattr(v, 'SerializeToString'):
        return 'proto'
    return str(v)


def data(shape, dtype=F, k=0):
    """Deterministic data with both signs, fractions, ties and zero."""
    n = int(np.prod(shape)) if len(shape) else 1
    base = (np.arange(n) * (7 + 2 * k) + 3 + k) % 11 - 5
    if dtype in (np.bool_,):
        a = (base % 2).astype(np.bool_)
    elif np.dtype(dtype).kind == 'f':
        a = (base * 0.5 + 0.25 * k).astype(dtype)
    elif np.dtype(dtype).kind == 'u':
        a = (base + 5).astype(dtype)
    else:
        a = base.astype(dtype)
    return a.reshape(shape)


def pos(shape, dtype=F, k=0):
    a = np.abs(data(shape, dtype, k)) + 1
    return a.astype(dtype)


def shapes(maxrank, dims, minrank=0):
    for r in range(minrank, maxrank + 1):
        for s in itertools.product(dims, repeat=r):
            yield list(s)


def bcast(*ss):
    try:
        return list(np.broadcast_shapes(*[tuple(s) for s in ss]))
    except ValueError:
        return None


def d(a):
    return (a, 'd')


def c(a):
    return (a, 'c')


def ci(*v):
    return (np.array(list(v), dtype=I), 'c')


NONE = (None, '')


# ---------------------------------------------------------------- elementwise
UNARY_F = ['Neg', 'Abs', 'Ceil', 'Floor', 'Round', 'Exp', 'Sqrt', 'Sin', 'Cos', 'Sigmoid', 'Tanh', 'Atan',
           'Sign', 'Relu', 'Elu', 'Softplus', 'Reciprocal', 'Erf', 'Identity', 'Log', 'HardSigmoid',
           'HardSwish', 'LeakyRelu', 'Dropout', 'Softmax', 'LogSoftmax', 'Hardmax']
UNARY_I = ['Neg', 'Abs', 'Sign', 'Identity', 'Relu']


def unary(tier):
    dims = (1, 2, 3) if tier == 'thorough' else (1, 2)
    rk = 4
    for op in UNARY_F:
        for s in shapes(rk, dims):
            if op in ('Softmax', 'LogSoftmax', 'Hardmax') and len(s) == 0:
                continue
            x = pos(s) if op in ('Sqrt', 'Log', 'Reciprocal') else data(s)
            yield Case(op, {}, [d(x)])
    for op in UNARY_I:
        for dt in (np.int32, np.int64):
            for s in shapes(2, dims):
                if op == 'Relu' and dt == np.int64:
                    continue
                yield Case(op, {}, [d(data(s, dt))])
    for s in shapes(3, dims):
        yield Case('Not', {}, [d(data(s, np.bool_))])
    for s in shapes(2, (1, 2, 3), 1):
        for a in (0.1, 1.0, 2.0):
            yield Case('Elu', {'alpha': a}, [d(data(s))])
            yield Case('LeakyRelu', {'alpha': a}, [d(data(s))])
            for b in (0.0, 0.5):
                yield Case('HardSigmoid', {'alpha': a, 'beta': b}, [d(data(s))])
    for s in shapes(3, (1, 2, 3), 1):
        for ax in range(-len(s), len(s)):
            for op in ('Softmax', 'LogSoftmax', 'Hardmax'):
                yield Case(op, {'axis': ax}, [d(data(s))])
    for s in shapes(2, (2, 3)):
        for lo, hi in itertools.product((None, -1.0, 0.25), (None, 0.5, 2.0)):
            ins = [d(data(s))]
            if lo is not None or hi is not None:
                ins.append(NONE if lo is None else c(np.array(lo, F)))
            if hi is not None:
                ins.append(c(np.array(hi, F)))
            yield Case('Clip', {}, ins)
            at = {}
            if lo is not None:
                at['min'] = lo
            if hi is not None:
                at['max'] = hi
            yield Case('Clip', at, [d(data(s))], opset=6)
    kinds = [np.float32, np.float64, np.float16, np.int32, np.int64, np.int8, np.uint8, np.bool_]
    code = {np.float32: 1, np.uint8: 2, np.int8: 3, np.int32: 6, np.int64: 7, np.bool_: 9, np.float16: 10, np.float64: 11}
    for a, b in itertools.product(kinds, kinds):
        x = data([2, 3], a)
        if np.dtype(b).kind == 'u' and np.dtype(a).kind != 'b':
            x = np.abs(x).astype(a) if np.dtype(a).kind != 'u' else x
        yield Case('Cast', {'to': code[b]}, [d(x)])
    for s in shapes(3, (1, 2)):
        yield Case('Cast', {'to': 7}, [d(data(s))])
    code.update({np.int16: 5, np.uint16: 4, np.uint32: 12, np.uint64: 13})
    for a in (np.int64, np.uint64, np.float64, np.int32, np.uint32, np.float32):
        for b in code:
            if b is np.float16:
                continue
            lim = min([2 ** 53 + 2] + [np.iinfo(t).max if np.dtype(t).kind in 'iu' else 2 ** 62 for t in (a, b)])
            vs = [v for v in (2 ** 53 - 1, 2 ** 31 + 1, 2 ** 31 - 1, 2 ** 24 + 1, 65535, 32769, 257, 200, 127, 3) if v <= lim]
            if np.dtype(b).kind == 'f':
                vs = [v for v in vs if np.dtype(b).type(v) == v]
            x = np.array(vs, a)
            if np.dtype(a).kind == 'f':
                x = x[x.astype(np.float64) <= lim]
            yield Case('Cast', {'to': code[b]}, [d(x)], tag='wide')


def unary_more(tier):
    big = np.array([-1000., -100., -20., -1., 0., 1., 20., 100., 1000.], F)
    for op in UNARY_F:
        for dt in (np.float64, np.float16):
            for s in ([3], [2, 3]):
                x = pos(s, dt) if op in ('Sqrt', 'Log', 'Reciprocal') else data(s, dt)
                yield Case(op, {}, [d(x)])
        if op not in ('Sqrt', 'Log', 'Reciprocal', 'Exp', 'Softplus'):
            yield Case(op, {}, [d(big)], tag='big')
            yield Case(op, {}, [d(big.reshape(3, 3))], tag='big')
        yield Case(op, {}, [d(np.array([0.5, 1.5, 2.5, 3.5], F))], tag='half')
        if op not in ('Sqrt', 'Log'):
            yield Case(op, {}, [d(np.array([-0.5, -1.5, -2.5, -3.5], F))], tag='neghalf')
        for s in ([1, 1, 2, 1, 3], [2, 1, 1, 1, 1, 2]):
            yield Case(op, {}, [d(pos(s))])
    for s in shapes(3, (1, 2, 3), 1):
        for ax in range(-len(s), len(s)):
            if s == [1, 2, 3]:
                yield Case('Softmax', {'axis': ax}, [d(data(s))], opset=11)
            yield Case('Softmax', {'axis': ax}, [d(data(s) * F(100))], tag='big')


BINARY = ['Add', 'Sub', 'Mul', 'Div', 'Pow', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal']
LOGIC = ['And', 'Or', 'Xor']
VARIADIC = ['Min', 'Max', 'Sum']


def binary(tier):
    dims = (1, 2, 3)
    rk = 3
    S = list(shapes(rk, dims)) if tier == 'thorough' else list(shapes(2, dims)) + [
        [1, 1, 1], [2, 1, 3], [1, 2, 1], [2, 2, 3], [3, 2, 1], [1, 1, 3]]
    Z = [[0], [2, 0], [1, 0], [0, 3]]
    for a, b in itertools.product(S, S):
        if bcast(a, b) is None:
            continue
        for op in BINARY:
            y = pos(b, k=1) if op in ('Div', 'Pow') else data(b, k=1)
            x = pos(a) if op == 'Pow' else data(a)
            yield Case(op, {}, [d(x), d(y)])
        for op in LOGIC:
            yield Case(op, {}, [d(data(a, np.bool_)), d(data(b, np.bool_, 1))])
        for op in VARIADIC:
            yield Case(op, {}, [d(data(a)), d(data(b, k=1))])
        # PRelu: slope unidirectionally broadcastable to x
        if bcast(a, b) == a:
            yield Case('PRelu', {}, [d(data(a)), d(data(b, k=1))])
    S2 = list(shapes(2, (1, 2))) + [[2, 1, 2]]
    for a, b, e in itertools.product(S2, S2, S2):
        if bcast(a, b, e) is None:
            continue
        for op in VARIADIC:
            yield Case(op, {}, [d(data(a)), d(data(b, k=1)), d(data(e, k=2))])
        yield Case('Where', {}, [d(data(a, np.bool_)), d(data(b)), d(data(e, k=1))])
    for a in S2:
        for op in VARIADIC:
            yield Case(op, {}, [d(data(a))])
    for a, b in itertools.product(Z, [[], [1], [3]] + Z):
        if bcast(a, b) is not None:
            yield Case('Add', {}, [d(data(a)), d(data(b))])
            yield Case('Less', {}, [d(data(b)), d(data(a))])
    # integer arithmetic, both signs
    for dt in (np.int32, np.int64):
        for a, b in [([], []), ([3], []), ([4], [4]), ([2, 3], [3])]:
            for op in ('Add', 'Sub', 'Mul', 'Div', 'Equal', 'Less', 'Greater', 'Max', 'Min'):
                x = data(a, dt)
                y = data(b, dt, 1)
                y = np.where(y == 0, np.array(2, dt), y).astype(dt)
                yield Case(op, {}, [d(x), d(y)])
    v = np.array([-7, -6, -5, -1, 0, 1, 5, 6, 7], I)
    for q in (-3, -2, 1, 2, 3):
        for dt in (np.int32, np.int64):
            yield Case('Div', {}, [d(v.astype(dt)), d(np.array([q], dt))], tag=str(q))
            yield Case('Mod', {}, [d(v.astype(dt)), d(np.array([q], dt))], tag=str(q))
            yield Case('Mod', {'fmod': 1}, [d(v.astype(dt)), d(np.array([q], dt))], tag=str(q))
        yield Case('Mod', {'fmod': 1}, [d(v.astype(F)), d(np.array([q], F))], tag=str(q))


def binary_more(tier):
    kinds = (np.float64, np.float16, np.int32, np.int64, np.uint8, np.int8)
    for dt in kinds:
        for a, b in (([2, 3], [2, 3]), ([2, 3], [3]), ([2, 1], [1, 3]), ([], [3]), ([1, 2, 1], [2, 1, 3])):
            for op in ('Add', 'Sub', 'Mul', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'Min', 'Max'):
                yield Case(op, {}, [d(data(a, dt)), d(data(b, dt, 1))])
            y = data(b, dt, 1)
            y = np.where(y == 0, np.array(3, dt), y).astype(dt)
            yield Case('Div', {}, [d(data(a, dt)), d(y)])
            if np.dtype(dt).kind == 'f':
                yield Case('Sum', {}, [d(data(a, dt)), d(data(b, dt, 1))])
            if dt in (np.float64, np.int32, np.int64):
                yield Case('Pow', {}, [d(data(a, dt)), d(np.abs(data(b, dt, 1)).astype(dt).round())])
            yield Case('Where', {}, [d(data(a, np.bool_)), d(data(b, dt)), d(data(a, dt, 1))])
    t = np.array([-2, -1, 0, 1, 2], F)
    for op in ('Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'Min', 'Max', 'Add', 'Sub', 'Mul'):
        yield Case(op, {}, [d(t), d(t.reshape(5, 1))], tag='grid')
    for op in ('And', 'Or', 'Xor'):
        yield Case(op, {}, [d(np.array([True, False])), d(np.array([[True], [False]]))], tag='grid')
    for e in (0., 1., 2., 3., -1., 0.5):
        yield Case('Pow', {}, [d(np.array([1., 2., 4., 0.25], F)), d(np.array(e, F))], tag=str(e))
        if e == int(e):
            yield Case('Pow', {}, [d(np.array([-1., -2., 3.], F)), d(np.array(e, F))], tag=str(e))
    for a, b in itertools.product([[2, 1, 1, 3, 1], [1, 2, 3, 1, 2], [1] * 5], repeat=2):
        if bcast(a, b) is not None:
            for op in ('Add', 'Mul', 'Sub', 'Div'):
                yield Case(op, {}, [d(data(a)), d(pos(b, k=1))])


def reductions_more(tier):
    for op in REDUCE:
        for dt in (np.float64, np.int32, np.int64):
            for s in ([2, 3], [2, 1, 3]):
                for ax in (None, [0], [-1], [0, 1]):
                    if op == 'ReduceL2' and np.dtype(dt).kind != 'f':
                        continue
                    ins = [d(data(s, dt))]
                    if ax is not None:
                        ins.append(ci(*ax))
                    yield Case(op, {}, ins, opset=18)
                    yield Case(op, {} if ax is None else {'axes': ax}, ins[:1], opset=11)
        for s in ([1, 2, 3, 2], [2, 2, 1, 3, 2]):
            for n in range(1, len(s) + 1):
                for ax in itertools.combinations(range(len(s)), n):
                    for kd in (0, 1):
                        yield Case(op, {'keepdims': kd}, [d(data(s)), ci(*ax)], opset=18)
    tie = np.array([[1, 3, 3, 2], [3, 3, 1, 1], [2, 2, 2, 2], [0, -1, -1, 0]], F)
    for ax in (None, 0, 1, -1, -2):
        for kd in (None, 0, 1):
            for sl in (None, 0, 1):
                at = {k: v for k, v in (('axis', ax), ('keepdims', kd), ('select_last_index', sl)) if v is not None}
                yield Case('ArgMax', at, [d(tie)], opset=13, tag='tie')
                yield Case('ArgMax', at, [d(tie[:3])], opset=13, tag='tie')
    for s in shapes(3, (1, 2, 3), 1):
        for ax in range(-len(s), len(s)):
            for dt in (np.int32, np.float64, np.int64):
                yield Case('CumSum', {}, [d(data(s, dt)), c(np.array(ax, np.int32))])


# ---------------------------------------------------------------- reductions
REDUCE = ['ReduceMean', 'ReduceSum', 'ReduceMin', 'ReduceMax', 'ReduceProd', 'ReduceL2']


def reductions(tier):
    dims = (1, 2, 3) if tier == 'thorough' else (1, 3)
    for op in REDUCE:
        for s in shapes(3, dims, 1):
            r = len(s)
            subsets = [None]
            for n in range(1, r + 1):
                subsets += list(itertools.combinations(range(r), n))
            for ax in subsets:
                variants = [ax] if ax is None else [list(ax), [a - r for a in ax], list(ax)[::-1]]
                seen = []
                for v in variants:
                    if v in seen:
                        continue
                    seen.append(v)
                    for kd in (None, 0, 1):
                        at = {} if kd is None else {'keepdims': kd}
                        old = dict(at)
                        if v is not None:
                            old['axes'] = v
                        yield Case(op, old, [d(data(s))], opset=11)
                        ins = [d(data(s))]
                        if v is not None:
                            ins.append(ci(*v))
                        yield Case(op, at, ins, opset=18)
    for op in REDUCE:
        for nz in (0, 1):
            for s in ([2], [2, 3]):
                yield Case(op, {'noop_with_empty_axes': nz}, [d(data(s))], opset=18)
                yield Case(op, {'noop_with_empty_axes': nz}, [d(data(s)), ci()], opset=18)
    for s in shapes(3, (1, 2, 3), 1):
        for ax in [None] + list(range(-len(s), len(s))):
            for kd in (None, 0, 1):
                at = {}
                if ax is not None:
                    at['axis'] = ax
                if kd is not None:
                    at['keepdims'] = kd
                yield Case('ArgMax', at, [d(data(s))], opset=13)
                if tier == 'thorough' or len(s) == 1:
                    at2 = dict(at)
                    at2['select_last_index'] = 1
                    yield Case('ArgMax', at2, [d(data(s))], opset=13)
    for s in shapes(3, (1, 2, 3), 1):
        for ax in range(-len(s), len(s)):
            for ex, rv in itertools.product((0, 1), (0, 1)):
                at = {}
                if ex:
                    at['exclusive'] = 1
                if rv:
                    at['reverse'] = 1
                yield Case('CumSum', at, [d(data(s)), c(np.array(ax, I))])
                if len(s) == 1:
                    yield Case('CumSum', at, [d(data(s)), c(np.array([ax], I))])
    for s in shapes(3, (1, 2, 3), 1):
        for ax in [None] + list(range(-len(s), len(s))):
            n = s[ax if ax is not None else -1]
            for k in range(1, n + 1):
                at = {} if ax is None else {'axis': ax}
                yield Case('TopK', at, [d(data(s)), ci(k)], nout=2)


# ---------------------------------------------------------------- matmul
def matmul(tier):
    dims = (1, 2, 3)
    mats = list(itertools.product(dims, repeat=3))
    batches = [[], [1], [2], [3], [1, 1], [1, 2], [2, 1], [3, 2], [2, 3], [3, 1], [1, 3]]
    for (m, k, n) in mats:
        bs = batches if tier == 'thorough' or (m, k, n) in ((2, 3, 1), (1, 2, 3), (3, 1, 2)) else [[], [2]]
        for b1, b2 in itertools.product(bs, bs):
            if bcast(b1, b2) is None:
                continue
            yield Case('MatMul', {}, [d(data(b1 + [m, k])), d(data(b2 + [k, n], k=1))])
    for k in dims:
        yield Case('MatMul', {}, [d(data([k])), d(data([k], k=1))])
        for n in dims:
            for b in ([], [2], [3, 2]):
                yield Case('MatMul', {}, [d(data([k])), d(data(b + [k, n], k=1))])
                yield Case('MatMul', {}, [d(data(b + [n, k])), d(data([k], k=1))])
    for (m, k, n) in mats:
        for ta, tb in itertools.product((None, 0, 1), (None, 0, 1)):
            at = {}
            if ta is not None:
                at['transA'] = ta
            if tb is not None:
                at['transB'] = tb
            A = data([k, m] if ta else [m, k])
            B = data([n, k] if tb else [k, n], k=1)
            for cs in (None, [], [1], [n], [1, n], [m, 1], [m, n]):
                ins = [d(A), d(B)]
                if cs is not None:
                    ins.append(d(data(cs, k=2)))
                yield Case('Gemm', at, ins)
    for al, be in itertools.product((None, 0.5, 2.0, 0.0), (None, 0.5, 0.0)):
        at = {}
        if al is not None:
            at['alpha'] = al
        if be is not None:
            at['beta'] = be
        for cs in (None, [3], [2, 3]):
            ins = [d(data([2, 2])), d(data([2, 3], k=1))]
            if cs is not None:
                ins.append(d(data(cs, k=2)))
            yield Case('Gemm', at, ins)
    for (m, k, n) in mats:
        yield Case('MatMulInteger', {}, [d(data([m, k], np.uint8)), d(data([k, n], np.uint8, 1))])
        yield Case('MatMulInteger', {}, [d(data([2, m, k], np.uint8)), d(data([k, n], np.uint8, 1))])
        sc = c(np.array(0.5, F))
        z = c(np.array(3, np.uint8))
        yield Case('QLinearMatMul', {}, [d(data([m, k], np.uint8)), sc, z, d(data([k, n], np.uint8, 1)), sc, z, sc, z])
        yield Case('QLinearMatMul', {}, [d(data([2, m, k], np.uint8)), sc, z, d(data([k, n], np.uint8, 1)), sc, z, sc, z])
    eqs = [('ij,jk->ik', ('ij', 'jk')), ('bij,bjk->bik', ('bij', 'bjk')), ('ij,ij->ij', ('ij', 'ij')), ('i,j->ij', ('i', 'j')),
           ('ij->ji', ('ij',)), ('ij->i', ('ij',)), ('ij->', ('ij',)), ('ij,jk', ('ij', 'jk')), ('bhqd,bhkd->bhqk', ('bhqd', 'bhkd')),
           ('ij, jk -> ik', ('ij', 'jk')), ('ba,ca', ('ba', 'ca')), ('ij,jk,kl->il', ('ij', 'jk', 'kl')), ('i,i->', ('i', 'i'))]
    for eq, terms in eqs:
        labels = sorted(set(''.join(terms)))
        for ds in itertools.product((2, 3) if len(labels) > 3 or tier != 'thorough' else (1, 2, 3), repeat=len(labels)):
            m = dict(zip(labels, ds))
            yield Case('Einsum', {'equation': eq}, [d(data([m[ch] for ch in t], k=j)) for j, t in enumerate(terms)])
    for eq, ss in [('...ij,...jk->...ik', ([2, 3], [3, 2])), ('...i->...', ([3],)), ('...ij->...ji', ([2, 3],))]:
        for b in ([], [2], [3, 2]):
            yield Case('Einsum', {'equation': eq}, [d(data(b + s, k=j)) for j, s in enumerate(ss)])
    for b1, b2 in (([2], [1]), ([1], [2]), ([2], []), ([], [3]), ([3, 1], [2])):
        yield Case('Einsum', {'equation': '...ij,...jk->...ik'}, [d(data(b1 + [2, 3])), d(data(b2 + [3, 2], k=1))])
        yield Case('Einsum', {'equation': '...ij,...jk'}, [d(data(b1 + [2, 3])), d(data(b2 + [3, 2], k=1))])
        yield Case('Einsum', {'equation': 'i...j,j...k->...ik'}, [d(data([2] + b1 + [3])), d(data([3] + b2 + [4], k=1))])
        yield Case('Einsum', {'equation': 'b...j,...jk->b...k'}, [d(data([4] + b1 + [3])), d(data(b2 + [3, 2], k=1))])
        yield Case('Einsum', {'equation': '...j,j->j...'}, [d(data(b1 + [3])), d(data([3], k=1))])


# ---------------------------------------------------------------- windows
def _padsets(nd, tier):
    if nd == 1:
        return [None, [0, 0], [1, 1], [0, 1], [1, 0], [2, 1]]
    if nd == 2:
        return [None, [1, 1, 1, 1], [0, 1, 1, 0], [1, 0, 0, 1], [1, 0, 1, 0], [0, 0, 1, 1]]
    return [None, [1, 0, 0, 0, 1, 1], [1, 1, 1, 1, 1, 1], [0, 1, 0, 1, 0, 1]]


def _win(nd, tier):
    """(spatial, kernel, strides, dilations, pads|autopad) combinations with a non-empty output."""
    T = tier == 'thorough'
    if nd == 1:
        xs = [[3], [4], [5], [7]]
        ks = [[1], [2], [3]]
        ss = [None, [1], [2], [3]]
        ds = [None, [1], [2]]
    elif nd == 2:
        xs = [[4, 5], [5, 4], [6, 6]] if not T else [[4, 5], [5, 4], [6, 6], [3, 7], [7, 4]]
        ks = [[1, 1], [2, 3], [3, 2], [3, 3]] if T else [[2, 3], [3, 2], [3, 3]]
        ss = [None, [1, 2], [2, 1], [2, 2]] if not T else [None, [1, 1], [1, 2], [2, 1], [2, 2], [2, 3]]
        ds = [None, [2, 1], [1, 2]]
    else:
        xs = [[4, 3, 5], [3, 5, 4]]
        ks = [[2, 3, 1], [1, 2, 3]]
        ss = [None, [1, 2, 1], [2, 1, 2], [1, 1, 2]]
        ds = [None, [1, 1, 2], [2, 1, 1], [1, 2, 1]]
    for x, k, s, dl in itertools.product(xs, ks, ss, ds):
        S = s or [1] * nd
        D = dl or [1] * nd
        for p in _padsets(nd, tier):
            P = p or [0] * (2 * nd)
            if any(x[i] + P[i] + P[i + nd] < D[i] * (k[i] - 1) + 1 for i in range(nd)):
                continue
            if any(P[i] >= (D[i] * (k[i] - 1) + 1) or P[i + nd] >= (D[i] * (k[i] - 1) + 1) for i in range(nd)) and p is not None and max(P) > 0:
                ok = False
            else:
                ok = True
            yield x, k, s, dl, p, None, ok
        for ap in ('SAME_UPPER', 'SAME_LOWER', 'VALID'):
            if ap == 'VALID' and any(x[i] < D[i] * (k[i] - 1) + 1 for i in range(nd)):
                continue
            yield x, k, s, dl, None, ap, True
        if dl is None:
            yield x, k, s, dl, None, 'NOTSET', True


def _wat(k, s, dl, p, ap, kernel=True):
    at = {}
    if kernel:
        at['kernel_shape'] = k
    if s is not None:
        at['strides'] = s
    if dl is not None:
        at['dilations'] = dl
    if p is not None:
        at['pads'] = p
    if ap is not None:
        at['auto_pad'] = ap
    return at


def conv(tier):
    for nd in (1, 2, 3):
        for x, k, s, dl, p, ap, ok in _win(nd, tier):
            for g, ci_, co, bias in ((1, 2, 3, 0), (1, 1, 2, 1), (2, 4, 2, 0)) if nd < 3 else ((1, 2, 2, 1), (2, 2, 2, 0)):
                if g == 2 and (dl is not None or ap is not None) and tier != 'thorough':
                    continue
                at = _wat(k, s, dl, p, ap, kernel=(bias == 0))
                if g != 1:
                    at['group'] = g
                ins = [d(data([1 if nd == 3 else 2, ci_] + x)), d(data([co, ci_ // g] + k, k=1))]
                if bias:
                    ins.append(d(data([co], k=2)))
                yield Case('Conv', at, ins)


def qconv(tier):
    for nd in (1, 2):
        for x, k, s, dl, p, ap, ok in _win(nd, 'quick'):
            at = _wat(k, s, dl, p, ap)
            yield Case('ConvInteger', at, [d(data([1, 2] + x, np.uint8)), d(data([3, 2] + k, np.uint8, 1))])
            sc = c(np.array(0.5, F))
            z = c(np.array(3, np.uint8))
            yield Case('QLinearConv', at, [d(data([1, 2] + x, np.uint8)), sc, z, d(data([3, 2] + k, np.uint8, 1)), sc, z, sc, z])


def pool(tier):
    for nd in (1, 2, 3):
        for x, k, s, dl, p, ap, ok in _win(nd, tier):
            if not ok:
                continue
            for cm in (None, 1):
                if ap is not None and cm:
                    continue
                at = _wat(k, s, dl, p, ap)
                if cm:
                    at['ceil_mode'] = 1
                yield Case('MaxPool', at, [d(data([1, 2] + x))], opset=12)
                if dl is None:
                    yield Case('MaxPool', at, [d(data([1, 2] + x))], nout=2, opset=12)
                if dl is None:
                    yield Case('AveragePool', at, [d(data([1, 2] + x))], opset=11)
    for s in ([1, 2, 3], [2, 3, 2, 4], [1, 1, 1, 1], [1, 2, 2, 3, 2]):
        yield Case('GlobalAveragePool', {}, [d(data(s))])


def convT(tier):
    for nd in (1, 2, 3):
        xs = {1: [[3], [4]], 2: [[3, 4], [4, 2]], 3: [[2, 3, 2]]}[nd]
        ks = {1: [[1], [2], [3]], 2: [[2, 3], [3, 3]], 3: [[2, 1, 3], [3, 2, 2]]}[nd]
        ss = {1: [None, [2], [3]], 2: [None, [1, 2], [2, 2], [3, 2]], 3: [None, [2, 1, 2]]}[nd]
        ds = {1: [None, [2]], 2: [None, [2, 1]], 3: [None, [1, 2, 1]]}[nd]
        ps = {1: [None, [1, 0], [1, 1]], 2: [None, [1, 0, 0, 1], [1, 1, 1, 1]], 3: [None, [1, 0, 0, 0, 1, 1]]}[nd]
        for x, k, s, dl, p in itertools.product(xs, ks, ss, ds, ps):
            S = s or [1] * nd
            D = dl or [1] * nd
            P = p or [0] * 2 * nd
            for op_ in (None, [min(1, S[i] - 1) for i in range(nd)]):
                base = [S[i] * (x[i] - 1) + (op_[i] if op_ else 0) + (k[i] - 1) * D[i] + 1 - P[i] - P[i + nd] for i in range(nd)]
                if min(base) < 1:
                    continue
                if op_ is not None and max(op_) == 0:
                    continue
                for g, ci_, co in ((1, 2, 3), (2, 4, 2)):
                    at = _wat(k, s, dl, p, None)
                    if op_ is not None:
                        at['output_padding'] = op_
                    if g > 1:
                        at['group'] = g
                    yield Case('ConvTranspose', at, [d(data([1, ci_] + x)), d(data([ci_, co] + k, k=1))])
            if p is None and dl is None:
                for ap in ('SAME_UPPER', 'SAME_LOWER', 'VALID', 'NOTSET'):
                    yield Case('ConvTranspose', _wat(k, s, None, None, ap), [d(data([1, 2] + x)), d(data([2, 3] + k, k=1))])
                osz = [S[i] * x[i] for i in range(nd)]
                if all(S[i] * (x[i] - 1) + k[i] >= osz[i] for i in range(nd)):
                    at = _wat(k, s, None, None, None)
                    at['output_shape'] = osz
                    yield Case('ConvTranspose', at, [d(data([1, 2] + x)), d(data([2, 3] + k, k=1))])


def resize(tier):
    modes = ['nearest', 'linear', 'cubic']
    for s in ([1, 2, 3, 4], [1, 1, 4, 4], [2, 1, 5, 3]):
        for m in modes:
            for sc in ([1., 1., 2., 2.], [1., 1., 1.5, 0.5], [1., 1., 0.6, 2.4], [1., 1., 3., 1.]):
                yield Case('Resize', {'mode': m}, [d(data(s)), NONE, c(np.array(sc, F))], opset=13)
                yield Case('Resize', {'mode': m}, [d(data(s)), c(np.array([], F)), c(np.array(sc, F))], opset=13)
                yield Case('Resize', {'mode': m}, [d(data(s)), c(np.array(sc, F))], opset=10)
                yield Case('Upsample', {'mode': m if m != 'cubic' else 'linear'}, [d(data(s)), c(np.array(sc, F))], opset=9)
            for z in ([s[0], s[1], 7, 5], [s[0], s[1], 2, 2], [s[0], s[1], 8, 3]):
                yield Case('Resize', {'mode': m}, [d(data(s)), NONE, NONE, ci(*z)], opset=13)
                yield Case('Resize', {'mode': m}, [d(data(s)), c(np.array([], F)), c(np.array([], F)), ci(*z)], opset=13)
            yield Case('Resize', {'mode': m, 'axes': [2, 3]}, [d(data(s)), NONE, NONE, ci(6, 5)], opset=18)
            yield Case('Resize', {'mode': m, 'axes': [2, 3]}, [d(data(s)), NONE, c(np.array([2., 3.], F))], opset=18)
    for s in ([1, 2, 4], [1, 1, 2, 3, 2]):
        for m in ('nearest', 'linear'):
            sc = [1., 1.] + [2.] * (len(s) - 2)
            yield Case('Resize', {'mode': m}, [d(data(s)), NONE, c(np.array(sc, F))], opset=13)
            yield Case('Resize', {'mode': m}, [d(data(s)), NONE, NONE, ci(*(s[:2] + [v + 1 for v in s[2:]]))], opset=13)
    for n, ch, h, w in itertools.product((1, 2), (4, 8), (1, 2), (2, 3)):
        for mo in (None, 'DCR', 'CRD'):
            at = {'blocksize': 2}
            if mo:
                at['mode'] = mo
            yield Case('DepthToSpace', at, [d(data([n, ch, h, w]))])
    for n, ch in itertools.product((1, 2), (1, 3)):
        for oh, ow in ((2, 3), (4, 1)):
            yield Case('GridSample', {}, [d(data([n, ch, 4, 3])), d(data([n, oh, ow, 2]) / 5)], opset=16)
    for nr, oh, ow in itertools.product((1, 3), (1, 2), (2, 3)):
        rois = np.tile(np.array([[0, 0, 3, 3]], F), (nr, 1))
        yield Case('RoiAlign', {'output_height': oh, 'output_width': ow}, [d(data([1, 2, 5, 5])), d(rois), d(np.zeros([nr], I))], opset=16)


# ---------------------------------------------------------------- data movement
def movement(tier):
    T = tier == 'thorough'
    dims = (1, 2, 3)
    # Transpose: every permutation
    for s in ([2], [2, 3], [2, 3, 4], [1, 2, 3, 4], [2, 1, 3, 1]):
        yield Case('Transpose', {}, [d(data(s))])
        for p in itertools.permutations(range(len(s))):
            yield Case('Transpose', {'perm': list(p)}, [d(data(s))])
    # Concat
    for s in shapes(3, (1, 2), 1):
        for ax in range(-len(s), len(s)):
            for ns in ((1,), (1, 2), (2, 1, 3)):
                ins = []
                for j, n in enumerate(ns):
                    t = list(s)
                    t[ax] = n
                    ins.append(d(data(t, k=j)))
                yield Case('Concat', {'axis': ax}, ins)
    # Split
    for s in ([4], [6], [5], [2, 6], [6, 3], [2, 4, 3], [3, 5, 2], [7]):
        for ax in [None] + list(range(-len(s), len(s))):
            at = {} if ax is None else {'axis': ax}
            n = s[0 if ax is None else ax]
            for k in (1, 2, 3):
                for parts in itertools.product(range(1, n + 1), repeat=k):
                    if sum(parts) != n:
                        continue
                    if not T and n > 5 and len(set(parts)) == 3:
                        continue
                    yield Case('Split', dict(at, split=list(parts)), [d(data(s))], nout=k, opset=11)
                    yield Case('Split', at, [d(data(s)), ci(*parts)], nout=k, opset=13)
                if n % k == 0:
                    yield Case('Split', at, [d(data(s))], nout=k, opset=13)
                    yield Case('Split', at, [d(data(s))], nout=k, opset=11)
                if n >= k and (k - 1) * (-(-n // k)) < n:
                    yield Case('Split', dict(at, num_outputs=k), [d(data(s))], nout=k, opset=18)
    # Slice: every (start, end, step) on one axis
    vals = (-6, -4, -3, -1, 0, 1, 2, 3, 5, 2 ** 31 - 1) if T else (-5, -3, -1, 0, 1, 3, 2 ** 31 - 1)
    INTMIN = -(2 ** 31)
    for n in ((4,) if not T else (1, 3, 4, 5)):
        for st, en, sp in itertools.product(vals, vals + (INTMIN,), (-2, -1, 1, 2, 3)):
            for shape, ax in (([n], 0), ([2, n, 1], 1), ([2, n], -1)):
                yield Case('Slice', {}, [d(data(shape)), ci(st), ci(en), ci(ax), ci(sp)], opset=13)
            if sp == 1:
                yield Case('Slice', {}, [d(data([n])), ci(st), ci(en)], opset=13)
                yield Case('Slice', {}, [d(data([2, n])), ci(st), ci(en), ci(1)], opset=13)
                if en > INTMIN:
                    yield Case('Slice', {'starts': [st], 'ends': [en], 'axes': [1]}, [d(data([2, n]))], opset=9)
                    yield Case('Slice', {'starts': [st], 'ends': [en]}, [d(data([n, 2]))], opset=9)
    s4 = [3, 4, 2, 5]
    for axs in ([0, 1], [1, 0], [-1, 0], [3, 1], [2, -1], [0, 1, 2, 3], [1, 2]):
        k = len(axs)
        yield Case('Slice', {}, [d(data(s4)), ci(*([1] * k)), ci(*([3] * k)), ci(*axs)], opset=13)
        yield Case('Slice', {}, [d(data(s4)), ci(*([0] * k)), ci(*([9] * k)), ci(*axs), ci(*([2] * k))], opset=13)
        yield Case('Slice', {}, [d(data(s4)), ci(*([-1] * k)), ci(*([-9] * k)), ci(*axs), ci(*([-1] * k))], opset=13)
        yield Case('Slice', {'starts': [1] * k, 'ends': [3] * k, 'axes': axs}, [d(data(s4))], opset=9)
    yield Case('Slice', {}, [d(data([3, 4])), ci(1, 1), ci(3, 3)], opset=13)
    yield Case('Slice', {'starts': [1, 1], 'ends': [3, 3]}, [d(data([3, 4]))], opset=9)
    yield Case('Slice', {}, [d(data([3, 4])), ci(1, 1), ci(3, 4), NONE, ci(1, 2)], opset=13)
    # Gather family
    for s in shapes(3, (2, 3), 1):
        for ax in [None] + list(range(-len(s), len(s))):
            at = {} if ax is None else {'axis': ax}
            n = s[0 if ax is None else ax]
            for ish in ([], [1], [3], [2, 2], [1, 2]):
                idx = (np.arange(int(np.prod(ish))).reshape(ish) * 5 + 1) % n
                yield Case('Gather', at, [d(data(s)), c(idx.astype(I))])
                yield Case('Gather', at, [d(data(s)), c((idx - n).astype(I))])
            ish = [min(v, 2) for v in s]
            idx = (np.arange(int(np.prod(ish))).reshape(ish) * 5 + 1) % n
            for dt in (np.float32, np.int64):
                yield Case('GatherElements', at, [d(data(s, dt)), c(idx.astype(I))])
            yield Case('GatherElements', at, [d(data(s)), c((idx - n).astype(I))])
            yield Case('ScatterElements', at, [d(data(s)), c(idx.astype(I)), d(data(ish, k=1))], opset=13)
    for s in shapes(3, (2, 3), 1):
        for q in range(1, len(s) + 1):
            for pre in ([], [1], [2], [2, 2]):
                idx = np.zeros(pre + [q], I)
                for i in np.ndindex(*idx.shape):
                    idx[i] = (sum(i) * 3 + 1) % s[i[-1]]
                yield Case('GatherND', {}, [d(data(s)), c(idx)])
                upd = data(pre + s[q:], k=1)
                yield Case('ScatterND', {}, [d(data(s)), c(idx), d(upd)], opset=16)
                if np.unique(idx.reshape(-1, q), axis=0).shape[0] == idx.reshape(-1, q).shape[0]:
                    for rd in ('add', 'mul'):
                        yield Case('ScatterND', {'reduction': rd}, [d(data(s)), c(idx), d(upd)], opset=16)
    for s, b, tail in (([2, 3], 1, [2, 1]), ([2, 3, 2], 1, [2, 1]), ([2, 3, 2], 1, [2, 2]), ([2, 3, 2], 2, [2, 3, 1]), ([2, 3, 2], 1, [2, 2, 2])):
        idx = np.zeros(tail, I)
        for i in np.ndindex(*tail):
            idx[i] = (sum(i)) % s[b + i[-1]]
        yield Case('GatherND', {'batch_dims': b}, [d(data(s)), c(idx)])
    # Squeeze / Unsqueeze
    for s in shapes(4, (1, 2), 1):
        ones = [i for i, v in enumerate(s) if v == 1]
        yield Case('Squeeze', {}, [d(data(s))], opset=13)
        yield Case('Squeeze', {}, [d(data(s))], opset=11)
        for n in range(1, len(ones) + 1):
            for ax in itertools.combinations(ones, n):
                vs = [list(ax), [a - len(s) for a in ax], list(ax)[::-1]]
                if n > 1:
                    vs.append([ax[0] - len(s)] + list(ax[1:]))
                seen = []
                for v in vs:
                    if v in seen:
                        continue
                    seen.append(v)
                    yield Case('Squeeze', {'axes': v}, [d(data(s))], opset=11)
                    yield Case('Squeeze', {}, [d(data(s)), ci(*v)], opset=13)
    for s in shapes(2, (2, 3)):
        for n in (1, 2):
            R = len(s) + n
            for ax in itertools.permutations(range(-R, R), n):
                if len(set(a % R for a in ax)) != n:
                    continue
                yield Case('Unsqueeze', {'axes': list(ax)}, [d(data(s))], opset=11)
                yield Case('Unsqueeze', {}, [d(data(s)), ci(*ax)], opset=13)
    # Flatten
    for s in shapes(4, (2, 3), 1):
        for ax in [None] + list(range(-len(s), len(s) + 1)):
            yield Case('Flatten', {} if ax is None else {'axis': ax}, [d(data(s))], opset=13)
    # Reshape
    for s in ([], [1], [2], [6], [2, 3], [1, 6], [2, 3, 2], [2, 1, 3, 2]):
        v = int(np.prod(s)) if s else 1
        targets = set()
        for r in range(0, 4):
            for t in itertools.product((1, 2, 3, 4, 6, 12, -1, 0), repeat=r):
                if t.count(-1) > 1:
                    continue
                if any(x == 0 and i >= len(s) for i, x in enumerate(t)):
                    continue
                full = [s[i] if x == 0 else x for i, x in enumerate(t)]
                p = int(np.prod([x for x in full if x != -1])) if full else 1
                if (-1 in full and v % p == 0 and True) or (-1 not in full and p == v):
                    targets.add(t)
        for t in sorted(targets):
            yield Case('Reshape', {}, [d(data(s)), (np.array(t, I), 'c')])
    # Expand / Tile
    for a in shapes(2, (1, 2, 3)):
        for b in shapes(3, (1, 2, 3), 1):
            if bcast(a, b) is not None:
                yield Case('Expand', {}, [d(data(a)), ci(*b)])
    for a in ([2], [3, 1], [2, 1, 2]):
        for b in itertools.product((1, 2, 3), repeat=len(a)):
            yield Case('Tile', {}, [d(data(a)), ci(*b)])
    yield Case('Expand', {}, [d(data([2, 1], np.bool_)), ci(2, 3)])
    yield Case('Expand', {}, [d(data([2, 1], I)), ci(2, 3)])
    # Pad
    for s in ([3], [3, 4], [3, 4, 5]):
        r = len(s)
        padv = list(itertools.product((0, 1, 2), repeat=2 * r)) if r <= 2 else [(0, 1, 2, 1, 0, 0), (1, 1, 1, 1, 1, 1), (0, 0, 2, 0, 1, 0)]
        for p in padv:
            for mode in (None, 'constant', 'reflect', 'edge'):
                at = {} if mode is None else {'mode': mode}
                if r == 2 and not T and mode in ('reflect', 'edge') and sum(p) not in (1, 3):
                    continue
                yield Case('Pad', at, [d(data(s)), ci(*p)], opset=13)
                if mode in (None, 'constant'):
                    yield Case('Pad', at, [d(data(s)), ci(*p), c(np.array(1.5, F))], opset=13)
                    yield Case('Pad', dict(at, pads=list(p), value=1.5), [d(data(s))], opset=2)
    for p in ([-1, 0], [0, -1], [-1, 2], [-1, -1]):
        yield Case('Pad', {}, [d(data([4])), ci(*p)], opset=13)
    for ax in ([0], [1], [-1], [1, 0], [0, 2]):
        yield Case('Pad', {}, [d(data([3, 4, 2])), ci(*([1] * len(ax) + [2] * len(ax))), c(np.array(0, F)), ci(*ax)], opset=18)
    # OneHot
    for s in ([], [2], [2, 3]):
        for ax in [None] + list(range(-len(s) - 1, len(s) + 1)):
            for dep in (2, 4):
                idx = (np.arange(int(np.prod(s)) if s else 1).reshape(s) * 3 - 1) % (2 * dep) - dep
                for vals in (np.array([0, 1], F), np.array([-1, 5], I), np.array([2.5, 0.5], F)):
                    yield Case('OneHot', {} if ax is None else {'axis': ax}, [d(idx.astype(I)), c(np.array(dep, I)), c(vals)])
                yield Case('OneHot', {} if ax is None else {'axis': ax}, [d(idx.astype(I)), ci(dep), c(np.array([0, 1], F))])
                # indices out of range
                yield Case('OneHot', {} if ax is None else {'axis': ax}, [d(idx.astype(I) * 2 + 1), ci(dep), c(np.array([3, 1], F))])
                yield Case('OneHot', {} if ax is None else {'axis': ax}, [d(np.full(s, dep, I)), ci(dep), c(np.array([3, 1], F))])
    # Trilu
    for s in ([2, 2], [3, 4], [2, 3, 3]):
        for up in (None, 0, 1):
            at = {} if up is None else {'upper': up}
            yield Case('Trilu', at, [d(data(s))])
            for k in (-2, -1, 0, 1, 2):
                yield Case('Trilu', at, [d(data(s)), c(np.array(k, I))])
    # Shape
    for s in shapes(3, (1, 2, 3)):
        yield Case('Shape', {}, [d(data(s))], opset=15)
    for s in ([2], [2, 3, 4]):
        for st in (None, -2, -1, 0, 1, 5):
            for en in (None, -2, -1, 0, 2, 9):
                at = {}
                if st is not None:
                    at['start'] = st
                if en is not None:
                    at['end'] = en
                yield Case('Shape', at, [d(data(s))], opset=15)
    # ConstantOfShape / Range
    for s in shapes(3, (1, 2, 3), 1):
        yield Case('ConstantOfShape', {}, [ci(*s)])
        for v in (np.array([2.5], F), np.array([3], I), np.array([True], np.bool_)):
            yield Case('ConstantOfShape', {'value': v}, [ci(*s)])
    for st, en, dl in itertools.product((-2, 0, 1, 5), (-3, 0, 4, 7), (-3, -1, 1, 2)):
        if dl == 0:
            continue
        yield Case('Range', {}, [c(np.array(st, I)), c(np.array(en, I)), c(np.array(dl, I))])
        yield Case('Range', {}, [c(np.array(st, F)), c(np.array(en, F)), c(np.array(dl * 0.5, F))])
    # Compress / NonZero / Where handled elsewhere
    for s in ([4], [3, 2], [2, 3, 2]):
        for ax in [None] + list(range(-len(s), len(s))):
            n = int(np.prod(s)) if ax is None else s[ax]
            for m in range(1, min(n, 4) + 1):
                for bits in itertools.product((False, True), repeat=m):
                    if not any(bits):
                        continue
                    yield Case('Compress', {} if ax is None else {'axis': ax}, [d(data(s)), c(np.array(bits))])
    for bits in itertools.product((0, 1), repeat=4):
        if any(bits):
            yield Case('NonZero', {}, [c(np.array(bits, F))])
            yield Case('NonZero', {}, [c(np.array(bits, F).reshape(2, 2))])
            yield Case('NonZero', {}, [c(np.array(bits, np.bool_).reshape(1, 4))])
    for arr in (np.array(3, I), np.arange(4, dtype=F).reshape(2, 2), np.array([1, 2], np.int32), np.array([True, False]), np.array(1.5, F)):
        yield Case('Constant', {'value': arr}, [])
    yield Case('Constant', {'value_float': 1.5}, [])
    yield Case('Constant', {'value_int': 3}, [])
    yield Case('Constant', {'value_ints': [1, 2, 3]}, [])
    yield Case('Constant', {'value_floats': [1., 2.]}, [])


# ---------------------------------------------------------------- normalisation / recurrent / quant
def norms(tier):
    for s in ([1, 2], [2, 3], [1, 2, 3], [2, 3, 2, 2], [1, 2, 3, 1], [1, 2, 2, 1, 2]):
        ch = s[1]
        ins = [d(data(s)), c(pos([ch])), c(data([ch], k=1)), c(data([ch], k=2)), c(pos([ch], k=3))]
        for e in (None, 0.1):
            yield Case('BatchNormalization', {} if e is None else {'epsilon': e}, ins, opset=9)
            yield Case('BatchNormalization', {} if e is None else {'epsilon': e}, ins, opset=15)
        yield Case('BatchNormalization', {'training_mode': 1}, ins, nout=3, opset=15)
        yield Case('Dropout', {}, ins[:1], nout=2)
        for ap in (None, 'none', 'tanh'):
            yield Case('Gelu', {} if ap is None else {'approximate': ap}, ins[:1], opset=20)
        if len(s) > 2:
            yield Case('InstanceNormalization', {}, [d(data(s)), c(pos([ch])), c(data([ch]))])
    for s in ([2, 3], [2, 3, 4], [1, 2, 3, 2]):
        for ax in [None] + list(range(-len(s), len(s))):
            a = -1 if ax is None else ax
            ns = s[a % len(s):]
            for b in (0, 1):
                ins = [d(data(s)), c(pos(ns))] + ([c(data(ns))] if b else [])
                yield Case('LayerNormalization', {} if ax is None else {'axis': ax}, ins)
                yield Case('LayerNormalization', dict({} if ax is None else {'axis': ax}, epsilon=0.01), ins)
                yield Case('LayerNormalization', {} if ax is None else {'axis': ax}, ins, nout=3)
    for s in ([1, 3, 2, 2], [2, 4, 3, 1]):
        for sz in (1, 3):
            yield Case('LRN', {'size': sz}, [d(data(s))])
    for s in ([2, 3], [1, 2, 3]):
        for ax in (None, -1, 0, 1):
            for p in (1, 2):
                at = {'p': p}
                if ax is not None:
                    at['axis'] = ax
                yield Case('LpNormalization', at, [d(data(s) + 10)])
    for seq, bt, inp, hid, nd in itertools.product((1, 3), (1, 2), (2, 3), (2, 4), (1, 2)):
        for op, g in (('LSTM', 4), ('GRU', 3)):
            at = {'hidden_size': hid}
            if nd == 2:
                at['direction'] = 'bidirectional'
            base = [d(data([seq, bt, inp])), c(data([nd, g * hid, inp])), c(data([nd, g * hid, hid]))]
            full = base + [c(data([nd, 2 * g * hid]))]
            h0 = d(data([nd, bt, hid], k=1))
            init = [h0] + ([d(data([nd, bt, hid], k=2))] if op == 'LSTM' else [])
            for more in (full + [NONE] + init, base + [NONE, NONE] + init):
                yield Case(op, at, more, nout=1, opset=14)
                yield Case(op, at, more, nout=2, opset=14)
            for no in ((1, 2, 3) if op == 'LSTM' else (1, 2)):
                yield Case(op, at, base, nout=no, opset=14)
                yield Case(op, at, full, nout=no, opset=14)
    for s in ([3], [2, 3]):
        for dt in (np.uint8, np.int8):
            yield Case('QuantizeLinear', {}, [d(data(s)), c(np.array(0.5, F)), c(np.array(2, dt))], opset=13)
            yield Case('DequantizeLinear', {}, [d(data(s, dt)), c(np.array(0.5, F)), c(np.array(2, dt))], opset=13)
        yield Case('QuantizeLinear', {}, [d(data(s)), c(np.array(0.5, F))], opset=13)
        yield Case('DequantizeLinear', {}, [d(data(s, np.uint8)), c(np.array(0.5, F))], opset=13)
    for s in ([2, 3], [1, 2, 2]):
        for ax in (0, 1):
            n = s[ax]
            yield Case('QuantizeLinear', {'axis': ax}, [d(data(s)), c(pos([n])), c(np.ones([n], np.uint8))], opset=13)
            yield Case('DequantizeLinear', {'axis': ax}, [d(data(s, np.uint8)), c(pos([n])), c(np.ones([n], np.uint8))], opset=13)
    for s in ([2, 3], [4]):
        for like in ('RandomUniformLike', 'RandomNormalLike'):
            for dt in (None, 1, 11):
                yield Case(like, {} if dt is None else {'dtype': dt}, [d(data(s))])


FAMILIES = {'unary': unary, 'unary_more': unary_more, 'binary_more': binary_more, 'reductions_more': reductions_more, 'binary': binary, 'reductions': reductions, 'matmul': matmul, 'conv': conv, 'qconv': qconv,
            'pool': pool, 'convT': convT, 'resize': resize, 'movement': movement, 'norms': norms}


# ---------------------------------------------------------------- element types
TYPES = {f'tensor({k})': v for k, v in {'float16': np.float16, 'float': np.float32, 'double': np.float64, 'int8': np.int8, 'int16': np.int16, 'int32': np.int32, 'int64': np.int64,
                                        'uint8': np.uint8, 'uint16': np.uint16, 'uint32': np.uint32, 'uint64': np.uint64, 'bool': np.bool_}.items()}


def recast(a, dt, op, j):
    k = np.dtype(dt).kind
    if a.dtype == dt:
        return a
    if k == 'u' and a.dtype.kind in 'if':
        a = np.abs(a)
    a = a.astype(dt)
    if op in ('Div', 'Mod') and j == 1 and k in 'iu':
        a = np.where(a == 0, np.array(3, dt), a).astype(dt)
    return a


def typed(families):
    """Every form (attributes present, inputs present, outputs, opset) of every operator of the families, with every element type the
    operator admits for each of its type parameters, the other parameters unchanged (all pairs in thorough)."""
    import onnx.defs

    def gen(tier):
        forms = {}
        for f in families:
            for cs in FAMILIES[f](tier):
                if cs.tag or any(a is not None and a.size == 0 for a, _ in cs.ins):
                    continue
                key = (cs.op, tuple(sorted(cs.attrs)), tuple('-' if a is None else k for a, k in cs.ins), cs.nout, cs.opset)
                l = forms.setdefault(key, [])
                rk = [a.ndim for a, _ in cs.ins if a is not None]
                if len(l) < (2 if tier != 'thorough' else 4) and rk not in [r for r, _ in l] and (not rk or max(rk) > 0):
                    l.append((rk, cs))
        for key, l in forms.items():
            if not l:
                continue
            cs0 = l[0][1]
            try:
                sch = onnx.defs.get_schema(cs0.op, cs0.opset, '')
            except Exception:
                continue
            cons = {t.type_param_str: [s for s in t.allowed_type_strs if s in TYPES] for t in sch.type_constraints}
            for _, cs in l:
                var = []
                for j in range(len(cs.ins)):
                    var.append(sch.inputs[min(j, len(sch.inputs) - 1)].type_str)
                tv = [v for v in dict.fromkeys(var) if v in cons]
                for v in tv:
                    js = [j for j, x in enumerate(var) if x == v and cs.ins[j][0] is not None]
                    if not js:
                        continue
                    for t in sorted(cons[v]):
                        ins = list(cs.ins)
                        for j in js:
                            ins[j] = (recast(ins[j][0], TYPES[t], cs.op, j), ins[j][1])
                        yield Case(cs.op, cs.attrs, ins, cs.nout, cs.opset, tag='T')
                        if tier == 'thorough':
                            for v2 in tv:
                                j2 = [j for j, x in enumerate(var) if x == v2 and cs.ins[j][0] is not None]
                                if v2 <= v or not j2:
                                    continue
                                for t2 in sorted(cons[v2]):
                                    i2 = list(ins)
                                    for j in j2:
                                        i2[j] = (recast(i2[j][0], TYPES[t2], cs.op, j), i2[j][1])
                                    yield Case(cs.op, cs.attrs, i2, cs.nout, cs.opset, tag='T')
    return gen


FAMILIES['typed_arith'] = typed(['unary', 'binary', 'reductions', 'matmul', 'unary_more', 'binary_more', 'reductions_more'])
FAMILIES['typed_norms'] = typed(['norms'])
FAMILIES['typed_window'] = typed(['conv', 'qconv', 'pool', 'convT', 'resize'])
FAMILIES['typed_move'] = typed(['movement'])
