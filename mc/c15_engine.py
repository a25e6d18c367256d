"""C15: the dynamic-shape engine against plain shape inference, for every value of the variables in range."""
import itertools
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto
from mc import gx
from mc.core import tool, ToolError

PID = 'C15'
TECH = 'exhaustive enumeration of step programs x variable ranges; every value in range is replayed against plain shape inference of a freshly loaded graph'
RULE = ('programs over an input [1,4,v] made of every step, every ordered pair of steps and every pair of parallel branches (and every triple over a reduced alphabet; all in thorough) from about 40 steps: convolution '
        '(kernel, stride, padding, dilation), pooling with floor and ceil, transposed convolution, resize up/down, concat with itself/a constant/a shifted copy, slice from start/end/with step/reversed, pad, reshape, tile, transpose, expand, range and '
        'shape chains dividing, multiplying and shifting a dimension; two- and three-variable programs (every sequence of three (thorough: four) steps on either or both of two axes, batch, height, width with different strides; two inputs); x several ranges per program; for every value (or every value of each variable plus a full product for small ranges) all tensors are compared')
ASSUME = ['every dimension is an integer-slope linear function, or the floor or ceiling of a division by an integer, of one variable or one dimension computed before; the divisor with respect to the variable is at most 16 and ranges span several periods of each division',
          'plain shape inference is checked by C01-C06; a value of each program is executed by the ONNX reference evaluator']

F32, I64 = TensorProto.FLOAT, TensorProto.INT64


class B:
    def __init__(self):
        self.nodes, self.inits, self.n = [], [], 0

    def nm(self, p='t'):
        self.n += 1
        return f'{p}{self.n}'

    def const(self, arr):
        n = self.nm('c')
        self.inits.append(numpy_helper.from_array(np.asarray(arr), n))
        return n

    def op(self, op, ins, nout=1, **attrs):
        outs = [self.nm() for _ in range(nout)]
        self.nodes.append(helper.make_node(op, ins, outs, name=self.nm('n'), **attrs))
        return outs[0] if nout == 1 else outs


def conv(k, s, p, d=1):
    def f(b, x):
        w = b.const(np.ones((4, 4, k), np.float32))
        return b.op('Conv', [x, w], kernel_shape=[k], strides=[s], pads=list(p), dilations=[d])
    return f


def conv_auto(k, s, mode):
    def f(b, x):
        w = b.const(np.ones((4, 4, k), np.float32))
        return b.op('Conv', [x, w], kernel_shape=[k], strides=[s], auto_pad=mode)
    return f


def pool(op, k, s, p, ceil):
    return lambda b, x: b.op(op, [x], kernel_shape=[k], strides=[s], pads=list(p), ceil_mode=ceil)


def convt(k, s, p, op=0):
    def f(b, x):
        w = b.const(np.ones((4, 4, k), np.float32))
        return b.op('ConvTranspose', [x, w], kernel_shape=[k], strides=[s], pads=list(p), output_padding=[op])
    return f


def resize(f3):
    return lambda b, x: b.op('Resize', [x, '', b.const(np.array([1, 1, f3], np.float32))], mode='nearest')


def i64(*v):
    return np.array(v, np.int64)


def sl(start, end, step):
    return lambda b, x: b.op('Slice', [x, b.const(i64(start)), b.const(i64(end)), b.const(i64(2)), b.const(i64(step))])


def dim(b, x, k=2):
    s = b.op('Shape', [x])
    return b.op('Gather', [s, b.const(i64(k))], axis=0)


def chain(fn):
    """reshape [1,4,n] to [1,4/m,n*m]-like targets computed from the shape"""
    def f(b, x):
        return fn(b, x)
    return f


def reshape_div(b, x):          # [1,4,n] -> [1, n, 4] by a computed dimension, back to 3-D with channel 4 last -> transpose
    d = dim(b, x)
    t = b.op('Concat', [b.const(i64(1)), d, b.const(i64(4))], axis=0)
    y = b.op('Reshape', [x, t])
    return b.op('Transpose', [y], perm=[0, 2, 1])


def reshape_mul(b, x):          # [1,4,n] -> [1,1,4n] -> tile channels to 4
    d = b.op('Mul', [dim(b, x), b.const(i64(4))])
    t = b.op('Concat', [b.const(i64(1, 1)), d], axis=0)
    y = b.op('Reshape', [x, t])
    return b.op('Tile', [y, b.const(i64(1, 4, 1))])


def expand_chain(op, c):        # an expanded one whose length is computed from the shape
    def f(b, x):
        d = b.op(op, [dim(b, x), b.const(i64(c))])
        t = b.op('Concat', [b.const(i64(1, 4)), d], axis=0)
        return b.op('Expand', [b.const(np.ones((1, 4, 1), np.float32)), t])
    return f


def expand_div_add(b, x):
    d = b.op('Add', [b.op('Div', [dim(b, x), b.const(i64(3))]), b.const(i64(2))])
    t = b.op('Concat', [b.const(i64(1, 4)), d], axis=0)
    return b.op('Expand', [b.const(np.ones((1, 4, 1), np.float32)), t])


def range_chain(b, x):
    d = b.op('Gather', [b.op('Shape', [x]), b.const(np.array(2, np.int64))], axis=0)
    r = b.op('Range', [b.const(np.array(0, np.int64)), d, b.const(np.array(3, np.int64))])
    r = b.op('Cast', [r], to=F32)
    r = b.op('Unsqueeze', [r, b.const(i64(0, 1))])
    return b.op('Expand', [r, b.const(i64(1, 4, 1))])


def slice_dim(b, x):            # first half, computed from the shape
    d = b.op('Div', [dim(b, x), b.const(i64(2))])
    return b.op('Slice', [x, b.const(i64(0)), d, b.const(i64(2)), b.const(i64(1))])


def slice_dim2(b, x):           # second half: n - n/2
    d = b.op('Div', [dim(b, x), b.const(i64(2))])
    return b.op('Slice', [x, d, b.const(i64(2 ** 40)), b.const(i64(2)), b.const(i64(1))])


def split3(b, x):
    d = dim(b, x)
    s = b.op('Concat', [b.const(i64(2)), b.op('Sub', [d, b.const(i64(2))])], axis=0)
    a, c = b.op('Split', [x, s], 2, axis=2)
    return c


def resize_sizes(b, x):
    d = b.op('Mul', [dim(b, x), b.const(i64(2))])
    t = b.op('Concat', [b.const(i64(1, 4)), d], axis=0)
    return b.op('Resize', [x, '', '', t], mode='nearest')


def pad_dim(b, x):
    d = dim(b, x)
    z = b.const(i64(0))
    t = b.op('Concat', [z, z, z, z, z, d], axis=0)
    return b.op('Pad', [x, t])


def neg_slope(b, x):            # 100 - n
    d = b.op('Sub', [b.const(i64(400)), dim(b, x)])
    t = b.op('Concat', [b.const(i64(1, 4)), d], axis=0)
    return b.op('Expand', [b.const(np.ones((1, 4, 1), np.float32)), t])


STEPS = {
    'relu': lambda b, x: b.op('Relu', [x]),
    'conv3': conv(3, 1, (1, 1)), 'conv3v': conv(3, 1, (0, 0)), 'conv3s2': conv(3, 2, (1, 1)), 'conv3s2a': conv(3, 2, (0, 1)), 'conv2s2': conv(2, 2, (0, 0)),
    'conv1s2': conv(1, 2, (0, 0)), 'conv3s3': conv(3, 3, (0, 0)), 'conv2s3': conv(2, 3, (1, 0)), 'conv3d2': conv(3, 1, (2, 2), 2), 'conv3s2d2': conv(3, 2, (2, 2), 2), 'conv4s4': conv(4, 4, (0, 0)),
    'convsame2': conv_auto(3, 2, 'SAME_UPPER'), 'convvalid3': conv_auto(2, 3, 'VALID'),
    'mp2': pool('MaxPool', 2, 2, (0, 0), 0), 'mp2c': pool('MaxPool', 2, 2, (0, 0), 1), 'mp3s2': pool('MaxPool', 3, 2, (1, 1), 0), 'mp3s2c': pool('MaxPool', 3, 2, (0, 0), 1), 'ap3s3': pool('AveragePool', 3, 3, (0, 0), 0), 'ap2s1': pool('AveragePool', 2, 1, (0, 0), 0),
    'ct2': convt(2, 2, (0, 0)), 'ct3s2': convt(3, 2, (1, 1)), 'ct3s2o': convt(3, 2, (1, 1), 1), 'ct4s3': convt(4, 3, (0, 0)),
    'up2': resize(2.0), 'up3': resize(3.0), 'down2': resize(0.5), 'down4': resize(0.25),
    'cat2': lambda b, x: b.op('Concat', [x, x], axis=2), 'catc': lambda b, x: b.op('Concat', [x, b.const(np.ones((1, 4, 3), np.float32))], axis=2),
    'cat_shift': lambda b, x: b.op('Concat', [x, b.op('Slice', [x, b.const(i64(1)), b.const(i64(2 ** 31)), b.const(i64(2))])], axis=2),
    'sl1': sl(1, 2 ** 31, 1), 'sl_e2': sl(0, -2, 1), 'sl_s2': sl(0, 2 ** 31, 2), 'sl1_s3': sl(1, 2 ** 31, 3), 'sl_rev': sl(-1, -2 ** 40, -1), 'sl_rev2': sl(-2, -2 ** 40, -2),
    'pad': lambda b, x: b.op('Pad', [x, b.const(i64(0, 0, 2, 0, 0, 1))]), 'padneg': lambda b, x: b.op('Pad', [x, b.const(i64(0, 0, -1, 0, 0, 0))]),
    'tile3': lambda b, x: b.op('Tile', [x, b.const(i64(1, 1, 3))]),
    'rdiv': reshape_div, 'rmul': reshape_mul, 'xdiv2': expand_chain('Div', 2), 'xmul3': expand_chain('Mul', 3), 'xadd5': expand_chain('Add', 5), 'xdiv3a2': expand_div_add, 'range3': range_chain,
    'half': slice_dim, 'half2': slice_dim2, 'split': split3, 'rsize2': resize_sizes, 'paddim': pad_dim, 'neg': neg_slope,
}
SHORT = ['conv3s2', 'conv2s3', 'mp2c', 'mp2', 'ct3s2o', 'up2', 'cat2', 'catc', 'sl_s2', 'sl_e2', 'half2', 'xdiv3a2', 'rmul']
MID = ['conv3v', 'conv3s2', 'conv2s2', 'conv3s3', 'mp2c', 'mp3s2', 'ct2', 'ct3s2', 'up2', 'down2', 'cat2', 'cat_shift', 'sl1_s3', 'sl_rev2', 'padneg', 'half', 'xdiv2', 'xadd5', 'range3']


def pipe(names):
    def build():
        b = B()
        x = 'x'
        for n in names:
            x = STEPS[n](b, x)
        b.op('Relu', [x])
        return b, {'x': [1, 4, 'v']}
    return build


def fork(na, nb, post=()):
    """two branches from the input in the same model"""
    def build():
        b = B()
        x = b.op('Relu', ['x'])
        for ns in (na, nb):
            y = x
            for n in ns:
                y = STEPS[n](b, y)
            b.op('Relu', [y])
        return b, {'x': [1, 4, 'v']}
    return build


def skip(na):
    """resnet style: the same shape reached by two paths and added"""
    def build():
        b = B()
        y = STEPS[na](b, 'x')
        z = STEPS[na](b, b.op('Relu', ['x']))
        s = b.op('Add', [y, z])
        s = STEPS['conv3'](b, s)
        b.op('Relu', [s])
        return b, {'x': [1, 4, 'v']}
    return build


def conv2d(k, s, p):
    def build():
        b = B()
        w = b.const(np.ones((4, 3) + k, np.float32))
        y = b.op('Conv', ['x', w], kernel_shape=list(k), strides=list(s), pads=list(p))
        w2 = b.const(np.ones((4, 4, 3, 3), np.float32))
        y = b.op('Conv', [y, w2], kernel_shape=[3, 3], strides=[s[1], s[0]], pads=[1, 1, 1, 1])
        y = b.op('MaxPool', [y], kernel_shape=[2, 2], strides=[2, 2], ceil_mode=1)
        y = b.op('Transpose', [y], perm=[0, 2, 3, 1])
        b.op('Relu', [y])
        return b, {'x': ['b', 3, 'h', 'w']}
    return build


def twoinputs(order, na, nb):
    def build():
        b = B()
        y = STEPS[na](b, 'x')
        z = STEPS[nb](b, 'y')
        y2 = b.op('Transpose', [y], perm=[0, 2, 1])          # [1,p,4]
        b.op('MatMul', [y2, z])                               # [1,p,q]
        c = b.op('Concat', [b.op('Shape', [y]), b.op('Shape', [z])], axis=0)
        b.op('Expand', [b.const(np.ones((1,), np.float32)), c])
        d = {'x': [1, 4, 'v'], 'y': [1, 4, 'u']}
        return b, {k: d[k] for k in order}
    return build


def sharedvar(na, nb):
    """the same variable in two inputs"""
    def build():
        b = B()
        y = STEPS[na](b, b.op('Add', ['x', 'y']))
        z = STEPS[nb](b, 'y')
        b.op('Relu', [y])
        b.op('Relu', [z])
        return b, {'x': [1, 4, 'v'], 'y': [1, 4, 'v']}
    return build


def bert():
    def build():
        b = B()
        h = b.op('Gather', [b.const(np.ones((7, 4), np.float32)), 'x'], axis=0)          # [b,s,4]
        w = b.const(np.ones((4, 4), np.float32))
        q = b.op('MatMul', [h, w])
        sh = b.op('Shape', [q])
        bd = b.op('Gather', [sh, b.const(i64(0))], axis=0)
        sd = b.op('Gather', [sh, b.const(i64(1))], axis=0)
        q4 = b.op('Reshape', [q, b.op('Concat', [bd, sd, b.const(i64(2, 2))], axis=0)])
        q4 = b.op('Transpose', [q4], perm=[0, 2, 1, 3])
        k4 = b.op('Transpose', [q4], perm=[0, 1, 3, 2])
        a = b.op('Softmax', [b.op('MatMul', [q4, k4])])
        o = b.op('Transpose', [b.op('MatMul', [a, q4])], perm=[0, 2, 1, 3])
        o = b.op('Reshape', [o, b.op('Concat', [bd, sd, b.const(i64(4))], axis=0)])
        o = b.op('Reshape', [o, b.const(i64(0, -1))])         # [b, 4s]
        b.op('Relu', [o])
        return b, {'x': ['b', 's']}
    return build


# steps on one or both of two variable axes
PLANE = {'h2': ((2, 1), (2, 1)), 'w2': ((1, 2), (1, 2)), 'w3': ((1, 3), (1, 3)), 'hw': ((2, 2), (2, 2)), 'wv': ((1, 3), (1, 1))}


def plane(steps):
    def build():
        b = B()
        x = 'x'
        for n in steps:
            k, s = PLANE[n]
            x = b.op('MaxPool', [x], kernel_shape=list(k), strides=list(s))
        b.op('Relu', [x])
        return b, {'x': [1, 2, 'h', 'w']}
    return build


def progs(tier):
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for t in itertools.product(PLANE, repeat=n):
            for o in (('h', 'w'), ('w', 'h')):
                yield f'plane({"-".join(o)},{"-".join(t)})', plane(t), {v: {'h': (24, 45), 'w': (36, 80)}[v] for v in o}
    R = [(16, 48), (33, 80)]
    for n in STEPS:
        for r in R + [(64, 224)]:
            yield f'{n}@{r[0]}-{r[1]}', pipe([n]), {'v': r}
        yield f'skip({n})', skip(n), {'v': (24, 72)}
    for a, b in itertools.product(STEPS, repeat=2):
        if tier == 'thorough' or a in SHORT or b in SHORT or (a in MID and b in MID):
            yield f'{a},{b}', pipe([a, b]), {'v': (32, 96)}
        if a < b and (tier == 'thorough' or a in SHORT or b in SHORT):
            yield f'{a}|{b}', fork([a], [b]), {'v': (32, 96)}
    for t in itertools.product(SHORT if tier != 'thorough' else sorted(set(SHORT + MID)), repeat=3):
        yield ','.join(t), pipe(list(t)), {'v': (48, 144)}
    for k, s, p in itertools.product([(1, 1), (3, 3), (2, 3)], [(1, 1), (2, 2), (1, 2), (2, 1), (3, 2)], [(0, 0, 0, 0), (1, 1, 1, 1), (1, 0, 0, 1)]):
        yield f'conv2d{k}{s}{p}'.replace(' ', ''), conv2d(k, s, p), {'b': (1, 4), 'h': (32, 72), 'w': (40, 80)}
        if tier == 'thorough':
            yield f'conv2d{k}{s}{p}rev'.replace(' ', ''), conv2d(k, s, p), {'w': (224, 299), 'h': (224, 299), 'b': (1, 4)}
    for na, nb in itertools.product(SHORT if tier != 'thorough' else STEPS, SHORT):
        for o in ('xy', 'yx'):
            yield f'two({o},{na},{nb})', twoinputs(o, na, nb), {'v': (32, 64), 'u': (40, 96)}
        yield f'shared({na},{nb})', sharedvar(na, nb), {'v': (32, 96)}
    yield 'bert', bert(), {'b': (1, 4), 's': (16, 80)}
    yield 'bert-rev', bert(), {'s': (16, 80), 'b': (1, 4)}


def cases(tier):
    for cid, build, rng in progs(tier):
        yield cid, (build, rng)


def slow(want, pts, tensor, axis):
    """divisor of the dimension above the stated bound: it keeps one value over more than 16 consecutive values of the variable"""
    if len(pts[0]) != 1:
        return False
    run, best, last = 0, 0, None
    for p in pts:
        v = want[p][tensor][axis]
        run = run + 1 if v == last else 1
        last = v
        best = max(best, run)
    return 16 < best < len(pts)


def run_case(cid, payload, st):
    build, rng = payload
    b, desc = build()
    names = list(desc)
    dt = I64 if cid.startswith('bert') else F32
    used = {t for n in b.nodes for t in n.input}
    outs = [helper.make_tensor_value_info(o, 0, None) for n in b.nodes for o in n.output if o not in used]
    for o in outs:
        o.ClearField('type')
    m = gx.model(b.nodes, [helper.make_tensor_value_info(k, dt, [d if isinstance(d, int) else d for d in desc[k]]) for k in desc], outs, b.inits)
    keys = list(rng)
    # values to visit: full product when small, else every value of each variable with the others at both ends and the middle
    spaces = [range(rng[k][0], rng[k][1] + 1) for k in keys]
    pts = set()
    if len(keys) == 1:
        pts = {(v,) for v in spaces[0]}
    else:
        tri = [sorted({s[0], (s[0] + s[-1]) // 2, s[-1]}) for s in spaces]
        for i in range(len(keys)):
            for v in spaces[i]:
                for rest in itertools.product(*[tri[j] for j in range(len(keys)) if j != i]):
                    p = list(rest)
                    p.insert(i, v)
                    pts.add(tuple(p))
    pts = sorted(pts)

    ref = gx.load(m)
    dyn = None
    want = {}
    for p in pts:
        env = dict(zip(keys, p))
        feeds = {k: np.zeros([d if isinstance(d, int) else env[d] for d in desc[k]]) for k in desc}
        tool(ref.shape_infer, feeds)
        dyn = list(ref.dynamics)
        want[p] = {t: [int(s) for s in ref.tensormap[t].get_shape()] for t in dyn}
    # domain: along each variable every dimension is linear with at most one division
    st.count('points', len(pts))
    mid = pts[len(pts) // 2]
    env = dict(zip(keys, mid))
    try:
        from onnx.reference import ReferenceEvaluator
        m2 = onnx.ModelProto()
        m2.CopyFrom(m)
        del m2.graph.output[:]
        names_all = [o for n in b.nodes for o in n.output]
        m2.graph.output.extend([helper.make_tensor_value_info(o, 0, None) for o in names_all])
        rr = ReferenceEvaluator(m2).run(None, {k: np.zeros([d if isinstance(d, int) else env[d] for d in desc[k]], np.int64 if dt == I64 else np.float32) for k in desc})
        for o, v in zip(names_all, rr):
            if o in want[mid] and list(np.shape(v)) != want[mid][o]:
                yield 'plain-inference', f'{o} at {env}: inference says {want[mid][o]}, execution gives {list(np.shape(v))}'
        st.valid()
    except Exception as e:
        st.count('reference_refused')
        st.sample({'ref': cid, 'e': repr(e)[:100]}, 1)
    g = gx.load(m)
    before = {k: list(v) for k, v in desc.items()}
    eng = tool(g.shape_regress, {k: list(v) if i % 2 else tuple(v) for i, (k, v) in enumerate(desc.items())}, {k: tuple(v) for k, v in rng.items()})
    bad = {}
    skipped = {t for t in dyn if any(slow(want, pts, t, a) for a in range(len(want[pts[0]][t])))}
    if skipped:
        st.count('tensors_beyond_divisor_bound', len(skipped))
        dyn = [t for t in dyn if t not in skipped]
    for p in pts:
        for k, v in zip(keys, p):
            eng.update_variable(k, v)
        tool(eng.update_variables)
        for t in dyn:
            got = [int(s) for s in tool(eng.get_tensorshape, t)]
            if got != want[p][t]:
                bad.setdefault(t, (dict(zip(keys, p)), got, want[p][t]))
        st.outcome(cid, p, tuple(map(tuple, want[p].values())))
    if bad:
        t = next(iter(bad))
        prod = [n.op_type for n in b.nodes if t in n.output]
        yield f'prediction:{prod[0] if prod else "input"}', f'{t} {bad[t]}'
    if before != desc:
        yield 'input-desc-modified', str(desc)
    # model level entry point gives the same engine
    import onnx_tool
    e2, cg = tool(onnx_tool.model_shape_regress, m, {k: list(v) for k, v in desc.items()}, {k: tuple(v) for k, v in rng.items()})
    for p in (pts[0], pts[len(pts) // 3], pts[-1]):
        for k, v in zip(keys, p):
            e2.update_variable(k, v)
        tool(e2.update_variables)
        for t in dyn:
            if [int(s) for s in tool(e2.get_tensorshape, t)] != want[p][t] and t not in bad:
                yield 'model-entry', f'{t} at {p}: {e2.get_tensorshape(t)} != {want[p][t]}'
                return
