"""C21: the compact binary formats, read back by an independent reader."""
import itertools
import math
import os
import struct
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from mc import gx, c07_roundtrip as c07, c15_engine as c15
from mc.core import tool, ToolError
from onnx_tool.serialization import serialize_graph, serialize_shape_engine, serialize_memory_compression

PID = 'C21'
TECH = 'exhaustive enumeration of attribute kinds/values, constants and small graphs on the real writers; bytes decoded by an independent reader of the layout and compared with the source'
RULE = ('graph files: every attribute kind x value alphabet (integer and float limits, empty/one/many lists, byte strings, unsupported kinds) alone and in every ordered pair on one node, set by the model or by set_attr; every model of the save/reload space of C07 (standard nodes, optional inputs, names, all constant types, encodings and shapes, all wirings up to 3 nodes); '
        'engine files: every engine of the one-step and two-variable programs of C15, decoded and run at every value; memory plans of every wiring of 2 nodes; refusals: content outside the format must raise and leave an existing file untouched')
ASSUME = ['the layout is the one the writers document by their code: little endian, counted sections, NUL terminated strings, float32 and int32 attribute values', 'attribute values given as double are stored as float32']

NPT = {1: np.float32, 3: np.float16, 0: np.int32, 5: np.int8, 6: np.uint8, 9: np.int64}


class R:
    """reader of the binary layout"""

    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise ValueError(f'file ends inside a field at {self.p}+{n} of {len(self.b)}')
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def i(self, n=4):
        return int.from_bytes(self.take(n), 'little', signed=True)

    def f(self):
        return struct.unpack('<f', self.take(4))[0]

    def s(self):
        e = self.b.index(b'\0', self.p)
        r = self.b[self.p:e]
        self.p = e + 1
        return r

    def val(self, t):
        return {0: self.i, 1: self.f, 2: self.s}[t]()

    def end(self):
        if self.p != len(self.b):
            raise ValueError(f'{len(self.b) - self.p} bytes left')


def read_graph(b):
    r = R(b)
    nodes = []
    for _ in range(r.i()):
        name, op = r.s().decode(), r.s().decode()
        ins = [r.s().decode() for _ in range(r.i())]
        outs = [r.s().decode() for _ in range(r.i())]
        at = {}
        for _ in range(r.i()):
            k = r.s().decode()
            n, t = r.i(), r.i()
            at[k] = (t, [r.val(t) for _ in range(n)])
        nodes.append((name, op, ins, outs, at))
    tens = []
    for _ in range(r.i()):
        name, t = r.s().decode(), r.i()
        sh = [r.i() for _ in range(r.i())]
        dt = np.dtype(NPT[t])
        a = np.frombuffer(r.take(int(np.prod(sh, dtype=np.int64)) * dt.itemsize), dt).reshape(sh)
        tens.append((name, a))
    r.end()
    return nodes, tens


def read_engine(b):
    r = R(b)
    var = [r.s().decode() for _ in range(r.i())]
    desc = {}
    for _ in range(r.i()):
        n = r.s().decode()
        desc[n] = []
        for _ in range(r.i()):
            t = r.i()
            v = r.val(t)
            desc[n].append(v.decode() if t == 2 else v)
    exprs = []
    for _ in range(r.i()):
        exprs.append((r.s().decode(), r.s().decode(), r.f(), r.f(), r.i(), r.i()))
    r.end()
    return var, desc, exprs


def read_memory(b):
    r = R(b)
    total = r.i(8)
    blocks = {}
    for _ in range(r.i(8)):
        k = r.s().decode()
        blocks[k] = (r.i(8), r.i(8))
    mx = {}
    for _ in range(r.i(8)):
        k = r.s().decode()
        mx[k] = r.i(8)
    r.end()
    return total, blocks, mx


def canon(v):
    """expected (type, values) of an attribute value, or None when the format cannot hold it"""
    vs = list(v) if isinstance(v, (list, tuple)) else [v]
    out, ts = [], set()
    for x in vs:
        if isinstance(x, (str, bytes)):
            x = x.encode() if isinstance(x, str) else x
            if b'\0' in x:
                return None
            ts.add(2)
        elif isinstance(x, (bool, int, np.integer)):
            x = int(x)
            if not -2 ** 31 <= x < 2 ** 31:
                return None
            ts.add(0)
        elif isinstance(x, (float, np.floating)):
            ts.add(1)
            try:
                x = struct.unpack('<f', struct.pack('<f', float(x)))[0]
            except OverflowError:
                return None
        else:
            return None
        out.append(x)
    if len(ts) > 1:
        return None
    return (ts.pop() if ts else 0), out


def same(a, b):
    if a[0] != b[0] or len(a[1]) != len(b[1]):
        return False
    return all(struct.pack('<f', x) == struct.pack('<f', y) or x != x and y != y if a[0] == 1 else x == y for x, y in zip(a[1], b[1]))


def attr_of(a):
    """value of an AttributeProto for canon(); unsupported kinds give object()"""
    A = onnx.AttributeProto
    if a.type in (A.INT, A.FLOAT, A.STRING, A.INTS, A.FLOATS, A.STRINGS):
        return {A.INT: a.i, A.FLOAT: a.f, A.STRING: a.s, A.INTS: list(a.ints), A.FLOATS: list(a.floats), A.STRINGS: list(a.strings)}[a.type]
    return object()


def check_graph(g, src_attrs, st, key):
    """g: loaded graph; src_attrs: {node name: {attr: value}} from the source (missing: the node's own)"""
    want_nodes, ok, why = [], True, ''
    for name, n in g.nodemap.items():
        at = {}
        for k, v in src_attrs.get(name, n.attr).items():
            if v is None:
                continue
            c = canon(v)
            if c is None:
                ok, why = False, f'{k}={v!r}'[:80]
            at[k] = c
        want_nodes.append((name, n.op_type, list(n.input), list(n.output), at))
    tens = []
    for t in g.initials:
        a = g.tensormap[t].numpy
        if a is None or a.dtype not in [np.dtype(x) for x in NPT.values()]:
            ok, why = False, f'{t}: {None if a is None else a.dtype}'
        tens.append((t, a))
    if any('\0' in x for nd in want_nodes for x in [nd[0]] + nd[2] + nd[3]):
        ok, why = False, 'name'
    with gx.scratch() as d:
        f = os.path.join(d, 'g.bin')
        with open(f, 'wb') as fp:
            fp.write(b'earlier content')
        try:
            tool(serialize_graph, g, f)
            err = None
        except ToolError as e:
            err = ' '.join(map(str, e.args))
        b = open(f, 'rb').read()
    st.valid()
    st.state(key, b[:2000])
    if not ok:
        st.count('refused')
        if err is None:
            yield 'unsupported-written', why
        elif b != b'earlier content':
            yield 'refusal-clobbers-file', why
        return
    if err is not None:
        yield 'supported-refused', err
        return
    try:
        nodes, ts = read_graph(b)
    except Exception as e:  # noqa
        yield 'unreadable', f'{type(e).__name__}: {e}'
        return
    if [x[:4] for x in nodes] != [x[:4] for x in want_nodes]:
        yield 'nodes', f'{[x[:4] for x in nodes]} want {[x[:4] for x in want_nodes]}'
        return
    for x, w in zip(nodes, want_nodes):
        if set(x[4]) != set(w[4]) or any(not same(x[4][k], w[4][k]) for k in w[4]):
            yield 'attributes', f'{x[0]}: {x[4]} want {w[4]}'
            return
    if [t for t, _ in ts] != [t for t, _ in tens]:
        yield 'constants', f'{[t for t, _ in ts]} want {[t for t, _ in tens]}'
        return
    for (t, a), (_, w) in zip(ts, tens):
        if a.dtype != w.dtype or a.shape != w.shape or a.tobytes() != np.ascontiguousarray(w).tobytes():
            yield 'constant-data', f'{t}: {a.dtype}{a.shape} want {w.dtype}{w.shape}'
            return


VALS = {
    'i0': 0, 'i1': 1, 'im1': -1, 'imax': 2 ** 31 - 1, 'imin': -2 ** 31, 'iover': 2 ** 31, 'iunder': -2 ** 31 - 1, 'i64': 2 ** 63 - 1,
    'f0': 0.0, 'fm0': -0.0, 'f1': 1.0, 'fdbl': 0.1, 'finf': math.inf, 'fninf': -math.inf, 'fnan': math.nan, 'fmax': 3.4028234663852886e38, 'fbig': 1e300, 'fden': 1e-45,
    's': b'', 'sa': b'NOTSET', 'su': 'é'.encode(), 'sx': b'\xff\xfe', 'snul': b'a\0b', 'snulend': b'ab\0', 'str': 'text', 'stre': '', 'strnul': 'a\0',
    'l0': [], 'l1': [3], 'l3': [1, -2, 3], 'lover': [1, 2 ** 40], 'lf1': [0.5], 'lf3': [1.0, -2.5, math.inf], 'ls1': [b'x'], 'ls3': [b'', b'ab', b'c'], 'lsnul': [b'a', b'b\0'], 'lstr': ['u', 'v'],
    'mix': [1, 2.0], 'mixs': [1, b'a'], 'tup': (1, 2), 'tup0': (), 'none': None, 'true': True, 'npi': np.int64(7), 'npi8': np.int8(-1), 'npf': np.float32(0.25), 'npd': np.float64(2.5), 'lnp': [np.int64(1), np.int64(-5)],
    'obj': object(), 'arr': np.arange(3), 'dict': {'a': 1},
}


def build_attr(keys, mode):
    """two-node graph, second node carries the attributes"""
    at = {f'a{j}_{k}': VALS[k] for j, k in enumerate(keys)}
    nodes = [helper.make_node('Foo', ['x'], ['t'], name='first', domain='verif'), helper.make_node('Foo', ['t', '', 'w'], ['y', 'é'], name='second', domain='verif'), helper.make_node('Bar', ['y'], ['z'], name='third', domain='verif', last=5)]
    if mode == 'model':
        for k, v in at.items():
            nodes[1].attribute.append(helper.make_attribute(k, v, attr_type=onnx.AttributeProto.INTS if isinstance(v, list) and not v else None))
    m = gx.model(nodes, [gx.vi('x', [2])], [gx.vi('z', [2])], [numpy_helper.from_array(np.array([1, 2, 3], np.int8), 'w')], domains=['verif'])
    g = gx.load(m)
    if mode == 'set':
        for k, v in at.items():
            g.nodemap['second'].set_attr(k, v)
    return g, {'second': at, 'first': {}, 'third': {'last': 5}}


MODELABLE = [k for k, v in VALS.items() if isinstance(v, (int, float, bytes, list)) and not isinstance(v, bool) and k not in ('mix', 'mixs', 'lnp', 'npd', 'fbig', 'lstr')]
ARR = ['float32', 'float16', 'int32', 'int8', 'uint8', 'int64', 'float64', 'bool', 'int16', 'uint16', 'uint32', 'uint64', 'complex64']


def cases(tier):
    th = tier == 'thorough'
    for mode, ks in (('model', MODELABLE), ('set', list(VALS))):
        for k in ks:
            yield f'attr/{mode}/{k}', ('a', [k], mode)
        for a in ks:
            yield f'attr2/{mode}/{a}+*', ('A', a, mode, ks)
        if th:
            for a, b in itertools.product(ks, ks):
                yield f'attr3/{mode}/{a}+{b}+*', ('A', (a, b), mode, ks)
    for dt in ARR:
        for lay in ('c', 'f', 'slice', 'bcast'):
            for sh in ((), (0,), (1,), (3,), (2, 3), (2, 0), (0, 2), (2, 3, 2), (1, 1, 1, 1), (2, 1, 3, 1, 2)):
                yield f'const/{dt}/{lay}/{sh}'.replace(' ', ''), ('c', dt, lay, sh)
    for cid, case in c07.cases(tier):
        fn, args, opt = case
        if opt in ('plain', 'inferred', 'folded', 'shape_only'):
            yield 'model/' + cid, ('m', fn, args, opt)
    n = 0
    for cid, (build, rng) in c15.cases(tier):
        if th or cid.count('>') == 0 and cid.count('+') == 0 or n % 7 == 0:
            yield 'engine/' + cid, ('e', build, rng, cid)
        n += 1
    for n in (1, 2) + ((3,) if th else ()):
        for w in gx.wirings(n, ['x'], 'ubs'):
            yield f'memory/{w!r}'.replace(' ', ''), ('p', w)
    for v in (0, 1, -1, 2 ** 31, 2 ** 40, 2 ** 62):
        yield f'memval/{v}', ('v', v)


def run_case(cid, p, st):
    k = p[0]
    if k == 'a':
        g, at = build_attr(p[1], p[2])
        yield from check_graph(g, at, st, cid)
    elif k == 'A':
        first = (p[1],) if isinstance(p[1], str) else p[1]
        for b in p[3]:
            g, at = build_attr(first + (b,), p[2])
            for sig, d in check_graph(g, at, st, (cid, b)):
                yield sig, f'{first}+{b}: {d}'
                return
    elif k == 'c':
        _, dt, lay, sh = p
        n = int(np.prod(sh, dtype=int))
        a = np.arange(n).reshape(sh)
        a = np.asarray(a * 37 % 251).astype(dt)
        if lay == 'f':
            a = np.asfortranarray(a)
        elif lay == 'slice' and a.ndim:
            a = np.concatenate([a, a], axis=-1)[..., ::2]
        elif lay == 'bcast':
            a = np.broadcast_to(a, (2,) + a.shape)
        g, at = build_attr(['i1'], 'set')
        tool(g.add_initial, 'é_const', a)
        tool(g.add_initial, 'after', np.arange(2, dtype=np.int32))
        yield from check_graph(g, at, st, cid)
    elif k == 'm':
        _, fn, args, opt = p
        m = fn(*args)
        custom = any(n.domain for n in m.graph.node)
        if custom and opt in ('inferred', 'folded') or opt == 'inferred' and 'type16' in cid:
            return
        try:
            g = gx.load(m, **({'constant_folding': True} if opt == 'folded' else {}))
            if opt == 'inferred':
                tool(g.shape_infer, c07.feeds(m))
        except ToolError:
            st.count('load_declined')      # C07 judges loading
            return
        src = {}
        byname = {}
        for n in m.graph.node:
            if n.name:
                byname[n.name] = {a.name: attr_of(a) for a in n.attribute}
        for name, n in g.nodemap.items():
            if name in byname:
                src[name] = byname[name]
            else:
                src[name] = {a.name: attr_of(a) for a in n.proto.attribute}
        if opt == 'folded':
            src = {nm: a for nm, a in src.items() if nm in byname}
        yield from check_graph(g, src, st, cid)
    elif k == 'e':
        yield from engine(p[1], p[2], p[3], st)
    elif k == 'p':
        w = p[1]
        ts = ['x'] + [o for nd in w for o in nd.o]
        m = gx.model([helper.make_node('Foo', list(nd.i), list(nd.o), name=f'n{j}', domain='verif') for j, nd in enumerate(w)], [gx.vi('x', [4])],
                     [gx.vi(o, [4]) for o in gx.sinks(w)], domains=['verif'], value_info=[gx.vi(o, [4]) for nd in w for o in nd.o if o not in gx.sinks(w)])
        g = gx.load(m)
        for sizes in itertools.product([1, 16, 2 ** 20], repeat=len(ts)):
            for t, s in zip(ts, sizes):
                g.tensormap[t].update_shape([s])
            mem = tool(g.compress_memory)
            for mx in ({}, {'h': 224, 'é': 2 ** 33}):
                v = memory(mem, mx, st)
                if v:
                    yield v
                    return
    else:
        v = memory(({'a': [p[1], 3], 'b': [5, p[1]]}, p[1]), {'h': p[1]}, st)
        if v:
            yield v


def memory(mem, mx, st):
    with gx.scratch() as d:
        f = os.path.join(d, 'm.bin')
        tool(serialize_memory_compression, mem, mx, f)
        b = open(f, 'rb').read()
    st.valid()
    st.state('mem', b)
    try:
        total, blocks, m2 = read_memory(b)
    except Exception as e:  # noqa
        return 'memory-unreadable', str(e)
    if total != mem[1] or blocks != {k: tuple(v) for k, v in mem[0].items()} or list(blocks) != list(mem[0]) or m2 != mx:
        return 'memory', f'{total} {blocks} {m2}'
    return None


def engine(build, rng, cid, st):
    b, desc = build()
    dt = TP.INT64 if cid.startswith('bert') else TP.FLOAT
    used = {t for n in b.nodes for t in n.input}
    outs = [helper.make_tensor_value_info(o, 0, None) for n in b.nodes for o in n.output if o not in used]
    for o in outs:
        o.ClearField('type')
    m = gx.model(b.nodes, [helper.make_tensor_value_info(k, dt, list(desc[k])) for k in desc], outs, b.inits)
    g = gx.load(m)
    eng = tool(g.shape_regress, {k: list(v) for k, v in desc.items()}, {k: tuple(v) for k, v in rng.items()})
    with gx.scratch() as d:
        f = os.path.join(d, 'e.bin')
        tool(serialize_shape_engine, eng, f)
        raw = open(f, 'rb').read()
    st.state(cid, raw)
    try:
        var, ds, ex = read_engine(raw)
    except Exception as e:  # noqa
        yield 'engine-unreadable', str(e)
        return
    if set(ds) != set(eng.tensor_desc):
        yield 'engine-tensors', f'{sorted(set(ds) ^ set(eng.tensor_desc))}'
        return
    keys = list(rng)
    spaces = [range(rng[k][0], rng[k][1] + 1) for k in keys]
    pts = list(itertools.product(*spaces)) if len(keys) == 1 else [p for p in itertools.product(*[sorted({s[0], s[-1], *list(s)[1::3]}) for s in spaces])][:400]
    for p in pts:
        env = {v: 0 for v in var}
        for k, v in zip(keys, p):
            if k not in env:
                yield 'engine-variables', f'{k} not among {var}'
                return
            env[k] = v
            eng.update_variable(k, v)
        tool(eng.update_variables)
        for name, src, al, be, fac, tr in ex:
            y = al * env[src] + be if fac == 0 else env[src] / al + be
            env[name] = math.ceil(y) if tr == 0 else math.floor(y)
        st.valid()
        for t in ds:
            a = [v if isinstance(v, int) else env[v] for v in ds[t]]
            w = [int(x) for x in tool(eng.get_tensorshape, t)]
            if a != w:
                yield 'engine-prediction', f'{t} at {dict(zip(keys, p))}: file says {a}, engine {w}'
                return
