"""C24: the model-level utilities and the command line, over all combinations of their options on small models."""
import contextlib
import csv
import functools
import io
import itertools
import os
import pathlib
import runpy
import shutil
import sys
import tempfile
import warnings
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
import onnx_tool
from mc import core, gx
from mc.core import tool
from mc.c11_subgraph import oracle_parts

PID = 'C24'
TECH = 'exhaustive enumeration of option combinations of every model-level utility and of the command line on small models; written files are compared with what was asked for and executed'
RULE = ('nine models (static and symbolic shapes with interior shape records, integer inputs, shapes decided by input data, two outputs, shared and slashed names, custom domains, default-valued and unused inputs, a conditional) x '
        '{every combination of requested input/output shapes for io modification; every subset of up to three of nine initialisers (twelve kinds of names, six types, ranks 0-3) for export x half precision x folders; every combination of saved report, saved model, weights, '
        'shape records, input shapes and loading form for profiling; every pair of boundary tensors and every node subset for sub-models and fusion; every utility on ten kinds of things which are no model; every pair of dumped tensors; reordering, folding; shape regression with nodes in both orders}; '
        'the command line with every mode x option combination and every input description (nine type names x shapes x data), compared with the library call')
ASSUME = ['the ONNX reference evaluator is correct', 'the nine models represent larger ones']
nd = helper.make_node
F = np.float32


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif_c24_')
    try:
        yield d
    finally:
        shutil.rmtree(d, True)


def vi(n, s, t=TP.FLOAT):
    return helper.make_tensor_value_info(n, t, s)


def ini(n, a):
    return numpy_helper.from_array(np.asarray(a), n)


def rnd(*s):
    return ((np.arange(int(np.prod(s))) * 7 % 11 - 5) / 4).astype(F).reshape(s)


@functools.lru_cache(None)
def models():
    ms = {}
    cnn = gx.model([nd('Conv', ['x', 'w', 'b'], ['c'], name='conv', pads=[1, 1, 1, 1]), nd('Relu', ['c'], ['r'], name='relu'), nd('MaxPool', ['r'], ['p'], name='pool', kernel_shape=[2, 2], strides=[2, 2]),
                    nd('GlobalAveragePool', ['p'], ['g'], name='gap'), nd('Flatten', ['g'], ['f'], name='flat'), nd('Gemm', ['f', 'fw', 'fb'], ['y'], name='fc')],
                   [vi('x', [1, 3, 8, 8])], [vi('y', [1, 5])], [ini('w', rnd(4, 3, 3, 3)), ini('b', rnd(4)), ini('fw', rnd(4, 5)), ini('fb', rnd(5))], opset=17)
    ms['cnn'] = onnx.shape_inference.infer_shapes(cnn)
    sym = onnx.ModelProto()
    sym.CopyFrom(cnn)
    for j, d in enumerate(['N', 3, 'H', 'W']):
        if isinstance(d, str):
            sym.graph.input[0].type.tensor_type.shape.dim[j].dim_param = d
    sym.graph.output[0].type.tensor_type.shape.dim[0].dim_param = 'N'
    ms['sym'] = onnx.shape_inference.infer_shapes(sym)
    ms['seq'] = gx.model([nd('Gather', ['emb', 'ids'], ['e'], name='emb'), nd('Shape', ['ids'], ['s'], name='shape'), nd('Concat', ['s', 'two'], ['t'], name='cat', axis=0), nd('Concat', ['t', 'two'], ['t4'], name='cat2', axis=0),
                          nd('Reshape', ['e', 't4'], ['h'], name='resh'), nd('Transpose', ['h'], ['ht'], name='tr', perm=[0, 2, 1, 3]), nd('Mul', ['ht', 'm'], ['y'], name='mul')],
                         [vi('ids', ['B', 'S'], TP.INT64), vi('m', [1])], [vi('y', ['B', 2, 'S', 2]), vi('h', ['B', 'S', 2, 2])], [ini('emb', rnd(9, 4)), ini('two', np.array([2], np.int64))], opset=17)
    ms['data'] = gx.model([nd('Resize', ['x', '', 'sc'], ['a'], name='up', mode='nearest'), nd('Tile', ['a', 'rep'], ['t'], name='tile'), nd('Cast', ['k'], ['kf'], name='cast', to=TP.FLOAT), nd('Mul', ['t', 'kf'], ['y'], name='mul')],
                          [vi('x', ['n', 'm']), vi('sc', [2]), vi('rep', [2], TP.INT64), vi('k', [1], TP.INT32)], [vi('y', ['p', 'q'])], [], opset=17)
    ms['multi'] = gx.model([nd('Odd', ['x', 'd'], ['o', 'o2'], name='odd/1', domain='cust', level=3), nd('Add', ['o', 'd'], ['a/b:0'], name='n two'), nd('Relu', ['o2'], ['y2'], name='r')],
                           [vi('x', ['N', 4]), vi('d', [4]), vi('unused', [2, 2])], [vi('a/b:0', ['N', 4]), vi('y2', ['N', 'k'])], [ini('d', rnd(4))], opset=15, domains=('cust',))
    ms['cond'] = gx.model([nd('ReduceSum', ['x'], ['sum'], name='sum', keepdims=0), nd('Greater', ['sum', 'z'], ['c'], name='gt'), nd('Exp', ['x'], ['e'], name='ex'),
                           nd('If', ['c'], ['o'], name='if', then_branch=helper.make_graph([nd('Add', ['x', 'e'], ['a'], name='ta')], 't', [], [vi('a', None)]),
                              else_branch=helper.make_graph([nd('Mul', ['x', 'e'], ['b'], name='eb')], 'e', [], [vi('b', None)])), nd('Neg', ['o'], ['y'], name='neg')],
                          [vi('x', ['N', 3])], [vi('y', ['N', 3])], [ini('z', np.float32(0))], opset=17)
    ms['konst'] = gx.model([nd('Constant', [], ['k'], name='k', value=ini('', np.array([3, 4], np.int64))), nd('Add', ['one', 'k'], ['k2'], name='kadd'), nd('Sub', ['k2', 'one'], ['k3'], name='ksub'), nd('Reshape', ['x', 'k3'], ['r'], name='resh'),
                            nd('MatMul', ['r', 'w'], ['y'], name='mm')], [vi('x', [2, 6])], [vi('y', [3, 2])], [ini('one', np.array([1, 1], np.int64)), ini('w', rnd(4, 2))], opset=17)
    ms['late'] = gx.model([nd('Add', ['q', 'p'], ['y'], name='last'), nd('Relu', ['x'], ['p'], name='first'), nd('Mul', ['p', 'w'], ['q'], name='mid')], [vi('x', [2, 3])], [vi('y', [2, 3])], [ini('w', rnd(3))], opset=17)
    ms['dag'] = gx.model([nd('Relu', ['x'], ['a'], name='a'), nd('Neg', ['a'], ['b'], name='b'), nd('Mul', ['a', 'w'], ['c'], name='c'), nd('Sub', ['b', 'c'], ['d'], name='d'), nd('LeakyRelu', ['d'], ['y'], name='e', alpha=0.3)],
                         [vi('x', [2, 3])], [vi('y', [2, 3])], [ini('w', rnd(3))], opset=17)
    return ms


CHECKED = {'cnn', 'sym', 'seq', 'data', 'cond', 'konst', 'dag'}      # executable and in order


def feed(name, shapes=None):
    """one input set of a model; shapes: sizes of the named dimensions"""
    m, r = models()[name], {}
    env = {'N': 2, 'H': 6, 'W': 10, 'B': 2, 'S': 3, 'n': 2, 'm': 3, 'h': 8, 'w': 6, 'b': 3, 's': 4, 'width': 12, 'seq_len': 5, 'dim': 4}
    env.update(shapes or {})
    for v in m.graph.input:
        if v.name in {t.name for t in m.graph.initializer}:
            continue
        s = [d.dim_value if d.HasField('dim_value') else env[d.dim_param] for d in v.type.tensor_type.shape.dim]
        t = helper.tensor_dtype_to_np_dtype(v.type.tensor_type.elem_type)
        r[v.name] = rnd(*s) if t == F else (np.arange(int(np.prod(s))).reshape(s) % 5 + 1).astype(t)
    if name == 'data':
        r['sc'], r['rep'], r['k'] = np.array([2, 1], F), np.array([1, 2], np.int64), np.array([3], np.int32)
    return r, env


def dims(v):
    if not v.type.tensor_type.HasField('shape'):
        return None
    return [d.dim_value if d.HasField('dim_value') else d.dim_param if d.HasField('dim_param') else None for d in v.type.tensor_type.shape.dim]


def files(d):
    r = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            r[os.path.relpath(os.path.join(b, f), d)] = open(os.path.join(b, f), 'rb').read()
    return r


def struct_diff(m, s, ios=True):
    """first difference between source m and saved s outside of shape records"""
    if [n.SerializeToString(deterministic=True) for n in m.graph.node] != [n.SerializeToString(deterministic=True) for n in s.graph.node]:
        if sorted(map(node_key, m.graph.node)) != sorted(map(node_key, s.graph.node)):
            return f'nodes {[n.name for n in s.graph.node]} {s.graph.node} for {[n.name for n in m.graph.node]}'[:400]
        if [n.name for n in m.graph.node] != [n.name for n in s.graph.node]:
            return f'node order {[n.name for n in s.graph.node]}'
    a = {t.name: numpy_helper.to_array(t) for t in m.graph.initializer}
    b = {t.name: numpy_helper.to_array(t) for t in s.graph.initializer}
    if set(a) != set(b):
        return f'initialisers {sorted(b)} for {sorted(a)}'
    for k in a:
        if a[k].dtype != b[k].dtype or a[k].shape != b[k].shape or not np.array_equal(a[k], b[k]):
            return f'initialiser {k}'
    if {(o.domain, o.version) for o in m.opset_import} != {(o.domain, o.version) for o in s.opset_import}:
        return f'operator sets {s.opset_import}'
    if m.ir_version != s.ir_version:
        return f'ir version {s.ir_version}'
    if ios:
        for what, x, y in (('inputs', m.graph.input, s.graph.input), ('outputs', m.graph.output, s.graph.output)):
            if [(v.name, v.type.tensor_type.elem_type) for v in x] != [(v.name, v.type.tensor_type.elem_type) for v in y]:
                return f'{what} {[(v.name, v.type.tensor_type.elem_type) for v in y]} for {[(v.name, v.type.tensor_type.elem_type) for v in x]}'
    return None


def node_key(n):
    return repr((n.name, n.op_type, n.domain, list(n.input), list(n.output), sorted((a.name, a.SerializeToString(deterministic=True)) for a in n.attribute)))


def everything(m, feeds):
    """actual value of every tensor of the model"""
    e = onnx.ModelProto()
    e.CopyFrom(m)
    have = {o.name for o in e.graph.output}
    for n in e.graph.node:
        for o in n.output:
            if o and o not in have:
                e.graph.output.append(vi(o, None))
    return gx.evaluate(e, {v.name: feeds[v.name] for v in e.graph.input if v.name in feeds})


def stale(s, vals):
    """shape records of the saved model that contradict the values"""
    for v in list(s.graph.value_info) + list(s.graph.output):
        d = dims(v)
        if d is None or v.name not in vals:
            continue
        a = vals[v.name]
        if len(d) != a.ndim or any(isinstance(x, int) and x != y for x, y in zip(d, a.shape)):
            return f'{v.name} recorded {d}, actual {list(a.shape)}'
        if helper.tensor_dtype_to_np_dtype(v.type.tensor_type.elem_type) != a.dtype:
            return f'{v.name} recorded type {v.type.tensor_type.elem_type}, actual {a.dtype}'
    return None


def as_form(m, form, d):
    """the model as a proto, a path string or a path object"""
    if form == 'proto':
        c = onnx.ModelProto()
        c.CopyFrom(m)
        return c
    p = os.path.join(d, 'in', 'my.model.onnx')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    onnx.save(m, p)
    return p if form == 'str' else pathlib.Path(p)


FORMS = ['proto', 'str', 'path']


# ---------------------------------------------------------------- io modification
REQ = {'cnn': {'x': ['2x3x8x8', 'Nx3x8x8', 'Nx3xhxw', '1x3xhx12', '1x3xwidthxwidth'], 'y': ['2x5', 'Nx5', 'batchx5']},
       'sym': {'x': ['2x3x8x6', 'Nx3x8x8', '1x3xHxW', 'bx3xhxw'], 'y': ['Nx5', '1x5', 'bx5']},
       'seq': {'ids': ['2x3', '1xseq_len', 'BxS', 'bxs'], 'm': ['1', 'dim'], 'y': ['Bx2xSx2', '2x2x3x2', 'bx2xsx2'], 'h': ['2x3x2x2', 'bxsx2x2']},
       'data': {'x': ['2x3', 'nx3', 'axb'], 'sc': ['2'], 'rep': ['2'], 'y': ['4x6', 'uxv']},
       'multi': {'x': ['3x4', 'Bx4'], 'unused': ['9x9', 'ux2'], 'a/b:0': ['3x4', 'Bx4'], 'nothere': ['1x1']},
       'cond': {'x': ['5x3', 'Bx3', 'Bxdim'], 'y': ['5x3', 'Bx3']},
       'konst': {'x': ['3x4', 'axb', '12x1'], 'y': ['3x2', 'ux2']},
       'dag': {'x': ['4x3', 'nx3', 'nxdim'], 'y': ['4x3', 'nx3']}}


def io_cases(th):
    yield 'io/none', ('io', 'cnn', None, 'proto')
    for name, r in REQ.items():
        keys = list(r)
        for pick in itertools.product(*[[None] + r[k] for k in keys]):
            req = {k: p for k, p in zip(keys, pick) if p is not None}
            forms = FORMS if len(req) < 2 or th else [FORMS[len(req) % 3]]
            for f in forms:
                yield f'io/{name}/' + ','.join(f'{k}={v}' for k, v in req.items()) + '/' + f, ('io', name, req, f)


def run_io(name, req, form, st):
    m = models()[name]
    with scratch() as d:
        src = as_form(m, form, d)
        out = os.path.join(d, 'o.onnx')
        before = src.SerializeToString(deterministic=True) if form == 'proto' else files(d)
        tool(onnx_tool.model_io_modify, src, out, None if req is None else dict(req))
        st.valid()
        if form == 'proto' and src.SerializeToString(deterministic=True) != before:
            yield 'io:source-modified', f'{req}'
        if not os.path.exists(out):
            yield 'io:nothing-written', f'{req}'
            return
        s = onnx.load(out)
    st.state(name, str(req))
    yield from judge_io(m, s, name, req or {})


def judge_io(m, s, name, req):
    x = struct_diff(m, s)
    if x:
        yield 'io:other-change', f'{req}: {x}'
        return
    for a, b in zip(list(m.graph.input) + list(m.graph.output), list(s.graph.input) + list(s.graph.output)):
        want = [int(q) if q.isnumeric() else q for q in req[a.name].split('x')] if a.name in req else dims(a)
        if dims(b) != want:
            yield 'io:shape', f'{req}: {a.name} {dims(b)} for {want}'
    try:
        onnx.checker.check_model(s)
    except Exception as e:
        yield 'io:invalid', f'{req}: {str(e)[:200]}'
        return
    if name not in CHECKED:
        return
    f, env = feed(name)
    ok = True
    for v in s.graph.input:
        want = []
        for j, q in enumerate(dims(v)):
            want.append(q if isinstance(q, int) else env.get(q, 3))
        if v.name in f and v.name not in ('sc', 'rep', 'k'):
            t = f[v.name].dtype
            f[v.name] = rnd(*want) if t == F else (np.arange(int(np.prod(want))).reshape(want) % 5 + 1).astype(t)
    try:
        vals = everything(m, f)
    except Exception:
        return          # the requested shape does not fit this model
    c = onnx.ModelProto()
    c.CopyFrom(s)
    del c.graph.output[:]
    x = stale(c, vals)
    if x:
        yield 'io:stale-shape', f'{req}: {x}'
    try:
        got = gx.evaluate(s, f)
    except Exception as e:
        yield 'io:does-not-run', f'{req}: {type(e).__name__} {str(e)[:160]}'
        return
    for o in s.graph.output:
        if not gx.close(got[o.name], vals[o.name]):
            yield 'io:values', f'{req}: {o.name}'


# ---------------------------------------------------------------- tensor export
def bag():
    return [('w', rnd(2, 3)), ('layer/w', rnd(3).astype(np.float64)), ('layer\\v', np.array([1, -2], np.int64)), ('a/b\\c', rnd(1, 2, 2).astype(np.float16)), ('s', np.array(2.5, F)), ('e', np.zeros((0, 3), F)), ('flag', np.array([True, False])),
            ('layer_w', np.array([7, 8], np.int32)), ('/abs/x.y', rnd(4))]


def exp_cases(th):
    names = [n for n, _ in bag()]
    yield 'export/all', ('exp', None)
    for k in (1, 2, 3):
        for sub in itertools.combinations(names + ['missing'], k):
            yield 'export/' + ','.join(sub), ('exp', list(sub))


def export_model():
    b = bag()
    ns = [nd('Odd', [n for n, _ in b] + ['x'], ['y'], name='n', domain='cust')]
    return gx.model(ns, [vi('x', [1])], [vi('y', None)], [ini(n, a) for n, a in b], domains=('cust',))


def check_exported(have, want, fp16, tag, what):
    """have: file name -> bytes; want: [(tensor name, array)]"""
    plain = [n.replace('/', '_').replace('\\', '_') + '.npy' for n, _ in want]
    if len(have) != len(want):
        yield tag + ':files', f'{what}: {sorted(have)} for tensors {[n for n, _ in want]}'
        return
    arrs = {f: np.load(io.BytesIO(v)) for f, v in have.items()}
    left = dict(arrs)

    def same(a, e):
        e = e.astype(np.float16) if fp16 and e.dtype in (np.float32, np.float64) else e
        return a.dtype == e.dtype and a.shape == e.shape and np.array_equal(a, e)
    for (n, a), f in zip(want, plain):
        if plain.count(f) == 1:
            if f not in arrs:
                yield tag + ':name', f'{what}: {sorted(arrs)} lacks {f}'
                return
            if not same(arrs[f], a):
                yield tag + ':content', f'{what}: {f} holds {arrs[f].dtype} {arrs[f].shape}'
            left.pop(f)
    for (n, a), f in zip(want, plain):
        if plain.count(f) > 1:
            k = next((q for q in sorted(left) if same(left[q], a)), None)
            if k is None:
                yield tag + ':lost', f'{what}: no file holds {n}'
                return
            left.pop(k)


def run_exp(names, st):
    m = export_model()
    b = dict(bag())
    for fp16, folder, form in itertools.product((False, True), ('new/sub', '.', None), FORMS):
        if form != 'proto' and (folder != 'new/sub' or fp16):
            continue
        with scratch() as d:
            src = as_form(m, form, d)
            os.makedirs(os.path.join(d, 'cwd'))
            with cwd(os.path.join(d, 'cwd')):
                kw = {k: v for k, v, dflt in (('tensornames', names, None), ('savefolder', folder, None), ('fp16', fp16, False)) if v != dflt}
                tool(functools.partial(onnx_tool.model_export_tensors_numpy, src, **kw))
            st.valid()
            have = files(os.path.join(d, 'cwd', folder or '.'))
            all_ = files(os.path.join(d, 'cwd'))
            if len(all_) != len(have) or any('/' in f for f in have):
                yield 'export:elsewhere', f'{names}: {sorted(all_)}'
        want = [(n, a) for n, a in b.items() if names is None or n in names]
        st.state(tuple(sorted(have)), fp16)
        yield from check_exported(have, want, fp16, 'export', f'{names} fp16={fp16} folder={folder}')


@contextlib.contextmanager
def cwd(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


# ---------------------------------------------------------------- profiling entry point
def prof_cases(th):
    for name in ('cnn', 'sym', 'seq', 'data', 'konst', 'late', 'dag'):
        for rep, save, so, ns, form in itertools.product(('csv', 'txt', None), (True, False), (False, True), (False, True), FORMS):
            if not save and (so or ns):
                continue
            yield f'profile/{name}/{rep}/{save}/{so}/{ns}/{form}', ('prof', name, rep, save, so, ns, form)


def reads(n):
    return set(n.input) | {t for a in n.attribute if a.type == onnx.AttributeProto.GRAPH for t in gx.body_reads(a.g)}


def order(m):
    """the model with its nodes in a valid order"""
    c = onnx.ModelProto()
    c.CopyFrom(m)
    done = {v.name for v in m.graph.input} | {t.name for t in m.graph.initializer} | {''}
    rest, res = list(m.graph.node), []
    while rest:
        n = next(q for q in rest if all(t in done for t in reads(q)))
        rest.remove(n)
        done.update(n.output)
        res.append(n)
    del c.graph.node[:]
    c.graph.node.extend(res)
    return c


def judge_saved(m, s, f, so, ns, tag, what):
    """a model saved after inferring the shapes of f"""
    o = order(m)
    vals = everything(o, f)
    if sorted(map(node_key, s.graph.node)) != sorted(map(node_key, m.graph.node)):
        yield tag + ':nodes', f'{what}: {[n.name for n in s.graph.node]}'
        return
    inits = {t.name: numpy_helper.to_array(t) for t in m.graph.initializer}
    if so:
        if s.graph.initializer:
            yield tag + ':weights', f'{what}: {[t.name for t in s.graph.initializer]}'
    else:
        x = struct_diff(o, s)
        if x and not x.startswith('node order'):
            yield tag + ':other-change', f'{what}: {x}'
            return
    if ns and s.graph.value_info:
        yield tag + ':shape-records', f'{what}: {[v.name for v in s.graph.value_info]}'
    if [v.name for v in s.graph.output] != [v.name for v in m.graph.output]:
        yield tag + ':outputs', f'{what}: {[v.name for v in s.graph.output]}'
    x = stale(s, vals)
    if x:
        yield tag + ':wrong-shape', f'{what}: {x}'
    rec = {v.name: dims(v) for v in list(s.graph.value_info) + list(s.graph.output) + list(s.graph.input)}
    if not any(n.op_type == 'If' for n in m.graph.node):
        for n in m.graph.node:
            for t in n.output:
                if (not ns or t in {v.name for v in m.graph.output}) and rec.get(t) != list(vals[t].shape):
                    yield tag + ':shape-record', f'{what}: {t} {rec.get(t)}, actual {list(vals[t].shape)}'
    for v in m.graph.input:
        if v.name in f and rec.get(v.name) != list(f[v.name].shape):
            yield tag + ':input-shape', f'{what}: {v.name} {rec.get(v.name)} for {f[v.name].shape}'
    if so and not ns:
        for t in inits:
            if rec.get(t) != list(inits[t].shape):
                yield tag + ':weight-shape', f'{what}: {t} {rec.get(t)}'
    if not so:
        try:
            onnx.checker.check_model(s, full_check=True)
            got = gx.evaluate(s, f)
        except Exception as e:
            yield tag + ':does-not-run', f'{what}: {type(e).__name__} {str(e)[:160]}'
            return
        for o_ in s.graph.output:
            if not gx.close(got[o_.name], vals[o_.name]):
                yield tag + ':values', f'{what}: {o_.name}'


def report_rows(text, rep):
    if rep == 'csv':
        return [r[0] for r in csv.reader(io.StringIO(text))][1:]
    from mc.c17_profile import text_rows
    return [r[0] for r in text_rows(text, None)[1]]


def run_prof(name, rep, save, so, ns, form, st):
    m = models()[name]
    f, env = feed(name)
    what = f'report {rep} shape_only {so} no_shape {ns} {form}'
    with scratch() as d:
        src = as_form(m, form, d)
        rp = None if rep is None else os.path.join(d, 'rep.' + rep)
        sv = os.path.join(d, 'o.onnx') if save else None
        buf = io.StringIO()
        before = src.SerializeToString(deterministic=True) if form == 'proto' else None
        ff = {k: v.copy() for k, v in f.items()}
        tool(capture, buf, functools.partial(onnx_tool.model_profile, src, ff, save_profile=rp, save_model=sv, shape_only=so, no_shape=ns))
        st.valid()
        if form == 'proto' and src.SerializeToString(deterministic=True) != before:
            yield 'profile:source-modified', what
        if any(not np.array_equal(f[k], ff[k]) for k in f):
            yield 'profile:inputs-modified', what
        have = {k for k in files(d) if not k.startswith('in/')}
        if have != ({'rep.' + rep} if rep else set()) | ({'o.onnx'} if save else set()):
            yield 'profile:files', f'{what}: {sorted(have)}'
            return
        text = open(rp).read() if rep else buf.getvalue()
        s = onnx.load(sv) if save else None
    names = [r for r in report_rows(text, rep) if r not in ('Total', 'Dedup_Params')]
    want = [n.name for n in order(m).graph.node if n.op_type not in onnx_tool.NoMacsOps]
    st.state(name, tuple(names), so, ns)
    if sorted(names) != sorted(want):
        yield 'profile:rows', f'{what}: {names} for {want}'
    if save:
        yield from judge_saved(m, s, f, so, ns, 'profile', what)


def capture(buf, fn):
    with contextlib.redirect_stdout(buf):
        fn()


# ---------------------------------------------------------------- sub-models, fusion, dumps
def misc_cases(th):
    for name in ('dag', 'cnn', 'konst', 'cond', 'late'):
        m = models()[name]
        ts = [v.name for v in m.graph.input] + [o for n in m.graph.node for o in n.output]
        for a, b in itertools.product(ts, ts):
            if name != 'late':
                yield f'sub/{name}/{a}..{b}', ('sub', name, [a], [b])
            yield f'fuseio/{name}/{a}..{b}', ('fuseio', name, a, b)
        nodes = [n.name for n in m.graph.node]
        for k in range(1, len(nodes) + 1):
            for sub in itertools.combinations(nodes, k):
                if name in ('dag', 'late') or k < 3 or th:
                    yield f'subn/{name}/{"+".join(sub)}', ('subn', name, list(sub))
                    yield f'fusen/{name}/{"+".join(sub)}', ('fusen', name, list(sub))
        for k in (1, 2):
            for ds in itertools.combinations(ts + ['nothere'] + [t.name for t in m.graph.initializer][:1], k):
                yield f'dump/{name}/{"+".join(ds)}', ('dump', name, list(ds))
        yield f'reorder/{name}', ('reorder', name)
        yield f'fold/{name}', ('fold', name)
    for what, entry in itertools.product(BAD, ENTRY):
        yield f'badmodel/{what}/{entry}', ('badmodel', what, entry)
    for name, (desc, rng) in REGRESS.items():
        for rev in (False, True):
            yield f'regress/{name}/{rev}', ('regress', name, rev)
    for name in ('seq', 'multi', 'sym', 'data'):
        yield f'reorder/{name}', ('reorder', name)
        if name != 'multi':
            yield f'fold/{name}', ('fold', name)


def run_sub(name, ins, outs, st):
    m = models()[name]
    for form in FORMS:
        with scratch() as d:
            src = as_form(m, form, d)
            od = os.path.join(d, 'out')
            os.makedirs(od)
            tool(onnx_tool.model_subgraph, src, list(ins), list(outs), None, od)
            st.valid()
            got = files(od)
        stem = '' if form == 'proto' else 'my.model'
        lv = oracle_parts(m, list(ins), list(outs))
        if sorted(got) != [f'{stem}_level{k}.onnx' for k in range(3) if lv[k]]:
            yield 'sub:files', f'{form}: {sorted(got)} for {lv}'
            return
        for k in range(3):
            if lv[k] and sorted(n.name for n in onnx.load_model_from_string(got[f'{stem}_level{k}.onnx']).graph.node) != sorted(lv[k]):
                yield 'sub:partition', f'{form}: level {k} is {[n.name for n in onnx.load_model_from_string(got[f"{stem}_level{k}.onnx"]).graph.node]} for {sorted(lv[k])}'
                return
        parts = [onnx.load_model_from_string(got[k]) for k in sorted(got)]
        if form != 'proto':
            if sig != [p.SerializeToString(deterministic=True) for p in parts]:
                yield 'sub:loading-form', form
            continue
        sig = [p.SerializeToString(deterministic=True) for p in parts]
        all_ = [n.name for p in parts for n in p.graph.node]
        st.state(name, ins[0], outs[0], tuple(all_))
        if sorted(all_) != sorted(n.name for n in m.graph.node):
            yield 'sub:nodes', f'{all_}'
            continue
        for p in parts:
            if {(o.domain, o.version) for o in p.opset_import} != {(o.domain, o.version) for o in m.opset_import}:
                yield 'sub:opset', str(p.opset_import)
        # run the parts one after another
        f, _ = feed(name)
        vals = everything(order(m), f)
        env = dict(f)
        for p in parts:
            try:
                r = gx.evaluate(order(p), {v.name: env[v.name] for v in p.graph.input if v.name in env})
            except Exception as e:
                yield 'sub:does-not-run', f'{type(e).__name__} {str(e)[:200]}'
                return
            env.update(r)
        for o in m.graph.output:
            if o.name not in env or not gx.close(env[o.name], vals[o.name]):
                yield 'sub:values', o.name


def run_subn(name, nodes, st):
    m = models()[name]
    with scratch() as d:
        src = as_form(m, 'str', d)
        od = os.path.join(d, 'out')
        os.makedirs(od)
        tool(functools.partial(onnx_tool.model_subgraph, src, nodenames=list(nodes), save_folder=od))
        st.valid()
        got = files(od)
    if set(got) != {'my.model_subgraph.onnx'}:
        yield 'subn:files', str(sorted(got))
        return
    s = onnx.load_model_from_string(got['my.model_subgraph.onnx'])
    st.state(name, tuple(nodes))
    src = {n.name: n for n in m.graph.node}
    if sorted(map(node_key, s.graph.node)) != sorted(node_key(src[n]) for n in nodes):
        yield 'subn:nodes', f'{[n.name for n in s.graph.node]}'
        return
    f, _ = feed(name)
    vals = everything(order(m), f)
    vals.update(f)
    vals.update({t.name: numpy_helper.to_array(t) for t in m.graph.initializer})
    made = {o for n in nodes for o in src[n].output if o}
    read = {t for n in nodes for t in src[n].input if t} | {t for n in nodes for a in src[n].attribute if a.type == onnx.AttributeProto.GRAPH for t in gx.body_reads(a.g)}
    want_in = {t for t in read - made if t not in {i.name for i in m.graph.initializer}}
    if {v.name for v in s.graph.input} != want_in:
        yield 'subn:inputs', f'{[v.name for v in s.graph.input]} for {sorted(want_in)}'
    used_out = {t for n in m.graph.node if n.name not in nodes for t in list(n.input) + [q for a in n.attribute if a.type == onnx.AttributeProto.GRAPH for q in gx.body_reads(a.g)]} | {o.name for o in m.graph.output}
    if not {t for t in made if t in used_out} <= {v.name for v in s.graph.output} <= made:
        yield 'subn:outputs', f'{[v.name for v in s.graph.output]} of {sorted(made)}'
    try:
        r = gx.evaluate(s, {v.name: vals[v.name] for v in s.graph.input})
    except Exception as e:
        yield 'subn:does-not-run', f'{type(e).__name__} {str(e)[:200]}'
        return
    for k, v in r.items():
        if not gx.close(v, vals[k]):
            yield 'subn:values', k


def convex(m, nodes):
    src = {n.name: n for n in m.graph.node}
    rd = lambda n: reads(src[n])
    succ = {a: {b for b in src if set(src[a].output) & rd(b)} for a in src}
    todo, seen = [b for a in nodes for b in succ[a] if b not in nodes], set()
    while todo:
        b = todo.pop()
        if b in nodes:
            return False
        if b not in seen:
            seen.add(b)
            todo += succ[b]
    return not any(t in {o for q in nodes for o in src[q].output} for n in nodes for t in rd(n) - set(src[n].input))


def run_fusen(name, nodes, st):
    m = models()[name]
    if not convex(m, nodes):
        return
    src = {n.name: n for n in m.graph.node}
    for keep in (True, False, None):
        with scratch() as d:
            p = as_form(m, 'str', d)
            out = os.path.join(d, 'o.onnx')
            tool(functools.partial(onnx_tool.model_opfusion, p, 'Fused', 'fz', out, nodenames=list(nodes), **({} if keep is None else {'keep_attr': keep})))
            st.valid()
            s = onnx.load(out)
        st.state(name, tuple(nodes), keep)
        new = [n for n in s.graph.node if n.op_type == 'Fused']
        rest = [n for n in s.graph.node if n.op_type != 'Fused']
        if len(new) != 1 or new[0].name != 'fz' or sorted(map(node_key, rest)) != sorted(node_key(src[n]) for n in src if n not in nodes):
            yield 'fuse:nodes', f'{[n.name for n in s.graph.node]}'
            continue
        if keep is False and new[0].attribute or keep is not False and any(src[n].attribute for n in nodes) and not new[0].attribute:
            yield 'fuse:attributes', f'keep_attr={keep}: {[a.name for a in new[0].attribute]}'
        # expand again and run
        e = onnx.ModelProto()
        e.CopyFrom(s)
        del e.graph.node[:]
        e.graph.node.extend(rest + [src[n] for n in nodes])
        f, _ = feed(name)
        vals = everything(order(m), f)
        try:
            r = gx.evaluate(order(e), {v.name: f[v.name] for v in e.graph.input if v.name in f})
        except Exception as x:
            yield 'fuse:does-not-run', f'{type(x).__name__} {str(x)[:200]}'
            continue
        for o in m.graph.output:
            if o.name not in r or not gx.close(r[o.name], vals[o.name]):
                yield 'fuse:values', o.name
        # valid order
        done = {v.name for v in s.graph.input} | {t.name for t in s.graph.initializer} | {''}
        for n in s.graph.node:
            if any(t not in done for t in n.input):
                yield 'fuse:order', f'{n.name} in {[q.name for q in s.graph.node]}'
            done.update(n.output)


def run_fuseio(name, a, b, st):
    """model_opfusion between two tensors"""
    m = models()[name]
    src = {n.name: n for n in m.graph.node}
    _, mid, _ = oracle_parts(m, [a], [b])
    if mid and not convex(m, sorted(mid)):
        return          # results are read inside the body of a conditional
    for keep, form in ((True, 'proto'), (False, 'str'), (None, 'path')):
        with scratch() as d:
            p = as_form(m, form, d)
            out = os.path.join(d, 'o.onnx')
            before = p.SerializeToString(deterministic=True) if form == 'proto' else None
            tool(functools.partial(onnx_tool.model_opfusion, p, 'Fused', 'fz', out, in_tensor_names=[a], out_tensor_names=[b], **({} if keep is None else {'keep_attr': keep})))
            st.valid()
            if form == 'proto' and p.SerializeToString(deterministic=True) != before:
                yield 'fuseio:source-modified', f'{a}..{b}'
            if not os.path.exists(out):
                yield 'fuseio:nothing-written', f'{a}..{b}'
                return
            s = onnx.load(out)
        new = [n for n in s.graph.node if n.op_type == 'Fused']
        rest = [n for n in s.graph.node if n.op_type != 'Fused']
        st.state(name, a, b, len(new))
        gone = set(src) - {n.name for n in rest}
        if not mid <= gone or len(gone) != len(mid) * len(new) or not mid and new:
            yield 'fuseio:nodes', f'{a}..{b}: {[n.name for n in s.graph.node]}, wanted {sorted(mid)} fused'
            continue
        if sorted(map(node_key, rest)) != sorted(node_key(src[n]) for n in src if n not in gone):
            yield 'fuseio:other-nodes', f'{a}..{b}: {[n.name for n in s.graph.node]}'
            continue
        attrs = any(src[n].attribute for n in mid)
        if keep is False and any(n.attribute for n in new) or keep is not False and attrs and not any(n.attribute for n in new):
            yield 'fuseio:attributes', f'{a}..{b} keep_attr={keep}: {[[q.name for q in n.attribute] for n in new]}'
        e = onnx.ModelProto()
        e.CopyFrom(s)
        del e.graph.node[:]
        e.graph.node.extend(rest + [src[n] for n in src if n in gone])
        f, _ = feed(name)
        vals = everything(order(m), f)
        try:
            r = gx.evaluate(order(e), {v.name: f[v.name] for v in e.graph.input if v.name in f})
        except Exception as x:
            yield 'fuseio:does-not-run', f'{type(x).__name__} {str(x)[:200]}'
            continue
        for o in m.graph.output:
            if o.name not in r or not gx.close(r[o.name], vals[o.name]):
                yield 'fuseio:values', o.name
        done = {v.name for v in s.graph.input} | {t.name for t in s.graph.initializer} | {''}
        for n in s.graph.node:
            if any(t not in done for t in n.input):
                yield 'fuseio:order', f'{n.name} in {[q.name for q in s.graph.node]}'
            done.update(n.output)


def run_dump(name, ds, st):
    m = models()[name]
    for inferred in (False, True) if name != 'cond' else (False,):       # conditionals have no shape inference
        with scratch() as d:
            mod = tool(onnx_tool.Model, as_form(m, 'path', d))
            if mod.modelname != 'my.model':
                yield 'model-name', mod.modelname
            f, _ = feed(name)
            tool(mod.graph.graph_reorder_nodes)
            if inferred:
                tool(mod.graph.shape_infer, {k: v.copy() for k, v in f.items()})
            tool(mod.graph.add_dump_tensors, list(ds))
            tool(mod.graph.add_dump_tensors, list(ds))
            out = os.path.join(d, 'o.onnx')
            tool(mod.save_model, out)
            s = onnx.load(out)
        st.valid()
        st.state(name, tuple(ds), inferred)
        want = [o.name for o in m.graph.output] + [t for t in ds if t != 'nothere' and t not in [o.name for o in m.graph.output]]
        if [o.name for o in s.graph.output] != want:
            yield 'dump:outputs', f'{ds}: {[o.name for o in s.graph.output]} for {want}'
            return
        vals = everything(order(m), f)
        vals.update(f)
        vals.update({t.name: numpy_helper.to_array(t) for t in m.graph.initializer})
        if inferred:
            x = stale(s, vals)
            if x:
                yield 'dump:shape', f'{ds}: {x}'
        try:
            r = gx.evaluate(s, {v.name: f[v.name] for v in s.graph.input if v.name in f})
        except Exception as e:
            yield 'dump:does-not-run', f'{ds}: {type(e).__name__} {str(e)[:200]}'
            return
        for t in want:
            if not gx.close(r[t], vals[t]):
                yield 'dump:values', f'{ds}: {t}'


def run_reorder(name, fold, st):
    m = models()[name]
    for form in FORMS:
        with scratch() as d:
            src = as_form(m, form, d)
            out = os.path.join(d, 'o.onnx')
            tool(onnx_tool.model_constant_folding if fold else onnx_tool.model_reorder_nodes, src, out)
            s = onnx.load(out)
        st.valid()
        st.state(name, fold, form)
        yield from judge_order(m, s, name, fold)


REGRESS = {'sym': ({'x': ['N', 3, 'H', 'W']}, {'N': (1, 4), 'H': (2, 9), 'W': (3, 8)}), 'seq': ({'ids': ['B', 'S'], 'm': [1]}, {'B': (1, 3), 'S': (1, 6)}), 'dag': ({'x': ['a', 3]}, {'a': (1, 7)}), 'late': ({'x': ['a', 3]}, {'a': (1, 7)})}


def run_regress(name, rev, st):
    """model_shape_regress on the model in order and with its nodes reversed"""
    m = order(models()[name])
    desc, rng = REGRESS[name]
    c = onnx.ModelProto()
    c.CopyFrom(m)
    if rev:
        ns = list(m.graph.node)[::-1]
        del c.graph.node[:]
        c.graph.node.extend(ns)
    before = c.SerializeToString(deterministic=True)
    arg = ({k: list(v) for k, v in desc.items()}, dict(rng))
    eng, cg = tool(onnx_tool.model_shape_regress, c, *arg)
    if c.SerializeToString(deterministic=True) != before or arg != (desc, rng):
        yield 'regress:arguments-modified', name
    dyn = [t for n in m.graph.node if n.op_type not in ('Shape',) for t in n.output]
    for pick in itertools.product(*[range(a, b + 1) for a, b in rng.values()]):
        env = dict(zip(rng, pick))
        for k, v in env.items():
            tool(eng.update_variable, k, v)
        tool(eng.update_variables)
        f = {}
        for v in m.graph.input:
            s = [env.get(q, q) for q in desc[v.name]]
            t = helper.tensor_dtype_to_np_dtype(v.type.tensor_type.elem_type)
            f[v.name] = rnd(*s) if t == F else np.zeros(s, t)
        vals = everything(m, f)
        st.valid()
        for n in cg.nodemap.values():
            for t in n.output:
                got = tool(eng.get_tensorshape, t)
                if list(got) != list(vals[t].shape):
                    yield 'regress:shape', f'{env}: {t} {got} for {vals[t].shape}'
                    return
    st.state(name, rev, tuple(sorted(cg.nodemap)))
    want = [n.name for n in m.graph.node if n.op_type not in ('Shape', 'Concat')]
    if sorted(cg.nodemap) != sorted(want):
        yield 'regress:nodes', f'{sorted(cg.nodemap)} for {want}'


def judge_order(m, s, name, fold):
    tag = 'fold' if fold else 'reorder'
    if not fold:
        if sorted(map(node_key, s.graph.node)) != sorted(map(node_key, m.graph.node)):
            yield tag + ':nodes', f'{[n.name for n in s.graph.node]}'
            return
        done = {v.name for v in s.graph.input} | {t.name for t in s.graph.initializer} | {''}
        for n in s.graph.node:
            if any(t not in done for t in n.input):
                yield tag + ':order', f'{[n.name for n in s.graph.node]}'
            done.update(n.output)
    else:
        const, keep = {t.name for t in m.graph.initializer} - {v.name for v in m.graph.input}, []
        for n in order(m).graph.node:
            if all(t in const for t in n.input) and not n.domain:
                const.update(n.output)
            else:
                keep.append(n.name)
        if sorted(n.name for n in s.graph.node) != sorted(keep):
            yield tag + ':nodes', f'{[n.name for n in s.graph.node]} for {keep}'
    for x, y in ((m.graph.input, s.graph.input), (m.graph.output, s.graph.output)):
        if [(v.name, dims(v), v.type.tensor_type.elem_type) for v in x] != [(v.name, dims(v), v.type.tensor_type.elem_type) for v in y]:
            yield tag + ':io', f'{[(v.name, dims(v)) for v in y]}'
    if {(o.domain, o.version) for o in m.opset_import} != {(o.domain, o.version) for o in s.opset_import} or m.ir_version != s.ir_version:
        yield tag + ':opset', f'{s.opset_import} {s.ir_version}'
    if name == 'multi':
        return
    f, _ = feed(name)
    vals = everything(order(m), f)
    r = gx.evaluate(order(s), {v.name: f[v.name] for v in s.graph.input if v.name in f})
    for o in m.graph.output:
        if not gx.close(r[o.name], vals[o.name]):
            yield tag + ':values', o.name


# ---------------------------------------------------------------- command line
TYPES = {'f32': np.float32, 'f16': np.float16, 'f64': np.float64, 'int32': np.int32, 'int64': np.int64, 'int8': np.int8, 'uint8': np.uint8, 'int16': np.int16, 'bool': np.bool_}


def cli(args, d):
    """runs the command line in directory d: (exit code, output)"""
    core.CALLS += 1
    old, out, code = sys.argv, io.StringIO(), 0
    sys.argv = ['onnx_tool'] + list(args)
    try:
        with cwd(d), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                runpy.run_module('onnx_tool', run_name='__main__', alter_sys=False)
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 1
            except core.Hang:
                raise
            except Exception as e:
                code = f'{type(e).__name__}: {str(e)[:160]}'
    finally:
        sys.argv = old
    return code, out.getvalue()


def cli_cases(th):
    # input descriptions
    for t in TYPES:
        for shape in ('1', '2x3', '1x2x2', '-1'):
            for data in (None, 'seq', 'neg', 'edge'):
                if shape == '-1' and data is None or data == 'neg' and TYPES[t] in (np.uint8, np.bool_):
                    continue
                yield f'cli/input/{t}/{shape}/{data}', ('cliin', t, shape, data)
    # profile mode
    for name in ('cnn', 'sym', 'seq', 'data', 'dag', 'konst'):
        for dyn, rep, save, ex, mode in itertools.product(('typed', 'none'), ('csv', 'txt', None), (True, False), (None, 'Relu', 'Relu,Gemm,Conv', 'Mul'), (True, False)):
            if dyn == 'none' and name in ('sym', 'seq', 'data'):
                continue
            yield f'cli/profile/{name}/{dyn}/{rep}/{save}/{ex}/{mode}', ('cliprof', name, dyn, rep, save, ex, mode)
    for k in (0, 1, 2):
        for sub in itertools.combinations([n for n, _ in bag()] + ['missing'], k):
            for fp16, folder in itertools.product((False, True), ('new/sub', None)):
                yield f'cli/export/{",".join(sub)}/{fp16}/{folder}', ('cliexp', list(sub) if k else None, fp16, folder)
    for name in models():
        if name != 'multi':
            yield f'cli/fold/{name}', ('clifold', name)
    for name, r in REQ.items():
        keys = [k for k in r if ':' not in k]
        for pick in itertools.product(*[[None] + r[k][:2 if not th else 5] for k in keys]):
            req = {k: p for k, p in zip(keys, pick) if p is not None}
            if req:
                yield f'cli/io/{name}/' + ','.join(f'{k}={v}' for k, v in req.items()), ('cliio', name, req)
    for bad in ('mode', 'noin', 'nofile', 'op', 'dtype', 'notmodel'):
        yield f'cli/bad/{bad}', ('clibad', bad)


OPT = {'in': ('-i', '--in'), 'out': ('-o', '--out'), 'mode': ('-m', '--mode'), 'dyn': ('-d', '--dynamic_shapes'), 'ex': ('-e', '--exclude-ops'), 'rep': ('-f', '--file')}


def run_cliin(t, shape, data, st):
    dt = TYPES[t]
    sh = [int(q) for q in shape.split('x')]
    if shape == '-1':
        n = 3
    else:
        n = int(np.prod(sh))
    vals = None
    if data:
        vals = [(-1 if data == 'neg' else 1) * (j + (0 if np.dtype(dt).kind == 'f' else 1)) + (0.25 if np.dtype(dt).kind == 'f' else 0) for j in range(n)]
        if data == 'edge':
            if np.dtype(dt).kind in 'iu':
                top, low = int(np.iinfo(dt).max), int(np.iinfo(dt).min)
                vals = [(top, low, top // 2 + 1, low + 1, top - 2, 3)[j % 6] for j in range(n)]
            else:
                vals = [('0.1', '1e-7', '-0.3333333333333333', '65000', '-0.0', '3.0000000000000004')[j % 6] for j in range(n)]
        if dt == np.bool_:
            vals = [j % 2 for j in range(n)]
    spec = f'x:{t}:{shape}' + (':' + 'x'.join(str(v) for v in vals) if vals is not None else '')
    want = np.array([dt(v) for v in vals] if vals is not None else [0] * n, dt).reshape(sh)
    tt = helper.np_dtype_to_tensor_dtype(np.dtype(dt))
    m = gx.model([nd('Identity', ['x'], ['a'], name='n1'), nd('Concat', ['a', 'a'], ['y'], name='n2', axis=0)], [vi('x', ['q%d' % j for j in range(len(sh))], tt)], [vi('y', None, tt)], [], opset=17)
    with scratch() as d:
        onnx.save(m, os.path.join(d, 'm.onnx'))
        code, out = cli(['-i', 'm.onnx', '-d', spec, '-o', 'o.onnx', '-f', 'r.csv'], d)
        st.valid()
        if code != 0:
            yield 'cli:fails', f'{spec}: {code}'
            return
        s = onnx.load(os.path.join(d, 'o.onnx'))
    st.state(spec)
    for v, want_s in ((s.graph.input[0], list(want.shape)), (s.graph.output[0], [want.shape[0] * 2] + list(want.shape[1:]))):
        if dims(v) != want_s or v.type.tensor_type.elem_type != tt:
            yield 'cli:input', f'{spec}: {v.name} is {dims(v)} type {v.type.tensor_type.elem_type}, asked {want_s} type {tt}'
    if n < 7:
        # every given value decides a dimension
        m = gx.model([nd('Equal', ['x', 'w'], ['e'], name='n0'), nd('Cast', ['e'], ['c'], name='n1', to=TP.INT64), nd('Add', ['c', 'one'], ['d'], name='n2'), nd('Reshape', ['d', 'flat'], ['f'], name='n3'),
                      nd('ConstantOfShape', ['f'], ['y'], name='n4')], [vi('x', ['q%d' % j for j in range(len(sh))], tt)], [vi('y', None)],
                     [ini('w', want), ini('one', np.array([1], np.int64)), ini('flat', np.array([-1], np.int64))], opset=17)
        with scratch() as d:
            onnx.save(m, os.path.join(d, 'm.onnx'))
            code, out = cli(['-i', 'm.onnx', '-d', spec, '-o', 'o.onnx'], d)
            if code != 0:
                yield 'cli:fails', f'{spec}: {code}'
                return
            s = onnx.load(os.path.join(d, 'o.onnx'))
        if dims(s.graph.output[0]) != [2] * n:
            yield 'cli:input-data', f'{spec}: the entries are {["not " * (k != 2) + "the given value" for k in dims(s.graph.output[0])]}'


def run_cliprof(name, dyn, rep, save, ex, mode, st):
    m = models()[name]
    f, _ = feed(name)
    what = f'{dyn} {rep} save={save} exclude={ex}'
    with scratch() as d:
        onnx.save(m, os.path.join(d, 'm.onnx'))
        l = 1 if mode else 0
        args = ['-m', 'profile'] if mode else []
        args += [OPT['in'][l], 'm.onnx']
        if dyn == 'typed':
            tn = {np.dtype(v): k for k, v in TYPES.items()}
            args += [OPT['dyn'][l]] + [f'{k}:{tn[v.dtype]}:' + 'x'.join(map(str, v.shape)) + ':' + 'x'.join(str(q) for q in v.flatten().tolist()) for k, v in f.items()]
        if rep:
            args += [OPT['rep'][l], 'r.' + rep]
        if save:
            args += [OPT['out'][l], 'o.onnx']
        if ex:
            args += [OPT['ex'][l], ex]
        code, out = cli(args, d)
        st.valid()
        if code != 0:
            yield 'cli:fails', f'{what}: {code}'
            return
        got = files(d)
        # the library call on the same request
        buf = io.StringIO()
        kw = {'exclude_ops': set(ex.split(','))} if ex else {}
        if dyn == 'typed':
            inp = {k: v.copy() for k, v in f.items()}
        else:
            inp = None
            f = {v.name: np.zeros(dims(v), F) for v in m.graph.input}
        tool(capture, buf, functools.partial(onnx_tool.model_profile, os.path.join(d, 'm.onnx'), inp, save_profile=os.path.join(d, 'r2.' + rep) if rep else None, save_model=os.path.join(d, 'o2.onnx') if save else None, **kw))
        ref = files(d)
    st.state(name, what)
    have = set(got) - {'m.onnx'}
    if have != ({'r.' + rep} if rep else set()) | ({'o.onnx'} if save else set()):
        yield 'cli:files', f'{what}: {sorted(have)}'
        return
    if rep and got['r.' + rep] != ref['r2.' + rep]:
        yield 'cli:report', f'{what}: {got["r." + rep][:200]}'
    if not rep and out.strip() != buf.getvalue().strip():
        yield 'cli:report', f'{what}: {out[:200]}'
    text = got['r.' + rep].decode() if rep else out
    names = [r for r in report_rows(text, rep) if r not in ('Total', 'Dedup_Params')]
    hid = set(onnx_tool.NoMacsOps) | set((ex or '').split(','))
    want = [n.name for n in m.graph.node if n.op_type not in hid]
    if sorted(names) != sorted(want):
        yield 'cli:rows', f'{what}: {names} for {want}'
    if save:
        if got['o.onnx'] != ref['o2.onnx']:
            yield 'cli:model', what
        yield from judge_saved(m, onnx.load_model_from_string(got['o.onnx']), f, False, False, 'cli', what)


def run_cliexp(names, fp16, folder, st):
    m = export_model()
    with scratch() as d:
        onnx.save(m, os.path.join(d, 'm.onnx'))
        os.makedirs(os.path.join(d, 'cwd'))
        args = ['--mode', 'export_tensors', '-i', '../m.onnx'] + (['-o', folder] if folder else []) + (['--fp16'] if fp16 else []) + (['--names'] + names if names else [])
        code, out = cli(args, os.path.join(d, 'cwd'))
        st.valid()
        if code != 0:
            yield 'cli:fails', f'{args}: {code}'
            return
        have = files(os.path.join(d, 'cwd', folder or '.'))
    want = [(n, a) for n, a in bag() if names is None or n in names]
    st.state(tuple(sorted(have)), fp16)
    yield from check_exported(have, want, fp16, 'cli:export', str(args))


def run_clifold(name, st):
    m = models()[name]
    with scratch() as d:
        onnx.save(m, os.path.join(d, 'm.onnx'))
        code, out = cli(['-i', 'm.onnx', '-m', 'constant_folding', '-o', 'o.onnx'], d)
        st.valid()
        if code != 0:
            yield 'cli:fails', f'{code}'
            return
        s = onnx.load(os.path.join(d, 'o.onnx'))
    yield from judge_order(m, s, name, True)


def run_cliio(name, req, st):
    m = models()[name]
    with scratch() as d:
        onnx.save(m, os.path.join(d, 'm.onnx'))
        code, out = cli(['-i', 'm.onnx', '-m', 'io_modify', '-o', 'o.onnx', '-d'] + [f'{k}:{v}' for k, v in req.items()], d)
        st.valid()
        if code != 0:
            yield 'cli:fails', f'{req}: {code}'
            return
        s = onnx.load(os.path.join(d, 'o.onnx'))
    st.state(name, str(req))
    yield from judge_io(m, s, name, req)


def run_clibad(bad, st):
    with scratch() as d:
        onnx.save(models()['dag'], os.path.join(d, 'm.onnx'))
        open(os.path.join(d, 'bad.onnx'), 'w').write('no model')
        a = {'mode': ['-m', 'nothing', '-i', 'm.onnx'], 'noin': ['-o', 'o.onnx'], 'nofile': ['-i', 'absent.onnx', '-o', 'o.onnx'], 'op': ['-i', 'm.onnx', '-e', 'NoSuchOp', '-o', 'o.onnx'],
             'dtype': ['-i', 'm.onnx', '-d', 'x:nosuchtype:2x3', '-o', 'o.onnx'], 'notmodel': ['-i', 'bad.onnx', '-o', 'o.onnx']}[bad]
        code, out = cli(a, d)
        st.valid()
        st.state(bad)
        if code == 0:
            yield 'cli:error-ignored', f'{a}'
        if os.path.exists(os.path.join(d, 'o.onnx')):
            yield 'cli:written-after-error', f'{a}'


BAD = {'none': None, 'number': 7, 'graph': 'graph', 'empty': b'', 'bytes': b'no model', 'list': [], 'absent': 'absent.onnx', 'directory': '.', 'text': 'bad.onnx', 'truncated': 'cut.onnx'}
ENTRY = {'profile': lambda m, o: onnx_tool.model_profile(m, save_model=o), 'regress': lambda m, o: onnx_tool.model_shape_regress(m, {}, {}), 'fold': onnx_tool.model_constant_folding, 'reorder': onnx_tool.model_reorder_nodes,
         'io': lambda m, o: onnx_tool.model_io_modify(m, o, {}), 'export': lambda m, o: onnx_tool.model_export_tensors_numpy(m, savefolder='out'), 'sub': lambda m, o: onnx_tool.model_subgraph(m, ['x'], ['y'], None, '.'),
         'fuse': lambda m, o: onnx_tool.model_opfusion(m, 'F', 'f', o, nodenames=['a']), 'load': lambda m, o: onnx_tool.loadmodel(m)}


def run_badmodel(what, entry, st):
    """something which is no model is refused, and nothing is written"""
    v = BAD[what]
    with scratch() as d, cwd(d):
        open('bad.onnx', 'w').write('no model')
        open('cut.onnx', 'wb').write(models()['cnn'].SerializeToString()[:-9])
        if v == 'graph':
            v = models()['dag'].graph
        before = files(d)
        core.CALLS += 1
        ok, code = True, 1
        try:
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                warnings.simplefilter('ignore')
                ENTRY[entry](v, 'o.onnx')
        except SystemExit as e:
            ok, code = False, e.code
        except core.Hang:
            raise
        except Exception:
            ok = False
        st.valid()
        st.state(what, entry, ok)
        if ok or code in (0, None):
            yield 'bad-model:accepted', f'{entry} of {what}'
        if files(d) != before:
            yield 'bad-model:written', f'{entry} of {what}: {sorted(files(d))}'


def cases(tier):
    th = tier == 'thorough'
    yield from io_cases(th)
    yield from exp_cases(th)
    yield from prof_cases(th)
    yield from misc_cases(th)
    yield from cli_cases(th)


RUN = {'io': run_io, 'exp': run_exp, 'prof': run_prof, 'sub': run_sub, 'subn': run_subn, 'fusen': run_fusen, 'fuseio': run_fuseio, 'badmodel': run_badmodel, 'dump': run_dump, 'reorder': lambda n, st: run_reorder(n, False, st), 'fold': lambda n, st: run_reorder(n, True, st), 'regress': run_regress, 'cliin': run_cliin,
       'cliprof': run_cliprof, 'cliexp': run_cliexp, 'clifold': run_clifold, 'cliio': run_cliio, 'clibad': run_clibad}


def run_case(cid, payload, st):
    if st.cases % 211 == 0:
        st.sample(cid)
    yield from RUN[payload[0]](*payload[1:], st)
