"""Single-node checks shared by C01..C05."""
import warnings
import numpy as np
import onnx
from mc import opspace, ophar, spec
from mc.core import tool, ToolError
from onnx_tool import Graph
from onnx_tool.utils import ModelConfig

# Operators whose evaluation the tool declines with NotImplementedError (shape inference must still answer).
DECLINES = {'Hardmax', 'LogSoftmax', 'PRelu', 'TopK', 'Einsum', 'MatMulInteger', 'QLinearMatMul', 'ConvInteger',
            'QLinearConv', 'AveragePool', 'ConvTranspose', 'DepthToSpace', 'SpaceToDepth', 'Resize', 'Upsample',
            'ScatterElements', 'InstanceNormalization', 'LRN', 'LayerNormalization', 'LpNormalization', 'LSTM', 'GRU',
            'QuantizeLinear', 'DequantizeLinear', 'RandomUniformLike', 'RandomNormalLike', 'GridSample', 'RoiAlign', 'Gelu'}


def declines(case):
    """True where the tool is documented (by an explicit NotImplementedError) not to evaluate this node."""
    op, a = case.op, case.attrs
    if op in DECLINES:
        return True
    if op in ('Conv', 'MaxPool'):
        return case.ins[0][0].ndim != 4 or str(a.get('auto_pad', '')).startswith('SAME') or a.get('group', 1) != 1 or case.nout > 1
    if op == 'BatchNormalization':
        return bool(a.get('training_mode', 0))
    if op == 'CumSum':
        return bool(a.get('exclusive', 0) or a.get('reverse', 0))
    if op == 'Pad':
        pads = a.get('pads')
        if pads is None:
            pads = case.ins[1][0].tolist()
        return min(pads) < 0
    return False


# no deterministic values defined
NOVALUE = {'RandomUniformLike', 'RandomNormalLike'}


def load(case, fold=False):
    m = ophar.make_model(case)
    return tool(Graph, m.graph, ModelConfig({'constant_folding': fold}))


def reference(case):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = ophar.reference(case)
    if isinstance(r, Exception):
        return None
    if case.op == 'Unsqueeze':
        x = case.ins[0][0]
        axes = case.attrs.get('axes')
        if axes is None:
            axes = case.ins[1][0].flatten().tolist()
        rank = x.ndim + len(axes)
        axes = {a % rank for a in axes}
        it = iter(x.shape)
        return [x.reshape([1 if i in axes else next(it) for i in range(rank)])]
    return r


def oracle_shapes(case, ref=None):
    """-> (list of shapes | None, list of dtypes | None)"""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        cx = ophar.cxx_shapes(case)
    rs = [list(x.shape) for x in ref] if ref is not None else None
    rt = [x.dtype for x in ref] if ref is not None else None
    cs = [c[0] for c in cx] if cx else None
    ct = None
    if cx and all(c[1] for c in cx):
        ct = [onnx.helper.tensor_dtype_to_np_dtype(c[1]) for c in cx]
    w = spec.window_shape(case)
    if w is None:
        return None, None
    if w is not NotImplemented:
        return [w] * case.nout, ct or rt
    if cs is not None and None in cs:
        cs = None
    if rs is not None and cs is not None and rs != cs:
        return None, None            # the two independent oracles disagree: not decided
    types = ct if rt is None else rt
    if rt is not None and ct is not None and rt != ct:
        types = None
    return (rs if rs is not None else cs), types


def check_shape(case, st):
    cid = case.cid()
    ref = None
    if spec.window_shape(case) is NotImplemented:
        ref = reference(case)
    want, types = oracle_shapes(case, ref)
    if want is None:
        st.count('undecided_by_oracle')
        return
    st.valid()
    g = load(case)
    tool(g.shape_infer, None)
    for i in range(case.nout):
        t = g.tensormap[f'o{i}']
        got = [int(x) for x in t.get_shape()]
        st.outcome(case.op, tuple(got))
        if got != list(want[i]):
            yield f'{case.op}:shape', f'output {i}: tool {got}, specification {want[i]}'
        if types is not None and np.dtype(t.dtype) != np.dtype(types[i]):
            yield f'{case.op}:type', f'output {i}: tool {t.dtype}, specification {types[i]}'


def same(a, b, half=False):
    if a.dtype.kind in 'fc':
        half = half or a.itemsize == 2
        return np.allclose(a.astype(np.float64), b.astype(np.float64), rtol=4e-3 if half else 1e-4, atol=1e-3 if half else 1e-5, equal_nan=True)
    return np.array_equal(a, b)


def check_value(case, st):
    if case.op in NOVALUE or (case.op == 'BatchNormalization' and case.opset < 15):
        st.count('no_value_oracle')
        return
    ref = reference(case)
    if ref is None:
        st.count('no_value_oracle')
        return
    w = spec.window_shape(case)
    if w is None or (w is not NotImplemented and list(ref[0].shape) != w):
        st.count('no_value_oracle')
        return
    if w is NotImplemented and oracle_shapes(case, ref)[0] is None:
        st.count('no_value_oracle')
        return
    g = load(case)
    try:
        tool(g.value_infer, ophar.feeds(case))
    except ToolError as e:
        if e.args[0] == 'NotImplementedError' and declines(case):
            st.count('declined')
            return
        yield f'{case.op}:value-refused:{e.args[0]}', ' '.join(map(str, e.args))
        return
    st.valid()
    for i in range(case.nout):
        o = g.tensormap[f'o{i}'].numpy
        r = ref[i]
        if o is None:
            yield f'{case.op}:novalue', f'output {i} has no value'
            continue
        o = np.asarray(o)
        st.outcome(case.op, o.tobytes())
        if list(o.shape) != list(r.shape):
            yield f'{case.op}:value-shape', f'output {i}: tool {list(o.shape)}, ONNX {list(r.shape)}'
        elif o.dtype != r.dtype:
            yield f'{case.op}:value-type', f'output {i}: tool {o.dtype}, ONNX {r.dtype}'
        elif not same(o, r, any(a is not None and a.dtype == np.float16 for a, _ in case.ins)):
            yield f'{case.op}:value', f'output {i}: tool {o.flatten().tolist()[:12]}, ONNX {r.flatten().tolist()[:12]}'


def enum(families, tier, pred=None):
    seen = set()
    for f in families:
        for case in opspace.FAMILIES[f](tier):
            if pred is not None and not pred(case):
                continue
            cid = case.cid()
            if cid in seen:
                # same node, different data: keep both under distinct ids
                k = 2
                while f'{cid}~{k}' in seen:
                    k += 1
                cid = f'{cid}~{k}'
            seen.add(cid)
            yield cid, case
