"""Harness: run one operator program on the tool and on the ONNX reference."""
import numpy as np
import onnx
from onnx import helper, TensorProto, numpy_helper
from mc.core import tool, ToolError

NP2ONNX = {np.dtype(k): v for k, v in {
    np.float32: 1, np.uint8: 2, np.int8: 3, np.uint16: 4, np.int16: 5, np.int32: 6, np.int64: 7, np.bool_: 9,
    np.float16: 10, np.float64: 11, np.uint32: 12, np.uint64: 13}.items()}


def make_model(case, out_types=None, all_const=False):
    inits, gins, names = [], [], []
    for j, (a, k) in enumerate(case.ins):
        if a is None:
            names.append('')
            continue
        n = f'i{j}'
        names.append(n)
        if k == 'c' or all_const:
            inits.append(numpy_helper.from_array(a, n))
        else:
            gins.append(helper.make_tensor_value_info(n, NP2ONNX[a.dtype], list(a.shape)))
    outs = [f'o{j}' for j in range(case.nout)]
    attrs = {}
    for k, v in case.attrs.items():
        attrs[k] = numpy_helper.from_array(v, 'v') if isinstance(v, np.ndarray) else v
    node = helper.make_node(case.op, names, outs, name='n0', **attrs)
    gouts = [helper.make_tensor_value_info(o, (out_types[j] if out_types else 1), None) for j, o in enumerate(outs)]
    g = helper.make_graph([node], 'g', gins, gouts, initializer=inits)
    m = helper.make_model(g, opset_imports=[helper.make_opsetid('', case.opset)], ir_version=8)
    return m


def feeds(case):
    return {f'i{j}': a for j, (a, k) in enumerate(case.ins) if a is not None and k == 'd'}


def reference(case):
    """-> list of numpy outputs by the ONNX reference evaluator, or None when it cannot evaluate."""
    from onnx.reference import ReferenceEvaluator
    m = make_model(case)
    try:
        r = ReferenceEvaluator(m).run(None, feeds(case))
        return [np.asarray(x) for x in r]
    except Exception as e:
        return e


def cxx_shapes(case):
    """-> list of (shape|None, dtype) by the C++ shape inference of onnx."""
    m = make_model(case)
    for o in m.graph.output:
        o.type.Clear()
        o.ClearField('type')
    mm = onnx.ModelProto()
    mm.CopyFrom(m)
    try:
        inf = onnx.shape_inference.infer_shapes(mm, strict_mode=True, data_prop=True)
    except Exception as e:
        return None
    out = []
    for o in inf.graph.output:
        t = o.type.tensor_type
        if not t.HasField('shape'):
            out.append((None, t.elem_type))
            continue
        sh = [d_.dim_value if d_.HasField('dim_value') else None for d_ in t.shape.dim]
        out.append((None if None in sh else sh, t.elem_type))
    return out
