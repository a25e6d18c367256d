"""C05: profiled MACs of every single-node program against an independent operation count."""
import functools
import numpy as np
from mc import opcheck, opspace, spec
from mc.core import tool, ToolError

PID = 'C05'
TECH = 'bounded exhaustive enumeration of single-node programs through shape_infer and profile, against an independent operation count'
RULE = ('every single-node program of every operator family of mc/opspace.py with concrete shapes: the profiled MACs are compared with a direct count of '
        'multiply-accumulates (contractions, convolutions, recurrences), window elements (pools), input elements (reductions) or weight x elements (pointwise, weight taken from a unit program of the same operator)')
ASSUME = ['the relative weights of transcendental pointwise operators are tool conventions: only their linearity in the element count is checked',
          'small dimensions represent larger ones']

MOVE = {'Cast', 'Concat', 'Compress', 'Constant', 'ConstantOfShape', 'DepthToSpace', 'SpaceToDepth', 'Dropout', 'Expand', 'Flatten', 'Gather',
        'GatherElements', 'GatherND', 'Identity', 'OneHot', 'Pad', 'Reshape', 'ScatterElements', 'ScatterND', 'Shape', 'Slice', 'Split', 'Squeeze', 'Tile',
        'Transpose', 'Trilu', 'Unsqueeze', 'Where', 'Range'}
ONE = {'Add', 'Sub', 'Mul', 'Neg', 'Abs', 'Ceil', 'Floor', 'Round', 'Sign', 'Relu', 'Less', 'LessOrEqual', 'Greater', 'GreaterOrEqual', 'Equal', 'And', 'Or', 'Xor',
       'Not', 'Mod'}
REDUCE1 = {'ReduceMean', 'ReduceSum', 'ReduceMax', 'ReduceMin', 'ReduceProd'}
# weight per output element is a tool convention
POINT = {'Atan', 'Clip', 'Cos', 'Sin', 'Div', 'Elu', 'Exp', 'Gelu', 'HardSigmoid', 'HardSwish', 'LeakyRelu', 'Log', 'LogSoftmax', 'PRelu', 'Pow', 'Reciprocal', 'Sigmoid', 'Softmax', 'Softplus', 'Sqrt', 'Tanh',
         'QuantizeLinear', 'DequantizeLinear', 'Hardmax', 'Erf', 'BatchNormalization', 'InstanceNormalization', 'LpNormalization', 'CumSum'}
INPUTWISE = {'ReduceL2'}


def vol(s):
    r = 1
    for x in s:
        r *= int(x)
    return r


def measure(case):
    """-> (macs, [input shapes], [output shapes]) by the tool."""
    g = opcheck.load(case)
    tool(g.shape_infer, None)
    tool(g.profile)
    n = [x for x in g.nodemap.values() if x.op_type == case.op][0]
    outs = [[int(v) for v in g.tensormap[f'o{i}'].get_shape()] for i in range(case.nout)]
    return n.macs, outs


def unit_case(case):
    """The smallest program of the same operator/attributes: dims 2, used to read the weight of one element."""
    C = opspace.Case
    x, k = case.ins[0]
    r = x.ndim
    if case.op in ('BatchNormalization', 'InstanceNormalization'):
        s = [2] * r
        ins = [(np.zeros(s, x.dtype), k)] + [(np.ones([2], a.dtype), kk) for a, kk in case.ins[1:]]
        return C(case.op, case.attrs, ins, 1, case.opset)
    if case.op in ('QuantizeLinear', 'DequantizeLinear'):
        ins = [(np.zeros([2, 2], x.dtype), k)] + [(np.ones([], a.dtype) if a is not None else None, kk) for a, kk in case.ins[1:]]
        return C(case.op, {}, ins, 1, case.opset)
    at = {k2: v for k2, v in case.attrs.items() if k2 not in ('axis',)}
    ins = [(np.ones([2], x.dtype), k)]
    for a, kk in case.ins[1:]:
        if a is None or case.op in ('Clip', 'CumSum'):
            ins.append((a if case.op != 'CumSum' else np.zeros([], a.dtype), kk))
        else:
            ins.append((np.ones([2], a.dtype), kk))
    return C(case.op, at, ins, 1, case.opset)


_weights = {}


def weight(case):
    u = unit_case(case)
    key = u.cid()
    if key not in _weights:
        m, o = measure(u)
        v = vol(o[0])
        _weights[key] = m / v
    return _weights[key]


def einsum_indices(eq, shapes):
    """product of the sizes of all distinct indices (ellipsis axes broadcast)."""
    lhs = eq.replace(' ', '').split('->')[0].split(',')
    dims = {}
    ell = []
    for term, s in zip(lhs, shapes):
        s = list(s)
        if '...' in term:
            a, b = term.split('...')
            mid = s[len(a):len(s) - len(b)]
            ell = list(np.broadcast_shapes(tuple(ell), tuple(mid)))
            pairs = list(zip(a, s[:len(a)])) + list(zip(b, s[len(s) - len(b):]))
        else:
            pairs = list(zip(term, s))
        for ch, v in pairs:
            dims[ch] = max(dims.get(ch, 1), v)
    return vol(dims.values()) * vol(ell)


def expected(case, outs):
    """-> exact count, or None when the operator's count is not specified."""
    op, a = case.op, case.attrs
    ish = [None if x is None else list(x.shape) for x, _ in case.ins]
    out = vol(outs[0])
    if op in MOVE:
        return 0
    if op in ONE:
        return out
    if op in ('Sum', 'Min', 'Max'):
        return (len(ish) - 1) * out if len(ish) > 1 else None
    if op in REDUCE1:
        return vol(ish[0])
    if op in ('Conv', 'ConvInteger', 'QLinearConv'):
        w = ish[3] if op == 'QLinearConv' else ish[1]
        bias = {'Conv': 2, 'QLinearConv': 8}.get(op)
        b = out if bias is not None and len(ish) > bias and ish[bias] is not None else 0
        return out * vol(w[1:]) + b
    if op == 'ConvTranspose':
        b = out if len(ish) > 2 and ish[2] is not None else 0
        return vol(ish[0]) * vol(ish[1][1:]) + b
    if op in ('MatMul', 'MatMulInteger', 'QLinearMatMul'):
        if op == 'MatMulInteger' and len(ish) > 2:
            return None
        return out * ish[0][-1]
    if op == 'Gemm':
        k = ish[0][0] if a.get('transA', 0) else ish[0][1]
        return out * k + (out if len(ish) > 2 and ish[2] is not None else 0)
    if op == 'Einsum':
        eq = a['equation']
        return einsum_indices(eq if isinstance(eq, str) else eq.decode(), ish)
    if op in ('MaxPool', 'AveragePool'):
        return out * vol(a['kernel_shape'])
    if op in POINT:
        return out * weight(case)
    if op in INPUTWISE:
        return None
    return None


def rnn(case, outs):
    """(gemm+bias count, pointwise element count)"""
    ish = [None if x is None else list(x.shape) for x, _ in case.ins]
    x, w, r = ish[:3]
    lay = case.attrs.get('layout', 0)
    seq, batch = (x[1], x[0]) if lay else (x[0], x[1])
    core = (vol(w) + vol(r)) * batch * seq
    if len(ish) > 3 and ish[3] is not None:
        core += vol(ish[3]) * batch * seq
    hid = r[-1]
    return core, seq * batch * hid * w[0]


_rnnc = {}


def cases(tier):
    return opcheck.enum([f for f in opspace.FAMILIES if not f.startswith('typed')], tier)


def run_case(cid, case, st):
    if spec.window_shape(case) is None:
        st.count('undecided_by_oracle')
        return
    if any(x is not None and x.size == 0 for x, _ in case.ins) or (case.ins and case.ins[0][0] is not None and case.ins[0][0].ndim == 0 and case.op in INPUTWISE):
        st.count('empty')
        return
    try:
        m, outs = measure(case)
    except ToolError as e:
        # shape inference that refuses or fails is judged by C01..C03; a failing profile is judged here
        if 'profile' in e.args[2] or '_core' in e.args[2]:
            yield f'{case.op}:raises', ' '.join(e.args)
        else:
            st.count('shape_refused')
        return
    if any(vol(o) == 0 for o in outs):
        st.count('empty')
        return
    if st.cases % 997 == 0:
        st.sample({'case': cid, 'macs': m})
    if case.op in ('LSTM', 'GRU'):
        core, pw = rnn(case, outs)
        rest = m - core
        st.valid()
        st.outcome(case.op, m)
        if rest < 0 or rest % pw:
            yield f'{case.op}:macs', f'tool {m}, gates {core}, remainder not a multiple of {pw} gate elements'
        elif case.op not in _rnnc:
            _rnnc[case.op] = rest // pw
        elif _rnnc[case.op] != rest // pw:
            yield f'{case.op}:macs', f'tool {m}, gates {core}, activation weight {rest / pw} differs from {_rnnc[case.op]}'
        return
    if any(len(o) == 0 for o in outs[:1]):
        st.count('scalar_output')   # the tool uses volume 0 for rank-0 tensors: outside the property
        return
    if case.op in ('Resize', 'Upsample'):
        u, uo = measure(opspace.Case('Resize', {'mode': case.attrs.get('mode', 'nearest')}, [
            (np.ones([1, 1, 2, 2], np.float32), 'd'), (None, ''), (None, ''), (np.array([1, 1, 2, 3], np.int64), 'c')]))
        want = u / 6 * vol(outs[0])
    elif case.op in INPUTWISE:
        u = opspace.Case(case.op, {'keepdims': 1}, [(np.ones([2, 2], np.float32), 'd')])
        mu, _ = measure(u)
        want = mu / 4 * vol(case.ins[0][0].shape)
    elif case.op == 'GlobalAveragePool':
        x = case.ins[0][0].shape
        u, uo = measure(opspace.Case(case.op, {}, [(np.ones([1, 1, 2, 2], np.float32), 'd')]))
        want = vol(x) + (u - 4) * vol(outs[0])
    else:
        want = expected(case, outs)
    if want is None:
        st.count('no_count_defined:' + case.op)
        return
    st.valid()
    st.outcome(case.op, m)
    if m != want:
        yield f'{case.op}:macs', f'tool {m}, operator definition {want}'
