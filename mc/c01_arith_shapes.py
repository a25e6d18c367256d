from mc import opcheck
PID = 'C01'
TECH = 'bounded exhaustive enumeration of single-node programs on the real shape inference, two independent oracles'
RULE = ('every node of the elementwise/broadcast/comparison/reduction/matrix/normalisation/quantise families: all attribute settings x all input shapes '
        'up to the rank/dimension bounds of mc/opspace.py; every form of every operator with every element type admitted for each type parameter; the case is decided when the ONNX reference evaluator and the C++ ONNX shape inference agree')
ASSUME = ['onnx reference evaluator and onnx C++ shape inference, where they agree, implement the ONNX specification',
          'ranks up to 4 and small dimensions represent larger ones']


def pred(c):
    return c.op not in ('LSTM', 'GRU')


def cases(tier):
    return opcheck.enum(['unary', 'binary', 'reductions', 'matmul', 'norms', 'unary_more', 'binary_more', 'reductions_more', 'typed_arith', 'typed_norms'], tier, pred)


def run_case(cid, case, st):
    if st.cases % 997 == 0:
        st.sample(cid)
    return opcheck.check_shape(case, st)
