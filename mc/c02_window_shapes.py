from mc import opcheck
PID = 'C02'
TECH = 'bounded exhaustive enumeration of single-node programs on the real shape inference, two independent oracles'
RULE = ('every convolution / quantised convolution / pooling / transposed convolution node of mc/opspace.py against a brute-force count of window placements, '
        'and every resize node against the ONNX reference and C++ shape inference; every form with every admitted element type')
ASSUME = ['onnx reference evaluator and onnx C++ shape inference, where they agree, implement the ONNX specification',
          'ranks up to 4 and small dimensions represent larger ones']


def cases(tier):
    return opcheck.enum(['conv', 'qconv', 'pool', 'convT', 'resize', 'typed_window'], tier)


def run_case(cid, case, st):
    if st.cases % 997 == 0:
        st.sample(cid)
    return opcheck.check_shape(case, st)
