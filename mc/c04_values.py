from mc import opcheck, opspace
PID = 'C04'
TECH = 'bounded exhaustive enumeration of single-node programs on the real shape inference, two independent oracles'
RULE = ('every single-node program of every operator family of mc/opspace.py, evaluated on concrete data and compared with the ONNX reference evaluator; '
        'a NotImplementedError is accepted only for the fixed list of operators whose evaluation the tool declines')
ASSUME = ['onnx reference evaluator and onnx C++ shape inference, where they agree, implement the ONNX specification',
          'ranks up to 4 and small dimensions represent larger ones']


def cases(tier):
    return opcheck.enum(list(opspace.FAMILIES), tier)


def run_case(cid, case, st):
    if st.cases % 997 == 0:
        st.sample(cid)
    return opcheck.check_value(case, st)
