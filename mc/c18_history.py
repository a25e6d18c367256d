"""C18: every answer is a function of its own input, over all bounded histories of calls."""
import copy
import functools
import hashlib
import inspect
import io
import itertools
import os
import pickle
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
import onnx_tool
from onnx_tool import Graph, Model, fusion, llm, quantization, serialization
from onnx_tool.utils import ModelConfig
from mc import core, gx
from mc.core import tool, ToolError
from mc.c07_roundtrip import tmpdir

PID = 'C18'
TECH = 'exhaustive enumeration of call histories: each history runs in a process forked before any call, each answer is compared with the same call in a fresh process; and of call sequences on one graph object against a state model of the object'
RULE = ('(a) process histories: all sequences of two calls over an alphabet of ~40 calls (load with each option, profile with each option, infer, regress, fuse, fold, save, subgraph, quantise, serialise, compress, build language models of several families with and without bias overrides, calls that fail), '
        'and all sequences of three calls over a 10-call core (thorough: 20-call core); (b) object histories: all sequences of up to 3 (thorough 4) calls on one loaded graph over {infer at A, infer at B, infer at A with another type, a failing infer, infer again, profile, profile with exclusions, print, save, save shape-only, reorder, subgraph, compress, pattern search, compute graph, regress} '
        'on three models: every answer equals the answer of a fresh graph brought directly to the same state')
ASSUME = ['a process forked after importing the package and before any call stands for a fresh process', 'answers are compared by digest of files, reports, shapes, types, values, costs']
nd = helper.make_node
F = np.float32


# ---------------------------------------------------------------- inputs
@functools.lru_cache(None)
def models():
    r = np.random.RandomState(5)
    w = lambda *s: (r.randint(-3, 4, s) / 2).astype(F)
    ini = lambda n, a: numpy_helper.from_array(np.asarray(a), n)
    vi = gx.vi
    ms = {}
    ms['conv'] = gx.model([nd('Conv', ['x', 'w', 'b'], ['c'], name='conv', pads=[1, 1, 1, 1]), nd('BatchNormalization', ['c', 's', 'bb', 'm', 'v'], ['d'], name='bn'), nd('Relu', ['d'], ['e'], name='relu'),
                           nd('Constant', [], ['two'], name='k', value=numpy_helper.from_array(np.array(2, F))), nd('Mul', ['e', 'two'], ['y'], name='mul')],
                          [vi('x', ['N', 3, 'h', 'w'])], [vi('y', None)], [ini('w', w(4, 3, 3, 3)), ini('b', w(4)), ini('s', w(4)), ini('bb', w(4)), ini('m', w(4)), ini('v', np.abs(w(4)) + F(1))])
    ms['resh'] = gx.model([nd('Shape', ['x'], ['s'], name='shape'), nd('Gather', ['s', 'i0'], ['n'], name='g'), nd('Unsqueeze', ['n', 'ax'], ['n1'], name='un'), nd('Concat', ['n1', 'm1'], ['t'], name='cc', axis=0),
                           nd('Reshape', ['x', 't'], ['f'], name='rs'), nd('Relu', ['f'], ['y'], name='act')],
                          [vi('x', ['N', 4, 'h'])], [vi('y', None)], [ini('i0', np.array(0, np.int64)), ini('ax', np.array([0], np.int64)), ini('m1', np.array([-1], np.int64))])
    ms['if'] = gx.model([nd('ReduceSum', ['x'], ['r'], name='red', keepdims=0), nd('Greater', ['r', 'z'], ['c'], name='gt'),
                         nd('If', ['c'], ['o'], name='if', then_branch=helper.make_graph([nd('Relu', ['x'], ['a'], name='tb')], 't', [], [vi('a', None)]),
                            else_branch=helper.make_graph([nd('Neg', ['x'], ['b'], name='eb')], 'e', [], [vi('b', None)])), nd('Exp', ['o'], ['y'], name='ex')],
                        [vi('x', [2, 3])], [vi('y', None)], [ini('z', np.array(0, F))])
    ms['topk'] = gx.model([nd('TopK', ['x', 'k'], ['v', 'i'], name='tk'), nd('Relu', ['v'], ['y'], name='r')], [vi('x', [2, 9])], [vi('y', None), vi('i', None, TP.INT64)], [ini('k', np.array([3], np.int64))])
    ms['mm'] = gx.model([nd('MatMul', ['x', 'w1'], ['h'], name='mm1'), nd('Relu', ['h'], ['a'], name='r1'), nd('MatMul', ['a', 'w2'], ['h2'], name='mm2'), nd('Add', ['h2', 'x'], ['y'], name='ad')],
                        [vi('x', [2, 8])], [vi('y', None)], [ini('w1', w(8, 8)), ini('w2', w(8, 8))])
    ms['unsup'] = gx.model([nd('Det', ['x'], ['y'], name='det'), nd('Mystery', ['y'], ['z'], name='my', domain='odd')], [vi('x', [2, 2])], [vi('z', None)], domains=('odd',))
    ms['bad'] = gx.model([nd('MatMul', ['x', 'w'], ['y'], name='m')], [vi('x', [2, 3])], [vi('y', None)], [ini('w', w(5, 4))])
    ms['dang'] = gx.model([nd('Relu', ['x'], ['y'], name='a'), nd('Exp', ['x'], ['q'], name='b')], [vi('x', [2, 3])], [vi('y', None)])
    sp = w(72, 72)
    sp[:40] = 0
    ms['sparse'] = gx.model([nd('MatMul', ['x', 'w'], ['y'], name='mm')], [vi('x', [1, 72])], [vi('y', None)], [ini('w', sp)])
    lin = []
    ms['pad'] = gx.model([nd('Pad', ['x', 'p'], ['a'], name='pd'), nd('AveragePool', ['a'], ['y'], name='ap', kernel_shape=[2, 2], strides=[2, 2])], [vi('x', ['N', 2, 'h', 'w'])], [vi('y', None)], [ini('p', np.array([0, 0, 1, 1, 0, 0, 1, 1], np.int64))])
    return ms


PASSED = []


def xs(*s):
    a = (np.arange(int(np.prod(s))) % 7 - 3).astype(F).reshape(s)
    if len(PASSED) < 50:
        PASSED.append((a, a.copy()))
    return a


def tiny(arch, **kw):
    c = {'name': 'tiny', 'architectures': [arch], 'hidden_size': 8, 'intermediate_size': 12, 'num_attention_heads': 2, 'num_key_value_heads': 1, 'num_hidden_layers': 2, 'vocab_size': 11, 'hidden_act': 'silu', 'rms_norm_eps': 1e-5,
         'max_position_embeddings': 16}
    c.update(kw)
    return c


MOE = dict(num_experts=4, num_experts_per_tok=2, moe_intermediate_size=6)


# ---------------------------------------------------------------- digests
def dig(o):
    h = hashlib.md5()

    def rec(v):
        if isinstance(v, np.ndarray):
            h.update(repr((v.dtype.str, v.shape)).encode())
            h.update(np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v.tolist()).encode())
        elif isinstance(v, dict):
            h.update(b'{')
            for k in v:
                rec(k)
                rec(v[k])
        elif isinstance(v, (list, tuple)):
            h.update(b'[')
            for x in v:
                rec(x)
        elif isinstance(v, (set, frozenset)):
            rec(sorted(v, key=repr))
        elif isinstance(v, onnx.ModelProto) or isinstance(v, onnx.GraphProto):
            h.update(v.SerializeToString(deterministic=True))
        elif isinstance(v, np.generic):
            h.update(repr((v.dtype.str, v.item())).encode())
        else:
            h.update(repr(v).encode())
        h.update(b';')
    rec(o)
    return h.hexdigest()


def gview(g, values=True):
    """everything observable of a graph"""
    t = {}
    for k in sorted(g.tensormap):
        v = g.tensormap[k]
        sh = list(v.get_shape()) if v.shape is not None else None
        t[k] = (sh, str(v.dtype), v.type, None if v.numpy is None or not values else np.asarray(v.numpy))
    n = [(k, m.op_type, list(m.input), list(m.output), repr(getattr(m, 'macs', None)), repr(getattr(m, 'params', None)), repr(getattr(m, 'memory', None))) for k, m in g.nodemap.items()]
    return (n, t, list(g.input), list(g.output), sorted(g.initials), sorted(g.dynamics), repr(getattr(g, 'macs', None)), getattr(g, 'params', None), getattr(g, 'memory', None), getattr(g, 'dedup_params', None))


def files(d):
    res = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        with open(p, 'rb') as fh:
            res[f] = fh.read()
        os.unlink(p)
    return res


# ---------------------------------------------------------------- calls
CALL = {}


def call(fn):
    CALL[fn.__name__] = fn
    return fn


def loadc(key, view=True, **cfg):
    def f(m, d):
        g = Graph(m[key].graph, ModelConfig(cfg)) if view else None
        mod = onnx_tool.loadmodel(m[key], cfg)
        return gview(g) if view else None, gview(mod.graph)
    return f


for _k, _c in [('load_conv', ('conv', {})), ('load_fold', ('conv', {'constant_folding': True})), ('load_rename', ('conv', {'node_rename': True})), ('load_then', ('if', {'if_fixed_branch': 'then'})),
               ('load_else', ('if', {'if_fixed_branch': 'else'})), ('load_topk', ('topk', {'fixed_topk': 2})), ('load_dang', ('dang', {'remove_dangling': True})), ('load_sparse', ('sparse', {})), ('load_verbose', ('mm', {'verbose': True}))]:
    CALL[_k] = loadc(_c[0], **_c[1])


@call
def prof_conv(m, d):
    onnx_tool.model_profile(m['conv'], {'x': xs(1, 3, 6, 6)}, save_profile=os.path.join(d, 'p.csv'))
    return files(d)


@call
def prof_conv_B(m, d):
    onnx_tool.model_profile(m['conv'], {'x': xs(2, 3, 5, 8)}, save_profile=os.path.join(d, 'p.txt'))
    return files(d)


@call
def prof_conv_excl(m, d):
    onnx_tool.model_profile(m['conv'], {'x': xs(1, 3, 6, 6)}, exclude_ops=['Conv', 'Relu'], save_profile=os.path.join(d, 'p.csv'))
    return files(d)


@call
def prof_conv_hidden(m, d):
    onnx_tool.model_profile(m['conv'], {'x': xs(1, 3, 6, 6)}, hidden_ops=None, save_profile=os.path.join(d, 'p.csv'))
    return files(d)


@call
def prof_conv_hidden2(m, d):
    onnx_tool.model_profile(m['conv'], {'x': xs(1, 3, 6, 6)}, hidden_ops=['Mul'], exclude_ops=['Relu'], mcfg={'constant_folding': True, 'verbose': True}, save_profile=os.path.join(d, 'p.csv'), save_model=os.path.join(d, 'o.onnx'))
    return files(d)


@call
def prof_resh(m, d):
    onnx_tool.model_profile(m['resh'], {'x': xs(2, 4, 3)}, save_profile=os.path.join(d, 'p.csv'), save_model=os.path.join(d, 'o.onnx'), shape_only=True)
    return files(d)


@call
def prof_static(m, d):
    onnx_tool.model_profile(m['mm'], None, save_profile=os.path.join(d, 'p.csv'), save_model=os.path.join(d, 'o.onnx'), no_shape=True)
    return files(d)


@call
def prof_sparse(m, d):
    onnx_tool.model_profile(m['sparse'], None, save_profile=os.path.join(d, 'p.csv'))
    return files(d)


@call
def prof_bad(m, d):
    onnx_tool.model_profile(m['bad'], None, save_profile=os.path.join(d, 'p.csv'))
    return files(d)


@call
def prof_noshape(m, d):
    onnx_tool.model_profile(m['conv'], None, save_profile=os.path.join(d, 'p.csv'))
    return files(d)


@call
def prof_unsup(m, d):
    onnx_tool.model_profile(m['unsup'], None, save_profile=os.path.join(d, 'p.csv'))
    return files(d)


@call
def values_mm(m, d):
    g = Graph(m['mm'].graph, ModelConfig({}))
    return g.value_infer({'x': xs(2, 8)}), gview(g)


@call
def regress_resh(m, d):
    e, cg = onnx_tool.model_shape_regress(m['resh'], {'x': ['N', 4, 'h']}, {'N': (1, 4), 'h': (2, 10)})
    e.update_variable('N', 3)
    e.update_variable('h', 5)
    e.update_variables()
    serialization.serialize_shape_engine(e, os.path.join(d, 'e.bin'))
    serialization.serialize_graph(cg, os.path.join(d, 'g.bin'))
    return [(t, e.get_tensorshape(t)) for t in sorted(e.tensor_desc)], files(d)


@call
def compress_conv(m, d):
    g = Graph(m['conv'].graph, ModelConfig({}))
    g.shape_infer({'x': xs(1, 3, 6, 6)})
    r = g.compress_memory()
    serialization.serialize_memory_compression(r[0] if isinstance(r, tuple) else r, {'x': [1, 3, 6, 6]}, os.path.join(d, 'c.bin')) if False else None
    return repr(r)


@call
def fuse_conv(m, d):
    g = Graph(m['conv'].graph, ModelConfig({}))
    fusion.ConvBNFusion(g)
    g.save_model(os.path.join(d, 'o.onnx'))
    return files(d), gview(g)


@call
def fuse_pattern(m, d):
    g = Graph(m['mm'].graph, ModelConfig({}))
    pat = fusion.FusionPattern(fusion.createSerialOpChain(['MatMul', 'Relu']), inplace_fusion=True)
    found = pat.search_pattern(g)
    for names in found:
        g.fuse_postop_node_names(names, True)
    return found, gview(g)


@call
def fuse_attr(m, d):
    g = Graph(m['conv'].graph, ModelConfig({}))
    pat = fusion.FusionPattern(fusion.createSerialPattern(['Conv', 'BatchNormalization', 'Relu']))
    found = pat.search_pattern(g)
    for i, names in enumerate(found):
        g.fuse_subgraph_node_names(names, 'Fused', f'f{i}')
    return found, gview(g)


@call
def noshapes(m, d):
    g = Graph(m['resh'].graph, ModelConfig({}))
    g.shape_infer({'x': xs(2, 4, 3)})
    fusion.removeShapeOps(g)
    return gview(g)


@call
def simplify(m, d):
    onnx_tool.model_constant_folding(m['conv'], os.path.join(d, 'o.onnx'))
    return files(d)


@call
def iomod(m, d):
    onnx_tool.model_io_modify(m['conv'], os.path.join(d, 'o.onnx'), {'x': '2x3x8x8'})
    return files(d)


@call
def iomod_dyn(m, d):
    onnx_tool.model_io_modify(m['mm'], os.path.join(d, 'o.onnx'), {'x': 'batchx8'})
    return files(d)


@call
def reorder(m, d):
    onnx_tool.model_reorder_nodes(m['if'], os.path.join(d, 'o.onnx'))
    return files(d)


@call
def subgraph(m, d):
    onnx_tool.model_subgraph(m['conv'], ['c'], ['e'], save_folder=d)
    onnx_tool.model_subgraph(m['conv'], nodenames=['relu', 'mul'], save_folder=d)
    return files(d)


@call
def opfusion(m, d):
    onnx_tool.model_opfusion(m['mm'], 'MLP', 'mlp', os.path.join(d, 'o.onnx'), nodenames=['mm1', 'r1', 'mm2'])
    return files(d)


@call
def export(m, d):
    onnx_tool.model_export_tensors_numpy(m['mm'], savefolder=d, fp16=True)
    return files(d)


@call
def quant(m, d):
    g = Graph(m['mm'].graph, ModelConfig({}))
    quantization.graph_quantize(g, 'w1', 4, 'sym', 4)
    quantization.graph_quantize(g, 'w2', -1, 'asym', 8)
    return gview(g)


@call
def removeops(m, d):
    g = Graph(m['mm'].graph, ModelConfig({}))
    g.skip_node('r1')
    g.graph_reorder_nodes()
    g.save_model(os.path.join(d, 'o.onnx'))
    return files(d)


DEV = {'FP32': 10, 'FP16': 40, 'INT8': 80, 'Bandwidth': 5, 'Number': 2, 'LinkBandwidth': 1}
CFG = {'Compute': {'MM': 'FP16', 'MHA': 'FP16', 'Others': 'FP32'}, 'Bits': {'MM': 4.5, 'MHA': 16, 'Others': 16}}
LLMS = {
    'llm_llama': (tiny('LlamaForCausalLM'), None, False),
    'llm_llama_bias': (tiny('LlamaForCausalLM', attention_bias=True, mlp_bias=True), DEV, False),
    'llm_unknown': (tiny('SomethingElse', attention_bias=True), None, True),
    'llm_qwen2': (tiny('Qwen2ForCausalLM'), DEV, True),
    'llm_qwen3_nobias': (tiny('Qwen3ForCausalLM', attention_bias=False, head_dim=6), None, False),
    'llm_qwen35': (tiny('Qwen3_5ForConditionalGeneration', layer_types=['linear_attention', 'full_attention']), DEV, False),
    'llm_moe': (tiny('Qwen3_5MoeForCausalLM', **MOE), DEV, True),
    'llm_minimax': (tiny('MiniMaxM2ForCausalLM', rotary_dim=2, **MOE), None, False),
    'llm_phi3': (tiny('Phi3ForCausalLM', model_type='phi3', attention_bias=True), None, False),
}


def llmc(cfg, dev, cache):
    def f(m, d, args):
        b = llm.Builder(**args['cfg'])
        b.build_graph([1, 3])
        if cache:
            b.add_kv_cache(8, 2)
        if args['dev'] is not None:
            b.profile(args['prec'], args['dev'])
        else:
            b.profile()
        b.print_profile(os.path.join(d, 'p.csv'))
        return gview(b.graph), list(b.llm_profile), list(b.context_mem), b.kv_params, files(d)
    f.args = {'cfg': cfg, 'dev': dev, 'prec': CFG}
    return f


for _k, _v in LLMS.items():
    CALL[_k] = llmc(*_v)

CORE = ['load_fold', 'prof_conv', 'prof_conv_excl', 'prof_conv_hidden2', 'load_then', 'prof_resh', 'llm_llama', 'llm_llama_bias', 'fuse_attr', 'iomod']
CORE2 = CORE + ['llm_unknown', 'llm_qwen3_nobias', 'prof_bad', 'quant', 'load_topk', 'regress_resh', 'simplify', 'prof_static', 'subgraph', 'prof_unsup']


def perform(name):
    """digest of the answer and list of modified inputs"""
    m = models()
    fn = CALL[name]
    args = copy.deepcopy(getattr(fn, 'args', None))
    pre = {k: v.SerializeToString(deterministic=True) for k, v in m.items()}
    prea = dig(args)
    d = tmpdir()
    files(d)
    PASSED.clear()
    try:
        with core.quiet():
            if args is None:
                r = ('ok', dig(fn(m, d)))
            else:
                r = ('ok', dig(fn(m, d, args)))
    except core.Hang:
        raise
    except BaseException as e:  # failing calls are part of the alphabet
        r = ('raise', type(e).__name__, str(e)[:120])
    files(d)
    mod = [k for k, v in m.items() if v.SerializeToString(deterministic=True) != pre[k]]
    if any(a.shape != b.shape or a.dtype != b.dtype or a.tobytes() != b.tobytes() for a, b in PASSED):
        mod.append('arrays')
    if dig(args) != prea:
        mod.append('configuration dictionaries')
    return r, mod


def shared():
    """digest of the module-level state (for counting states only)"""
    parts = []
    for mod in (onnx_tool, llm, fusion, onnx_tool.node, onnx_tool.graph, onnx_tool.utils, onnx_tool.model, onnx_tool.tensor):
        for k in sorted(vars(mod)):
            v = vars(mod)[k]
            if isinstance(v, (dict, list, set, tuple)) and not k.startswith('__') and len(repr(v)) < 20000:
                parts.append((mod.__name__, k, repr(sorted(v, key=repr)) if isinstance(v, set) else repr(v)))
            elif inspect.isfunction(v) and v.__defaults__:
                parts.append((mod.__name__, k, repr([x for x in v.__defaults__ if isinstance(x, (dict, list))])))
    return hashlib.md5(repr(parts).encode()).hexdigest()


def forked(names):
    """[(answer, modified inputs, shared state)] of a sequence of calls in a process forked now"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = []
            for n in names:
                a, mod = perform(n)
                out.append((a, mod, shared()))
            os.write(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    try:
        while True:
            b = os.read(r, 65536)
            if not b:
                break
            data += b
    except core.Hang:
        os.kill(pid, 9)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    core.CALLS += len(names)
    return pickle.loads(data) if data else None


@functools.lru_cache(None)
def fresh(name):
    o = forked([name])
    return o[0] if o else None


# ---------------------------------------------------------------- object histories
OMODELS = {'conv': ((1, 3, 6, 6), (2, 3, 5, 8)), 'resh': ((2, 4, 3), (3, 4, 2)), 'pad': ((1, 2, 4, 4), (2, 2, 6, 3))}


def ob_infer(s):
    return lambda g, k, d: g.shape_infer({'x': xs(*OMODELS[k][s])})


def ob_save(**kw):
    def f(g, k, d):
        p = os.path.join(d, 'o.onnx')
        g.save_model(p, **kw)
        r = onnx.load(p)
        os.unlink(p)
        return r
    return f


def ob_print(g, k, d):
    g.print_node_map(os.path.join(d, 'p.csv'))
    return files(d)


def ob_sub(g, k, d):
    n = list(g.nodemap)[1]
    t = g.nodemap[n]
    return [gview(x) for x in g.get_subgraph([t.input[0]], [t.output[0]])]


def ob_prof(excl):
    def f(g, k, d):
        g.profile(excl)
        return [(n, repr(getattr(v, 'macs', None)), repr(getattr(v, 'params', None)), repr(getattr(v, 'memory', None)), repr(getattr(v, 'inshape', None)), repr(getattr(v, 'outshape', None))) for n, v in g.nodemap.items() if n in g.profiled_nodes], g.macs, g.params, g.memory, g.dedup_params, list(g.profiled_nodes)
    return f


def ob_search(g, k, d):
    return [fusion.FusionPattern(fusion.createSerialOpChain(ops)).search_pattern(g) for ops in (['Conv', 'BatchNormalization', 'Relu'], ['Reshape', 'Relu'], ['Pad', 'AveragePool'])]


def ob_regress(g, k, d):
    desc = {'conv': {'x': ['N', 3, 'h', 'w']}, 'resh': {'x': ['N', 4, 'h']}, 'pad': {'x': ['N', 2, 'h', 'w']}}[k]
    rng = {v: (3, 9) for v in desc['x'] if isinstance(v, str)}
    e = g.shape_regress(desc, rng)
    for v in rng:
        e.update_variable(v, 5)
    e.update_variables()
    return [(t, list(e.get_tensorshape(t))) for t in sorted(e.tensor_desc)]


def ob_compute(g, k, d):
    return gview(g.get_compute_graph())


INFER = ('A', 'B', 'D')
OB = {'A': ob_infer(0), 'B': ob_infer(1), 'D': lambda g, k, d: g.shape_infer({'x': xs(*OMODELS[k][0]).astype(np.float64)}), 'bad': lambda g, k, d: g.shape_infer({'x': xs(2)}), 'again': lambda g, k, d: g.shape_infer(), 'profile': ob_prof(None), 'profx': ob_prof({'Conv', 'Reshape', 'Pad'}), 'print': ob_print, 'save': ob_save(), 'saveshape': ob_save(shape_only=True),
      'reorder': lambda g, k, d: g.graph_reorder_nodes(), 'sub': ob_sub, 'compress': lambda g, k, d: repr(g.compress_memory()), 'search': ob_search, 'cg': ob_compute, 'regress': ob_regress}


def step(state, op):
    """state model: (inferred shape, None or '?' when unknown; last profile since then; reordered)"""
    sh, pr, ro = state
    if op in INFER:
        return (op, None, ro)
    if op == 'again':
        return (sh, None, ro)
    if op in ('profile', 'profx'):
        return (sh, op, ro)
    if op in ('regress', 'bad'):
        return ('?', None, ro)
    if op == 'reorder':
        return (sh, pr, True)
    return (sh, pr, ro)


def judged(state, op):
    sh, pr, ro = state
    if op in ('regress', 'bad'):
        return True
    if sh == '?':
        return op in INFER
    if op == 'print':
        return pr is not None and sh is not None
    if op in ('profile', 'profx', 'compress', 'cg', 'again'):
        return sh is not None
    return True


def ob_view(r, g, op):
    if op in INFER or op == 'again':
        return gview(g)[1:6], [(k, v.op_type, list(v.input), list(v.output)) for k, v in g.nodemap.items()]
    return r


@functools.lru_cache(None)
def ob_fresh(k, state, op, cfg):
    """the answer of op on a graph brought directly to the state"""
    g = Graph(models()[k].graph, ModelConfig(dict(cfg)))
    d = tmpdir()
    with core.quiet():
        try:
            if state[2]:
                g.graph_reorder_nodes()
            if state[0] in INFER:
                OB[state[0]](g, k, d)
            if state[1]:
                OB[state[1]](g, k, d)
            core.CALLS += 1
            r = OB[op](g, k, d)
        except core.Hang:
            raise
        except Exception as e:
            return ('raise', type(e).__name__, str(e)[:100])
    return ('ok', dig(ob_view(r, g, op)))


# ---------------------------------------------------------------- driver interface
def cases(tier):
    names = sorted(CALL)
    for a in names:
        for b in names:
            yield f'calls/{a}/{b}', ('calls', (a, b))
    c = CORE if tier == 'quick' else CORE2
    for s in itertools.product(c, repeat=3):
        yield 'calls/' + '/'.join(s), ('calls', s)
    n = 3 if tier == 'quick' else 4
    for k in OMODELS:
        for cfg in ((), (('constant_folding', True),)):
            for m in range(1, n + 1):
                for s in itertools.product(OB, repeat=m):
                    yield f"object/{k}/{'fold' if cfg else 'plain'}/" + '.'.join(s), ('object', (k, cfg, s))


def run_case(cid, payload, st):
    mode, p = payload
    if mode == 'calls':
        for n in p:
            fresh(n)
        out = forked(p)
        if out is None:
            yield 'process ended', cid
            return
        for i, (n, (ans, mod, sh)) in enumerate(zip(p, out)):
            st.state('shared', sh, n)
            want = fresh(n)
            if ans != want[0]:
                yield f'{n} differs after {p[:i]}' if i == 1 else f'{n} differs after a longer history', f'fresh {want[0]}; after {p[:i]}: {ans}'
            for x in mod:
                if x not in want[1] or i == 0:
                    yield f'{n} modified its input {x}', f'history {p[:i]}'
        st.valid(len(p))
        st.count('calls_compared', len(p))
        if len(p) == 3:
            st.sample({'history': p, 'answers': [o[0] for o in out]}, 1)
        return
    k, cfg, seq = p
    g = Graph(models()[k].graph, ModelConfig(dict(cfg)))
    d = tmpdir()
    state = (None, None, False)
    for i, op in enumerate(seq):
        if not judged(state, op) and state[0] != '?':
            return          # a call outside its precondition ends the history (its answer is not claimed)
        j = judged(state, op)
        try:
            with core.quiet():
                core.CALLS += 1
                r = OB[op](g, k, d)
            got = ('ok', dig(ob_view(r, g, op)))
        except core.Hang:
            raise
        except Exception as e:
            got = ('raise', type(e).__name__, str(e)[:100])
        if j:
            want = ob_fresh(k, state if op not in INFER and op not in ('regress', 'bad') else (None, None, state[2]), op, cfg)
            st.valid()
            if got != want:
                yield f'{op} on one graph differs after {seq[:i][-1] if i else "load"}', f'{k} {seq[:i + 1]}: fresh {want}, after history {got}'
                return
        state = step(state, op)
        st.state(k, cfg, state, op)
