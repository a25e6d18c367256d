"""C30: a language model built from its configuration and run by the inference engine generates what the transformer defines, however the tokens are split into steps."""
import contextlib
import io
import itertools
import os
import sys
import tempfile
import types
import numpy as np
from mc import core, torchlike
from mc.core import tool, ToolError
from onnx_tool import llm

torch = torchlike.install()
sys.path.insert(2, os.path.join(core.REPO, 'inference'))
sys.path.insert(3, core.REPO)
STORE = {}                # path -> weights: what safetensors.safe_open reads


class _Open:
    def __init__(self, path, framework=None, device=None):
        self.w = STORE[path]

    __enter__ = lambda s: s
    __exit__ = lambda s, *a: None

    def keys(self):
        return list(self.w)

    def get_tensor(self, n):
        return torch.from_numpy(self.w[n].copy())


class Tokens:
    """a tokenizer of numbers: the text is the token ids"""
    eos_token_id, pad_token_id = -1, 0

    def encode(self, s):
        return [int(v) for v in s.split()]

    def decode(self, ids, skip_special_tokens=False):
        return ' '.join(str(int(v)) for v in ids)


_st = types.ModuleType('safetensors')
_st.safe_open = _Open
_tf = types.ModuleType('transformers')
_tf.AutoTokenizer = type('AutoTokenizer', (), {'from_pretrained': staticmethod(lambda *a, **k: Tokens())})
sys.modules.update({'safetensors': _st, 'transformers': _tf})
import infer          # noqa: E402
import llm_infer      # noqa: E402

PID = 'C30'
TECH = 'exhaustive enumeration of small transformer configurations x token sequences x every split of the sequence into prefill and decode steps, executed by the real engine on a numpy stand-in of torch; oracle is an independent transformer'
RULE = ('three architectures x grouped and ungrouped heads x head sizes x layers x biases x tied and untied embeddings x rotary bases, exported by the builder with a key/value cache; every composition of a sequence of six (thorough: eight) tokens into steps, '
        'each followed by a second conversation on the same engine, and greedy generation by LLMInfer for every prompt length; without a cache every length; one and two conversations in a batch')
ASSUME = ['the numpy stand-in implements the torch functions the engine calls', 'weights in the layout of safetensors files of these architectures']
CTX = 10


def config(arch, hid, nh, kv, hd, layers, bias, tie, theta, vocab=11):
    c = dict(name='m', architectures=[arch], hidden_size=hid, num_attention_heads=nh, num_key_value_heads=kv, num_hidden_layers=layers, intermediate_size=hid + 4,
             vocab_size=vocab, hidden_act='silu', max_position_embeddings=16, rms_norm_eps=1e-6, rope_theta=theta, tie_word_embeddings=tie)
    if hd:
        c['head_dim'] = hd
    if bias is not None:
        c['attention_bias'] = bias
    return c


def weights(c, seed):
    """weights in the layout of the files: a projection of [out, in]"""
    r = np.random.default_rng(seed)
    hid, nh, kv = c['hidden_size'], c['num_attention_heads'], c['num_key_value_heads']
    hd = c.get('head_dim', hid // nh)
    arch = c['architectures'][0]
    ab = c.get('attention_bias')
    qb = ab if ab is not None else arch != 'LlamaForCausalLM'
    ob = bool(ab)
    w = {}

    def mat(n, o, i):
        w[n] = (r.standard_normal((o, i)) * .5).astype('f4')

    def vec(n, k, one=0.):
        w[n] = (r.standard_normal(k) * .3 + one).astype('f4')
    mat('model.embed_tokens.weight', c['vocab_size'], hid)
    if not c['tie_word_embeddings']:
        mat('lm_head.weight', c['vocab_size'], hid)
    vec('model.norm.weight', hid, 1)
    for i in range(c['num_hidden_layers']):
        p = f'model.layers.{i}.'
        vec(p + 'input_layernorm.weight', hid, 1)
        vec(p + 'post_attention_layernorm.weight', hid, 1)
        for n, o in (('q', nh * hd), ('k', kv * hd), ('v', kv * hd)):
            mat(p + f'self_attn.{n}_proj.weight', o, hid)
            if qb:
                vec(p + f'self_attn.{n}_proj.bias', o)
        mat(p + 'self_attn.o_proj.weight', hid, nh * hd)
        if ob:
            vec(p + 'self_attn.o_proj.bias', hid)
        if arch == 'Qwen3ForCausalLM':
            vec(p + 'self_attn.q_norm.weight', hd, 1)
            vec(p + 'self_attn.k_norm.weight', hd, 1)
        for n in ('gate', 'up'):
            mat(p + f'mlp.{n}_proj.weight', c['intermediate_size'], hid)
        mat(p + 'mlp.down_proj.weight', hid, c['intermediate_size'])
    return w


def transformer(c, w, ids):
    """logits of every position, in double precision, straight from the definition of the architecture"""
    w = {k: v.astype('f8') for k, v in w.items()}
    hid, nh, kv = c['hidden_size'], c['num_attention_heads'], c['num_key_value_heads']
    hd = c.get('head_dim', hid // nh)
    S = len(ids)

    def rms(x, g):
        return x / np.sqrt((x * x).mean(-1, keepdims=True) + c['rms_norm_eps']) * g

    def lin(x, n):
        y = x @ w[n + '.weight'].T
        return y + w[n + '.bias'] if n + '.bias' in w else y

    def rope(x):                                  # [S, heads, hd]
        f = c['rope_theta'] ** (-np.arange(0, hd, 2) / hd)
        a = np.arange(S)[:, None] * f[None]
        co, si = np.cos(a)[:, None], np.sin(a)[:, None]
        a, b = x[..., :hd // 2], x[..., hd // 2:]
        return np.concatenate([a * co - b * si, b * co + a * si], -1)
    x = w['model.embed_tokens.weight'][list(ids)]
    for i in range(c['num_hidden_layers']):
        p = f'model.layers.{i}.'
        h = rms(x, w[p + 'input_layernorm.weight'])
        q, k, v = (lin(h, p + f'self_attn.{n}_proj').reshape(S, -1, hd) for n in 'qkv')
        if p + 'self_attn.q_norm.weight' in w:
            q, k = rms(q, w[p + 'self_attn.q_norm.weight']), rms(k, w[p + 'self_attn.k_norm.weight'])
        q, k = rope(q), rope(k)
        o = np.zeros((S, nh, hd))
        for h_ in range(nh):
            g = h_ // (nh // kv)
            for s in range(S):
                sc = k[:s + 1, g] @ q[s, h_] / np.sqrt(hd)
                e = np.exp(sc - sc.max())
                o[s, h_] = (e / e.sum()) @ v[:s + 1, g]
        x = x + lin(o.reshape(S, -1), p + 'self_attn.o_proj')
        h = rms(x, w[p + 'post_attention_layernorm.weight'])
        g = lin(h, p + 'mlp.gate_proj')
        x = x + lin(g / (1 + np.exp(-g)) * lin(h, p + 'mlp.up_proj'), p + 'mlp.down_proj')
    head = w.get('lm_head.weight', w['model.embed_tokens.weight'])
    return rms(x, w['model.norm.weight']) @ head.T


def compositions(n):
    for cut in itertools.product((0, 1), repeat=n - 1):
        c, k = [], 1
        for b in cut:
            if b:
                c.append(k)
                k = 1
            else:
                k += 1
        yield c + [k]


CONFIGS = []
for _arch in ('LlamaForCausalLM', 'Qwen2ForCausalLM', 'Qwen3ForCausalLM'):
    for _nh, _kv, _hd in ((2, 2, None), (2, 1, None), (4, 2, 2), (2, 1, 6), (3, 3, 2)):
        for _layers, _bias, _tie, _th in ((1, None, False, 10000.0), (2, None, True, 1000.0), (2, False, False, 10000.0), (1, True, True, 10000.0), (3, None, False, 100.0)):
            CONFIGS.append((_arch, 8 if _nh != 3 else 6, _nh, _kv, _hd, _layers, _bias, _tie, _th))


def cases(tier):
    n = 8 if tier == 'thorough' else 6
    for c in CONFIGS:
        for cached in (1, 0):
            for batch in (1, 2):
                yield '/'.join(map(str, c)) + ('/cache' if cached else '/plain') + f'/batch{batch}', (c, cached, batch, n)


def build(c, cached, batch, length):
    b = llm.Builder(**c)
    b.build_graph([batch, length])
    if cached:
        b.add_kv_cache(CTX, 0)
    f = tempfile.NamedTemporaryFile(suffix='.onnx', delete=False)
    f.close()
    b.save_graph(f.name)
    return f.name


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-3, atol=1e-3)


def run_case(cid, p, st):
    cv, cached, batch, n = p
    c = config(*cv)
    w = weights(c, len(cid))
    rows = [[3, 1, 4, 1, 5, 9, 2, 6][:n], [2, 7, 1, 8, 2, 8, 1, 8][:n], [10, 0, 10, 7, 3, 3, 0, 1][:n]]
    ids = [rows[:batch], rows[1:1 + batch]]            # two conversations of `batch` rows
    want = [np.stack([transformer(c, w, s) for s in b]) for b in ids]
    STORE['w'] = w
    with contextlib.redirect_stdout(io.StringIO()):
        path = None
        try:
            path = tool(build, c, cached, batch, 8)
            yield from explore(cid, c, cached, batch, n, ids, want, w, path, st)
        except ToolError as x:
            if 'Missing' in str(x.args) or 'unexpected keyword' in str(x.args) or 'positional argument' in str(x.args):
                st.count('not_in_stand_in')
                return
            yield f'raised:{x.args[0]}', ' '.join(map(str, x.args))
        finally:
            if path:
                os.unlink(path)


def explore(cid, c, cached, batch, n, ids, want, w, path, st):
    m = tool(llm_infer.LLMInfer, path, model_name='m', safetensors_path='w', weight_map=llm_infer.get_qwen3_weight_map(c), max_seq_len=8, config=c)
    e = m.engine
    st.state(cid, len(e._node_names))

    def feed(tokens, past, first):
        f = {'ids': torch.from_numpy(np.array(tokens, np.int64)), 'position': torch.from_numpy(np.tile(np.arange(past, past + len(tokens[0])), (batch, 1)))}
        if cached:
            f['n_past'] = torch.tensor(past, dtype=torch.int64)
            if first:
                f['kv_cache'] = torch.from_numpy(np.zeros(e._cg.tensormap['kv_cache'].get_shape(), 'f4'))
        return f
    if cached:
        for comp in compositions(n):
            for k, seq in enumerate(ids):          # a second conversation on the same engine
                past = 0
                for j, step in enumerate(comp if k == 0 else comp[::-1]):
                    got = tool(e.forward, feed([s[past:past + step] for s in seq], past, j == 0))[m.logits_name].a
                    st.valid()
                    if not same(got, want[k][:, past:past + step]):
                        yield 'logits', f'steps {comp}, conversation {k}, tokens {past}..{past + step}: {got.tolist()}, expected {want[k][:, past:past + step].tolist()}'[:500]
                        return
                    past += step
                    st.state(cid, tuple(comp[:j + 1]), k)
    else:
        for L in [*range(1, n + 1), *range(n, 0, -1)]:
            for k, seq in enumerate(ids):
                got = tool(e.forward, feed([s[:L] for s in seq], 0, True))[m.logits_name].a
                st.valid()
                if not same(got, want[k][:, :L]):
                    yield 'logits', f'length {L}, sequence {k}: {got.tolist()}, expected {want[k][:, :L].tolist()}'[:500]
                    return
                st.state(cid, L, k)
    for L in range(1, n + 1) if batch == 1 else ():
        prompt = ids[L % 2][0][:L]
        text = tool(m.generate, ' '.join(map(str, prompt)), 8)
        seq = list(prompt)
        while len(seq) < 9:
            lg = transformer(c, w, seq)[-1]
            top = np.sort(lg)
            if top[-1] - top[-2] < 1e-3:
                st.count('near_tie')
                seq = None
                break
            seq.append(int(lg.argmax()))
        st.valid()
        if seq is not None and text != ' '.join(map(str, seq)):
            yield 'generate', f'prompt {prompt}: {text}, expected {seq}'
            return
        st.state(cid, 'generate', L, text)
