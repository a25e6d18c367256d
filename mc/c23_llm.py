"""C23: language-model graphs against an independent definition of each architecture, over a bounded configuration space."""
import itertools
import os
import numpy as np
from onnx_tool import llm, device
from onnx_tool import node as nodes
from onnx_tool.tensor import STATIC_TENSOR
from mc import core
from mc.core import tool, ToolError
from mc.c07_roundtrip import tmpdir

PID = 'C23'
TECH = 'exhaustive enumeration of language-model configurations x shapes x cache x device settings; every built graph is compared with weights, costs and shapes computed from a separate definition of the architecture'
RULE = ('all 12 known families and an unknown one x {heads, grouped key/value heads, explicit head size} x {attention bias absent/on/off} x {feed-forward bias absent/on/off} x hybrid layer patterns, expert and latent-attention options, soft-capping, partial rotary size, both norm spellings, both config spellings, '
        'x {batch 1-2, sequence 1-5, past 0-3, with and without cache}; each graph also re-inferred at every other input shape; latency on every listed device and on synthetic ones x precision, width, device-count and link settings; the vision encoder x its options')
ASSUME = ['the definition of a family is the layer structure its own documentation in llm.py and node.py gives; costs of elementwise operators are claimed by C05, here only their counts and shapes', 'sizes below 20 represent larger ones', 'compressed key/value weights are documented as not modelled']
EXP, MUL, ADD, DIV, CMP, SQRT, COS, SIN = nodes.EXP_MACS, nodes.MUL_MACS, nodes.ADD_MACS, nodes.DIV_MACS, nodes.CMP_MACS, nodes.SQRT_MACS, nodes.COS_MACS, nodes.SIN_MACS

#            gate fuse qkvb ob mlpb headb nbias qknorm gated moe mla sharedgate shared rope pos
FAM = {
    'LlamaForCausalLM': dict(gate=1),
    'Qwen2ForCausalLM': dict(gate=1, qkvb=1),
    'Qwen3ForCausalLM': dict(gate=1, qkvb=1, qknorm=1),
    'Qwen3_5ForConditionalGeneration': dict(gate=1, qknorm=1, gated=1),
    'Qwen3_5MoeForCausalLM': dict(gate=1, qknorm=1, gated=1, moe=1, shared=1, sharedgate=1),
    'DeepSeekV4ForCausalLM': dict(gate=1, moe=1, mla=1, shared=1),
    'MiniMaxM2ForCausalLM': dict(gate=1, qknorm=1, moe=1),
    'Phi3ForCausalLM': dict(fuse=1),
    'PhiForCausalLM': dict(nbias=1, qkvb=1, ob=1, headb=1),
    'Phi3SmallForCausalLM': dict(fuse=1),
    'GPTJForCausalLM': dict(nbias=1),
    'GPT2LMHeadModel': dict(nbias=1, fuse=1, qkvb=1, ob=1, mlpb=1, norope=1, pos=1),
}


class Def:
    """Expected weights and node costs of a configuration at batch b, sequence s, past p (None: no cache)."""

    def __init__(self, c, b, s, p, prefill):
        f = dict(FAM.get(c['architectures'][0], FAM['LlamaForCausalLM']))
        f = {k: f.get(k, 0) for k in ('gate', 'fuse', 'qkvb', 'ob', 'mlpb', 'headb', 'nbias', 'qknorm', 'gated', 'moe', 'mla', 'sharedgate', 'shared', 'norope', 'pos')}
        if 'attention_bias' in c:
            f['qkvb'] = f['ob'] = int(c['attention_bias'])
        if 'mlp_bias' in c:
            f['mlpb'] = int(c['mlp_bias'])
        H = c.get('hidden_size', c.get('n_embd'))
        nh = c.get('num_attention_heads', c.get('n_head'))
        nkv = c.get('num_key_value_heads', nh)
        L = c.get('num_hidden_layers', c.get('n_layer'))
        I = c.get('intermediate_size', c.get('ff_intermediate_size', c.get('n_inner') or 4 * H))
        hd = c.get('head_dim', H // nh)
        V = c['vocab_size']
        self.weights = []       # shapes of parameters
        self.nodes = []         # (op type, macs or None, output shape, active weight elements, cached elements)
        T = b * s
        W = self.weights.append

        def lin(fi, fo, bias):
            W((fi, fo))
            if bias:
                W((fo,))
            self.nodes.append(('MatMul', T * fi * fo + (T * fo * ADD if bias else 0), (b, s, fo), fi * fo + (fo if bias else 0), 0))

        def other(op, width, act=0):
            self.nodes.append((op, None, (b, s, width), act, 0))

        def norm():
            W((H,))
            if f['nbias']:
                W((H,))
            other('LayerNormalization', H, H * (1 + f['nbias']))

        def headnorm(width, d):
            W((d,))
            other('LayerNormalization', width, d)

        def emb(rows):
            W((rows, H))
            self.nodes.append(('Gather', 0, (b, s, H), T * H, 0))
        emb(V)
        if f['pos']:
            emb(c.get('n_positions', 1024))
            other('Add', H)
        q, kv = nh * hd, nkv * hd
        sall = s + (p or 0)
        self.tables = None
        for i in range(L):
            norm()
            linear = 'layer_types' in c and i < len(c['layer_types']) and c['layer_types'][i] == 'linear_attention'
            if linear:
                gq, gv = c.get('linear_num_key_heads', nkv), c.get('linear_num_value_heads', 2 * nkv)
                dq, dv = c.get('linear_key_head_dim', hd), c.get('linear_value_head_dim', hd)
                K = c.get('linear_conv_kernel_dim', 4)
                lin(H, gq * dq, f['qkvb'])
                lin(H, gq * dq, f['qkvb'])
                lin(H, gv * dv, f['qkvb'])
                headnorm(gq * dq, dq)
                headnorm(gq * dq, dq)
                W((gv * dv, H))
                if f['ob']:
                    W((H,))
                m = 2 * T * gq * dq * K + T * s * gq * dq + T * s * gv * dv + T * H * (EXP + MUL) + T * gv * dv * H + (T * H * ADD if f['ob'] else 0)
                self.nodes.append(('GDN', m, (b, s, H), gv * dv * H + (H if f['ob'] else 0), 0))
            elif f['mla']:
                self.mla(c, T, b, s, H, nh, hd, p or 0)
            else:
                lin_q = q * 2 if f['gated'] else q
                if f['fuse'] and not f['gated']:
                    lin(H, q + 2 * kv, f['qkvb'])
                    for w in (q, kv, kv):
                        other('Slice', w, 4)
                else:
                    lin(H, lin_q, f['qkvb'])
                    lin(H, kv, f['qkvb'])
                    lin(H, kv, f['qkvb'])
                    if f['gated']:
                        other('Slice', q, 4)
                        other('Slice', q, 4)
                if f['qknorm']:
                    headnorm(q, hd)
                    headnorm(kv, hd)
                if not f['norope']:
                    rd = c.get('rotary_dim', hd) // 2
                    mp = c.get('max_position_embeddings', 4096)
                    self.tables = (mp, rd)
                    for w in (q, kv):
                        other('Rope', w, 2 * min(s, mp) * rd)
                sa = sall if p is not None else s
                self.nodes.append(('SDPA', 2 * b * nh * s * sa * hd + b * nh * s * sa * (EXP + DIV), (b, s, q), 0, 2 * b * nkv * sa * hd))
                if f['gated']:
                    other('Silu', q)
                    other('Mul', q)
                lin(q, H, f['ob'])
            other('Add', H)
            norm()
            if f['moe']:
                self.moe(c, f, T, b, s, H, I)
            elif c.get('model_type') in ('phi3', 'phi3small'):
                lin(H, 2 * I, f['mlpb'])
                other('GeGelu', I)
                lin(I, H, f['mlpb'])
            else:
                lin(H, I, f['mlpb'])
                if f['gate']:
                    lin(H, I, f['mlpb'])
                other({'silu': 'Silu', 'gelu_new': 'Gelu'}[c.get('hidden_act', c.get('activation_function'))], I)
                if f['gate']:
                    other('Mul', I)
                lin(I, H, f['mlpb'])
            other('Add', H)
        norm()
        lin(H, V, f['headb'])
        if c.get('final_logit_softcapping') is not None:
            other('LogitSoftCapping', V, None)
        self.out = (b, s, V)

    def moe(self, c, f, T, b, s, H, I):
        E, k = c.get('num_experts', c.get('num_local_experts', 256)), c.get('num_experts_per_tok', 8)
        M = c.get('moe_intermediate_size', I)
        S = c.get('shared_expert_intermediate_size', M)
        W = self.weights.append
        W((H, E))
        for sh in ((E, M, H), (E, M, H), (E, H, M)):
            W(sh)
        m = T * H * E + 3 * T * k * H * M + T * k * M * (EXP + MUL) + T * k * M * MUL
        act = H * E + min(T * k, E) * 3 * M * H
        if f['shared']:
            for sh in ((S, H), (S, H), (H, S)):
                W(sh)
            m += 3 * T * H * S + T * S * (EXP + MUL) + T * S * MUL
            act += 3 * S * H
            if f['sharedgate']:
                W((H,))
                m += T * H * (EXP + MUL)
                act += H
        m += T * H * ADD
        self.nodes.append(('MoE', m, (b, s, H), act, 0))

    def mla(self, c, T, b, s, D, N, H, past):
        Qr, Or, G, R = c.get('q_lora_rank', 1024), c.get('o_lora_rank', 1024), c.get('o_groups', 8), c.get('rope_head_dim', 64)
        C = c.get('compress_ratio', 0)
        win = min(c.get('window_size', 128), s + past)
        XN, XD, XT = c.get('index_n_heads', 64), c.get('index_head_dim', 128), c.get('index_topk', 512)
        W = self.weights.append
        ws = [(Qr, D), (Qr,), (N * H, Qr), (H, D), (H,), (G * Or, N * H // G), (D, G * Or)]
        for w in ws:
            W(w)
        rms = 2 * MUL + 2 * ADD + SQRT + DIV
        rot = COS + SIN + 2 * MUL
        m = T * (D * Qr + Qr * N * H + D * H)                              # low-rank query and joint key/value projections
        m += T * (Qr * rms + N * H * (2 * MUL + ADD + SQRT + DIV) + H * rms)
        kv = s + past
        if C > 0:
            ca = (s + past) // C            # compressed tokens attended to
            ct = ca - past // C             # of which produced now
            m += T * D * H                                                   # compressor gate
            m += b * ct * (C * H * (EXP + DIV + MUL + ADD) + H * rms + R * rot)
            if C == 4:
                m += 2 * T * D * XD
                m += b * ct * (C * XD * (EXP + DIV + MUL + ADD) + XD * rms + R * rot)
                m += T * Qr * XN * XD + T * XN * R * rot
                m += T * XN * XD * ca + T * XN * ca * (CMP + MUL) + T * D * XN
                if ca > 1:
                    m += T * ca * int(np.floor(np.log2(ca))) * CMP
            kv = win + ca + min(XT, ca)
        m += T * N * R * rot + T * R * rot
        m += 2 * T * N * H * kv + T * N * kv * (EXP + DIV)
        m += T * G * (N * H // G) * Or + T * G * Or * D
        self.nodes.append(('MLA', m, (b, s, D), sum(int(np.prod(w)) for w in ws), 0))


# ---------------------------------------------------------------- shapes by rule
def shape_of(nd, t, g):
    """output shape of one node by its operator's rule; raises when its inputs do not fit"""
    k = nd.op_type
    i = [t[x] for x in nd.input]

    def need(c, msg):
        if not c:
            raise ValueError(f'{k} {nd.name}: {msg} {i}')
    if k == 'Gather':
        return i[1] + i[0][1:]
    if k in ('Silu', 'Gelu', 'LogitSoftCapping', 'Rope'):
        return i[0]
    if k == 'GeGelu':
        need(i[0][-1] % 2 == 0, 'odd width')
        return i[0][:-1] + (i[0][-1] // 2,)
    if k == 'LayerNormalization':
        for w in i[1:]:
            need(len(w) == 1 and i[0][-1] % w[0] == 0, 'scale does not fit')
        return i[0]
    if k in ('Add', 'Mul'):
        return tuple(np.broadcast_shapes(*i))
    if k == 'MatMul':
        need(i[0][-1] == i[1][0], 'inner sizes differ')
        if len(i) > 2:
            need(i[2] == i[1][1:], 'bias does not fit')
        return i[0][:-1] + (i[1][1],)
    if k == 'Slice':
        st, en, ax = (int(np.asarray(g.tensormap[nd.input[j]].numpy).reshape(-1)[0]) for j in (1, 2, 3))
        need(0 <= st < en <= i[0][ax], 'range outside the tensor')
        return i[0][:ax] + (en - st,) + i[0][ax + 1:]
    if k == 'SDPA':
        need(i[0][-1] == nd.head_num * nd.head_size and i[1][-1] == nd.kv_head_num * nd.head_size == i[2][-1], 'heads do not fit')
        need(nd.head_num % nd.kv_head_num == 0, 'groups do not divide')
        return i[0]
    if k == 'GDN':
        need(i[0] == i[1] and i[0][-1] == nd.num_q_heads * nd.qk_head_dim and i[2][-1] == nd.num_v_heads * nd.v_head_dim, 'heads do not fit')
        if len(i) > 3:
            need(i[3] == (i[2][-1], nd.hidden_size), 'output projection does not fit')
        return i[0][:-1] + (nd.hidden_size,)
    if k == 'MoE':
        need(i[0][-1] == i[1][0] and i[2][0] == i[1][1] and i[2] == i[3] and i[2][2] == i[0][-1] and i[4] == (i[2][0], i[2][2], i[2][1]), 'expert weights do not fit')
        if len(i) > 5:
            need(i[5] == i[6] and i[5][1] == i[0][-1] and i[7] == i[5][::-1], 'shared expert does not fit')
        return i[0]
    if k == 'MLA':
        need(i[1][1] == i[0][-1] and i[3] == (nd.n_heads * nd.head_dim, i[1][0]) and i[4] == (nd.head_dim, i[0][-1]) and i[7][0] == i[0][-1], 'projections do not fit')
        return i[0]
    if k == 'Conv':
        need(i[0][1] == i[1][1], 'channels differ')
        ks, stp = i[1][2:], nd.strides
        return i[0][:1] + i[1][:1] + tuple((i[0][2 + j] - ks[j]) // stp[j] + 1 for j in range(2))
    if k == 'Reshape':
        v = tuple(int(x) for x in g.tensormap[nd.input[1]].numpy)
        need(np.prod(v) == np.prod(i[0]), 'sizes differ')
        return v
    raise ValueError(f'unexpected operator {k}')


def walk(g, given=None):
    """(first problem or None, shapes) from a pass over the graph in its own order"""
    t, k_slices = {}, {}
    for n in g.initials:
        t[n] = tuple(g.tensormap[n].get_shape())
    for n in g.input:
        t[n] = tuple((given or {}).get(n, g.tensormap[n].get_shape()))
    for name, nd in g.nodemap.items():
        for x in nd.input:
            if x not in t:
                return f'{name} reads {x} before it is produced', t
        try:
            s = shape_of(nd, t, g)
        except ValueError as e:
            return str(e), t
        if nd.op_type == 'Slice':
            st, en = (int(np.asarray(g.tensormap[nd.input[j]].numpy).reshape(-1)[0]) for j in (1, 2))
            k_slices.setdefault(nd.input[0], []).append((st, en))
        if len(nd.output) != 1 or nd.output[0] in t:
            return f'{name} outputs {nd.output}', t
        t[nd.output[0]] = s
    for x, parts in k_slices.items():       # a fused projection is cut into its parts, in order
        edges = sorted(parts)
        if edges != parts or edges[0][0] != 0 or edges[-1][1] != t[x][-1] or any(a[1] != b[0] for a, b in zip(edges, edges[1:])):
            return f'{x} of width {t[x][-1]} is cut into {parts}', t
    return None, t


# ---------------------------------------------------------------- spaces
BASE = {'hidden_size': 8, 'intermediate_size': 10, 'num_attention_heads': 2, 'num_key_value_heads': 2, 'num_hidden_layers': 1, 'vocab_size': 7, 'hidden_act': 'silu', 'rms_norm_eps': 1e-5, 'max_position_embeddings': 16}
WMAP = {**llm.WeightMap, 'embedding': {'embed': 'emb', 'pos': 'pos'}}
MOE = [dict(num_experts=3, num_experts_per_tok=2, moe_intermediate_size=6), dict(num_local_experts=5, num_experts_per_tok=1, moe_intermediate_size=4, shared_expert_intermediate_size=6), dict(num_experts=4, num_experts_per_tok=2)]
MLA = [dict(q_lora_rank=6, o_lora_rank=4, o_groups=2, rope_head_dim=2), dict(q_lora_rank=5, o_lora_rank=3, o_groups=1, rope_head_dim=4, window_size=2)]
COMP = [dict(compress_ratio=r, index_n_heads=3, index_head_dim=5, index_topk=1, window_size=3, **{k: v for k, v in MLA[0].items()}) for r in (2, 4)]
GDN = [dict(linear_num_key_heads=2, linear_num_value_heads=4, linear_key_head_dim=3, linear_value_head_dim=5, linear_conv_kernel_dim=4), dict(linear_num_key_heads=3, linear_key_head_dim=4, linear_conv_kernel_dim=2), {}]


def configs(tier):
    """(key, configuration)"""
    fams = list(FAM) + ['UnknownForCausalLM']
    for fam in fams:
        f = FAM.get(fam, {})
        heads = [(2, 2, None), (4, 2, None), (4, 1, 3), (2, 1, 6)]
        abias, mbias = [None, False, True], [None, True] + ([False] if f.get('mlpb') else [])
        extra = [{}]
        if f.get('moe'):
            extra = MOE
        if f.get('mla'):
            extra = [{**a, **b} for a in MOE for b in MLA] + [{**MOE[0], **x} for x in COMP]
        if fam in ('LlamaForCausalLM', 'UnknownForCausalLM'):
            extra = [{}, {'final_logit_softcapping': 30.0}, {'attn_logit_softcapping': 50.0}, {'hidden_act': 'gelu_new'}, {'rotary_dim': 2}, {'layer': 3}, {'eps': 1}, {'ff': 1}]
        if fam == 'MiniMaxM2ForCausalLM':
            extra = [{**m, 'rotary_dim': 2} for m in MOE] + MOE[:1]
        if fam.startswith('Qwen3_5'):
            extra = []
            for m in (MOE if f.get('moe') else [{}]):
                for pat in ('F', 'G', 'GF', 'FG', 'GGF'):
                    for gd in (GDN if 'G' in pat else [{}]):
                        extra.append({**m, **gd, 'layer': len(pat), 'layer_types': ['linear_attention' if x == 'G' else 'full_attention' for x in pat]})
        if fam.startswith('Phi3'):
            extra = [{'model_type': 'phi3'}, {'model_type': 'phi3small'}, {}]
        for (nh, nkv, hd), ab, mb, ex in itertools.product(heads, abias, mbias, extra):
            if f.get('moe') and mb is not None:
                continue
            if f.get('mla') and (nkv != 2 or ab is not None and nh != 2):
                continue
            c = dict(BASE, name='m', architectures=[fam], num_attention_heads=nh, num_key_value_heads=nkv)
            c.update(ex)
            if 'layer' in c:
                c['num_hidden_layers'] = c.pop('layer')
            if c.pop('eps', 0) or f.get('nbias'):
                c['layer_norm_eps'] = c.pop('rms_norm_eps')
            if f.get('nbias'):
                c['hidden_act'] = 'gelu_new'
            if c.pop('ff', 0):
                c['ff_intermediate_size'] = c.pop('intermediate_size')
            if hd is not None:
                c['head_dim'] = hd
            if ab is not None:
                c['attention_bias'] = ab
            if mb is not None:
                c['mlp_bias'] = mb
            yield f"{fam}.h{nh}.{nkv}.{hd}.ab{ab}.mb{mb}." + '.'.join(f'{k}={ex[k]}' for k in sorted(ex)).replace('linear_attention', 'G').replace('full_attention', 'F').replace(' ', ''), c
    for nh, inner, npos, L in itertools.product((1, 2, 4), (None, 'absent', 12), (None, 9), (1, 2)):
        c = {'name': 'g', 'architectures': ['GPT2LMHeadModel'], 'n_embd': 8, 'n_head': nh, 'n_layer': L, 'vocab_size': 7, 'activation_function': 'gelu_new', 'layer_norm_epsilon': 1e-5}
        if inner != 'absent':
            c['n_inner'] = inner
        if npos:
            c['n_positions'] = npos
        yield f'gpt2-spelling.h{nh}.i{inner}.p{npos}.l{L}', c


def gdn_mla_key(c):
    return None


SHAPES = [(1, 1), (1, 3), (2, 2), (1, 5)]
CACHES = [None, 0, 3]
DEV = {'slow-memory': {'FP32': 10., 'FP16': 40., 'INT8': 100., 'Bandwidth': 0.01}, 'slow-compute': {'FP32': 0.001, 'FP16': 0.004, 'Bandwidth': 100.},
       'two': {'FP32': 1., 'FP16': 3., 'Bandwidth': 1., 'Number': 2, 'LinkBandwidth': 0.5}, 'four': {'FP32': 1., 'FP16': 3., 'INT8': 7., 'Bandwidth': 2., 'Number': 4, 'LinkBandwidth': 3.}, 'nolink': {'FP32': 1., 'FP16': 3., 'Bandwidth': 1., 'Number': 4},
       'onelink': {'FP32': 1., 'FP16': 3., 'Bandwidth': 1., 'LinkBandwidth': 2.}, 'zerolink': {'FP32': 1., 'FP16': 3., 'Bandwidth': 1., 'Number': 8, 'LinkBandwidth': 0}}
PREC = [None] + [{'Compute': {'MM': a, 'MHA': b, 'Others': c}, 'Bits': dict(zip(('MM', 'MHA', 'Others'), w))} for a, b, c in (('FP16', 'FP16', 'FP32'), ('INT8', 'FP32', 'FP16'), ('FP32', 'INT8', 'FP8')) for w in ((4, 16, 32), (16, 8, 16), (4.5, 4, 8))]


def latency_configs():
    ks = {}
    for k, c in configs('quick'):
        fam = k.split('.')[0]
        key = (fam, 'layer_types' in c and tuple(c['layer_types']), c.get('compress_ratio'), c.get('final_logit_softcapping'), c.get('model_type'))
        ks.setdefault(key, (k, c))
    return list(ks.values())


def cases(tier):
    for k, c in configs(tier):
        yield f'graph/{k}', ('graph', c, tier)
    for k, c in latency_configs():
        for (b, s), p in ([((1, 1), 3), ((2, 3), None), ((1, 3), 0)]):
            yield f'latency/{k}/{b}x{s}.{p}', ('latency', c, (b, s, p))
    for hs, nl, nh, hd, inter, ps, proj, pd, img in itertools.product((4, 6), (0, 1, 2), (1, 2), (None, 3), (None, 5), (2, 3), ('mlp', 'linear'), (None, 7), ((3, 6, 6), (1, 7, 5))):
        if tier == 'quick' and (hs, nl) in ((6, 0), (6, 1)):
            continue
        c = dict(BASE, name='v', architectures=['Qwen3_5ForConditionalGeneration'], vision_hidden_size=hs, vision_num_layers=nl, vision_num_heads=nh, vision_patch_size=ps, projector_type=proj)
        for kk, v in (('vision_head_dim', hd), ('vision_intermediate_size', inter), ('projector_hidden_dim', pd)):
            if v is not None:
                c[kk] = v
        yield f'vision/{hs}.{nl}.{nh}.{hd}.{inter}.{ps}.{proj}.{pd}.{img}', ('vision', c, img)
    for name in sorted(vars(llm)):
        c = getattr(llm, name)
        if isinstance(c, dict) and 'architectures' in c:
            yield f'published/{name}', ('graph1', c, tier)


def wshapes(g):
    """shapes of the parameter tensors (static tensors that carry no value: tables and indices carry one)"""
    return sorted(tuple(g.tensormap[n].get_shape()) for n in g.initials if g.tensormap[n].numpy is None)


def check_costs(b, d, where, prof=True):
    g = b.graph
    got = {}
    for name, nd in g.nodemap.items():
        got.setdefault(nd.op_type, []).append((int(nd.macs), tuple(g.tensormap[nd.output[0]].get_shape()), int(nd.static_params), int(getattr(nd, 'kv_size', 0)), name))
    want = {}
    for op, m, sh, act, kv in d.nodes:
        want.setdefault(op, []).append((m, sh, act, kv))
    for op in sorted(set(got) | set(want)):
        a, w = got.get(op, []), want.get(op, [])
        if len(a) != len(w):
            yield f'{op} count', f'{where}: {len(a)} nodes of type {op}, the definition has {len(w)}'
            continue
        exact = all(x[0] is not None for x in w)
        act = all(x[2] is not None for x in w)      # a scalar constant counts as 0 or 1 element
        aa = sorted((x[0] if exact else 0, x[1], x[2] if act else 0, x[3]) for x in a)
        ww = sorted((x[0] if exact else 0, x[1], x[2] if act else 0, x[3]) for x in w)
        if aa != ww:
            bad = [(x, y) for x, y in zip(aa, ww) if x != y][0]
            what = ('MACs', 'output shape', 'weights read', 'cached elements')[[j for j in range(4) if bad[0][j] != bad[1][j]][0]]
            yield f'{op} {what}', f'{where}: {op} has (MACs, shape, weights, cache) {bad[0]}, the definition gives {bad[1]}'
    tot = sum(nd.macs for nd in g.nodemap.values())
    if abs(tot - g.macs[0]) > 1e-9 * max(1, tot):
        yield 'total MACs', f'{where}: {g.macs[0]} but nodes sum to {tot}'
    if sorted(d.weights) != wshapes(g):
        yield 'parameters', f'{where}: parameter shapes differ: extra {diffc(wshapes(g), d.weights)}, missing {diffc(d.weights, wshapes(g))}'
    # reported parameters: each node's own weights, tables and index constants
    used = [(x, nd.name) for nd in g.nodemap.values() for x in nd.input if x in g.initials]
    vol = lambda x: int(np.prod(g.tensormap[x].get_shape()))
    scal = [x for x in {u for u, _ in used} if not g.tensormap[x].get_shape()]
    if not 0 <= sum(vol(x) for x, _ in used) - g.params <= len(scal):
        yield 'reported params', f'{where}: {g.params} but the nodes read {sum(vol(x) for x, _ in used)}'
    if not 0 <= sum(vol(x) for x in {u for u, _ in used}) - g.dedup_params <= len(scal):
        yield 'reported dedup_params', f'{where}: {g.dedup_params}'
    for x in g.initials:
        if x not in {u for u, _ in used}:
            yield 'unused weight', f'{where}: {x} is read by no node'
    if d.tables and hasattr(d, 'tables'):
        for x in ('rope.cos', 'rope.sin'):
            if x in g.tensormap and tuple(g.tensormap[x].get_shape()) != (1, 1) + d.tables:
                yield 'rotary table', f'{where}: {x} {g.tensormap[x].get_shape()} expected {d.tables}'


def diffc(a, b):
    b = list(b)
    r = []
    for x in a:
        if x in b:
            b.remove(x)
        else:
            r.append(x)
    return r[:4]


def check_attrs(c, g, where):
    """what the nodes say about heads, normalisation and scaling is what the configuration says"""
    nh = c.get('num_attention_heads', c.get('n_head'))
    layers = []
    for name, nd in g.nodemap.items():
        if nd.op_type == 'SDPA':
            want = {'head_num': nh, 'kv_head_num': c.get('num_key_value_heads', nh), 'head_size': c.get('head_dim', c.get('hidden_size', c.get('n_embd')) // nh)}
            cap = c.get('attn_logit_softcapping')
            if cap is not None:
                want['attn_logit_softcapping'] = cap
            got = {k: getattr(nd, k, None) for k in want}
            if got != want:
                yield 'attention attributes', f'{where}: {name} {got} expected {want}'
            if cap is None and 'attn_logit_softcapping' in nd.attr:
                yield 'attention attributes', f'{where}: {name} caps its logits'
            layers.append(getattr(nd, 'layer_i', None))
        if nd.op_type == 'LayerNormalization':
            eps = c.get('rms_norm_eps', c.get('layer_norm_eps', c.get('layer_norm_epsilon')))
            typ = getattr(nd, 'type', None)
            if eps is not None and (abs(nd.epsilon - eps) > 1e-12 or (typ in ('rms', b'rms')) != ('rms_norm_eps' in c)):
                yield 'normalisation attributes', f'{where}: {name} epsilon {nd.epsilon} type {typ}, configured {eps}'
    if len(set(layers)) != len(layers) or layers != sorted(layers):
        yield 'layer numbers', f'{where}: {layers}'


def build(c, b, s, p):
    bld = tool(lambda: llm.Builder(**c))
    tool(bld.build_graph, [b, s], WMAP if c['architectures'][0] == 'GPT2LMHeadModel' else None)
    if p is not None:
        tool(bld.add_kv_cache, 9, p)
    return bld


def graph_case(c, tier, shapes, caches, reinf, st):
    for (b, s), p in itertools.product(shapes, caches):
        bld = build(c, b, s, p)
        g = bld.graph
        where = f'batch {b}, sequence {s}, past {p}'
        bad, t = walk(g)
        if bad:
            yield 'built graph is not consistent', f'{where}: {bad}'
            continue
        for x in t:
            if tuple(g.tensormap[x].get_shape()) != t[x]:
                yield 'declared shape', f'{where}: {x} is declared {g.tensormap[x].get_shape()}, its operator gives {t[x]}'
        cons = {x for nd in g.nodemap.values() for x in nd.input}
        dead = [nd.name for nd in g.nodemap.values() if nd.output[0] not in cons and nd.output[0] not in g.output]
        attn = any(nd.op_type in ('SDPA', 'MLA') for nd in g.nodemap.values())
        if dead or any(x not in cons for x in g.input if attn or x not in ('n_past', 'kv_cache')):
            yield 'unused node or input', f"{where}: {dead[:3]} {[x for x in g.input if x not in cons]}"
        d = Def(c, b, s, p, s)
        if [tuple(g.tensormap[o].get_shape()) for o in g.output] != [d.out]:
            yield 'output shape', f'{where}: {g.output}'
        tool(bld.profile)
        yield from check_costs(bld, d, where)
        yield from check_attrs(c, g, where)
        f = FAM.get(c['architectures'][0], {})
        nh, L = c.get('num_attention_heads', c.get('n_head')), c.get('num_hidden_layers', c.get('n_layer'))
        hd = c.get('head_dim', c.get('hidden_size', c.get('n_embd')) // nh)
        kv = hd if f.get('mla') else hd * c.get('num_key_value_heads', nh)
        if p is not None and tuple(g.tensormap['kv_cache'].get_shape()) != (b, 2 * L, 9, kv):
            yield 'cache shape', f"{where}: {g.tensormap['kv_cache'].get_shape()} expected {(b, 2 * L, 9, kv)}"
        if bld.kv_params != b * (s + (p or 0)) * kv * 2 * L:
            yield 'cached elements', f'{where}: {bld.kv_params} expected {b * (s + (p or 0)) * kv * 2 * L}'
        st.state(c['architectures'], len(g.nodemap), b, s, p, int(g.macs[0]), g.params)
        st.valid()
        if not reinf:
            continue
        # the same graph at every other input shape and past length (the decode workflow)
        for (b2, s2), p2 in itertools.product(shapes, [None] if p is None else [0, 2, 4]):
            if p2 is not None and p2 + s2 > 9:
                continue
            x = {n: np.zeros([b2, s2], np.int64) for n in g.input if n in ('ids', 'position')}
            if p is not None:
                tool(bld.set_past_kv_length, p2)
            tool(g.shape_infer, x)
            d2 = Def(c, b2, s2, p2, s)
            bad, t2 = walk(g, {n: v.shape for n, v in x.items()})
            w2 = f'built at {where}, re-inferred at batch {b2}, sequence {s2}, past {p2}'
            if bad:
                yield 're-inferred graph is not consistent', f'{w2}: {bad}'
                break
            for y in t2:
                if y not in ('n_past', 'kv_cache') and tuple(g.tensormap[y].get_shape()) != t2[y]:
                    yield 're-inferred shape', f'{w2}: {y} is {g.tensormap[y].get_shape()}, its operator gives {t2[y]}'
                    break
            tool(g.profile)
            yield from check_costs(bld, d2, w2)
            st.valid()


def rate(dev, name):
    return dev.get(name, dev['FP32']) * 1e9


MMOPS = ('MatMul', 'MoE', 'MLA', 'GDN')
DEFAULT = {'Compute': {'MM': 'FP32', 'MHA': 'FP32', 'Others': 'FP32'}, 'Bits': {'MM': 4.5, 'MHA': 16, 'Others': 32}}


def latency_case(c, bsp, st):
    b, s, p = bsp
    bld = build(c, b, s, p)
    g = bld.graph
    devs = dict(DEV)
    devs.update(device.Devices)
    for (dk, dev), cfg in itertools.product(list(devs.items()) + [(None, None)], PREC):
        tool(bld.profile, cfg, dev)
        k = cfg or DEFAULT
        tot = [0., 0., 0.]
        ctx = [0., 0., 0.]
        where = f'{dk} {cfg}'
        for name, nd in g.nodemap.items():
            fl = 2 * nd.macs
            out = int(np.prod(g.tensormap[nd.output[0]].get_shape()))
            cls = 'MM' if nd.op_type in MMOPS else 'MHA' if nd.op_type == 'SDPA' else 'Others'
            io = io_elements(nd, g, out) * k['Bits']['Others'] / 8
            if cls == 'MHA':
                w = nd.kv_size * k['Bits']['MHA'] / 8
                ctx[1] += w
            elif cls == 'MM' or nd.op_type == 'Gather':
                w = nd.static_params * k['Bits']['MM'] / 8
                ctx[0] += w
            else:
                w = nd.static_params * k['Bits']['Others'] / 8
                ctx[2] += w
            mem = io + w
            r = nd.llm_profile
            if not near(r['FLOPs'], fl) or not near(r['Memory'], mem):
                yield f'{nd.op_type} operations or bytes', f"{where}: {name} reports {r['FLOPs']} operations, {r['Memory']} bytes; expected {fl}, {mem}"
                return
            tot[0] += fl
            tot[1] += mem
            if dev is None:
                if r['Device'] is not None:
                    yield 'latency without a device', name
                continue
            n = dev.get('Number', 1) if dev.get('LinkBandwidth', 0) else 1
            share = n if cls != 'Others' else 1
            ct = fl / rate(dev, k['Compute'][cls]) / share
            mt = mem / (dev['Bandwidth'] * 1e9) / share
            link = 0.
            if n > 1 and cls != 'Others':
                link = io / (dev['LinkBandwidth'] * 1e9)
            lat = max(ct, mt) + link
            got = r['Device']['latency']
            if not all(near(x, y) for x, y in zip(got, (ct, mt, lat, link))):
                yield f'{nd.op_type} latency', f'{where}: {name} reports compute, memory, latency, link {got}; expected {(ct, mt, lat, link)}'
                return
            if not near(ct, mt) and r['Device']['Bottleneck'] != ('Compute' if ct > mt else 'Memory'):
                yield 'bottleneck', f"{where}: {name} {r['Device']}"
                return
            tot[2] += lat
        if not all(near(x, y) for x, y in zip(bld.llm_profile, tot)):
            yield 'totals', f'{where}: {bld.llm_profile} expected {tot}'
            return
        if not all(near(x, y) for x, y in zip(bld.context_mem, ctx + [sum(ctx)])):
            yield 'memory totals', f'{where}: {bld.context_mem} expected {ctx}'
            return
        st.state('latency', dk, str(cfg), c['architectures'], bsp, round(tot[2], 12))
        st.valid()
        if dk in (None, 'two', 'slow-memory', 'A100-40GB-PCIe') and cfg in (None, PREC[1]):
            yield from table_case(bld, where)


def io_elements(nd, g, out):
    """activations a node moves: results, plus the input of a fused block"""
    if nd.op_type in ('MoE', 'MLA'):
        return 2 * out
    if nd.op_type == 'GDN':
        return 2 * out
    return out


def table_case(bld, where):
    p = os.path.join(tmpdir(), 't.csv')
    tool(bld.print_profile, p)
    with open(p) as f:
        rows = [r.rstrip('\n').split(',') for r in f if r.strip()]
    os.unlink(p)
    rows = [[x.strip() for x in r] for r in rows]
    head = rows[0]
    lat = [i for i, h in enumerate(head) if h.startswith('Projected Latency')]
    scale = {'(ms)': 1e3, '(s)': 1., '(us)': 1e6}[head[lat[0]][len('Projected Latency'):].strip()] if lat else None
    g = bld.graph
    body = rows[1:-1]
    if bool(lat) != (bld.llm_profile[2] > 0) or any(len(r) != len(head) for r in rows):
        yield 'table columns', f'{where}: {head}, projected latency {bld.llm_profile[2]}, first row {rows[1]}'
        return
    if [r[0] for r in body] != list(g.nodemap):
        yield 'table rows', f'{where}: {[r[0] for r in body][:5]}'
        return
    for r in body + [rows[-1]]:
        nm = r[0]
        if nm == 'Total':
            f, m, l = bld.llm_profile
        else:
            pr = g.nodemap[nm].llm_profile
            f, m, l = pr['FLOPs'], pr['Memory'], pr['Device']['latency'][2] if pr['Device'] else 0
        try:
            gf, gm = float(r[2]), float(r[3])
            gl = float(r[lat[0]]) / scale if lat else None
        except ValueError as e:
            yield 'table cell', f'{where}: {r} {e}'
            return
        if abs(gf - f) > 1 or abs(gm - m) > 1:
            yield 'table values', f'{where}: row {r}, profile {f}, {m}'
            return
        if lat and abs(gl - l) > 1.1e-5 / scale + 1e-6 * l:
            yield 'table latency', f'{where}: row {nm} shows {r[lat[0]]} under {head[lat[0]]!r}, projected latency is {l} s'
            return


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-30)


def vision_case(c, img, st):
    ch, h, w = img
    bld = tool(lambda: llm.Builder(**c))
    tool(bld.build_vision_graph, list(img))
    g = bld.graph
    bad, t = walk(g)
    if bad:
        yield 'vision graph is not consistent', bad
        return
    for x in t:
        if tuple(g.tensormap[x].get_shape()) != t[x]:
            yield 'vision declared shape', f'{x} is declared {g.tensormap[x].get_shape()}, its operator gives {t[x]}'
    read = {x for n in g.nodemap.values() for x in n.input}
    for x in g.initials:
        if x not in read:
            yield 'vision unused weight', x
    for n in g.nodemap.values():
        if n.op_type == 'LayerNormalization' and len(n.input) != 3:
            yield 'vision normalisation operands', f'{n.name} reads {n.input}'
    V, L, nh = c['vision_hidden_size'], c['vision_num_layers'], c['vision_num_heads']
    hd = c.get('vision_head_dim', V // nh)
    I = c.get('vision_intermediate_size', 4 * V)
    ps = c['vision_patch_size']
    P = (h // ps) * (w // ps)
    ws, mm, sd = [(V, ch, ps, ps), (1, P, V)], [], []

    def lin(a, b_):
        ws.extend([(a, b_), (b_,)])
        mm.append(P * a * b_ + P * b_ * ADD)
    for _ in range(L):
        ws.extend([(V,)] * 4)
        lin(V, 3 * nh * hd)
        sd.append(2 * nh * P * P * hd + nh * P * P * (EXP + DIV))
        lin(nh * hd, V)
        lin(V, I)
        lin(I, V)
    ws.extend([(V,)] * 2)
    if c['projector_type'] == 'mlp':
        pd = c.get('projector_hidden_dim', c['hidden_size'])
        lin(V, pd)
        lin(pd, c['hidden_size'])
    else:
        lin(V, c['hidden_size'])
    tool(bld.profile)
    if sorted(ws) != wshapes(g):
        yield 'vision parameters', f'extra {diffc(wshapes(g), ws)}, missing {diffc(ws, wshapes(g))}'
    for op, want in (('MatMul', mm), ('SDPA', sd)):
        got = sorted(int(n.macs) for n in g.nodemap.values() if n.op_type == op)
        if got != sorted(want):
            yield f'vision {op} MACs', f'{got[:6]} expected {sorted(want)[:6]}'
    conv = [n for n in g.nodemap.values() if n.op_type == 'Conv']
    if len(conv) != 1 or int(conv[0].macs) != P * V * ch * ps * ps:
        yield 'vision patch embedding MACs', f'{[n.macs for n in conv]} expected {P * V * ch * ps * ps}'
    if [tuple(g.tensormap[o].get_shape()) for o in g.output] != [(1, P, c['hidden_size'])]:
        yield 'vision output shape', str(g.output)
    # re-inferred: the declared shapes are what inference gives
    pre = {n: tuple(v.get_shape()) for n, v in g.tensormap.items()}
    tool(g.shape_infer, {'pixel_values': np.zeros((1, ch, h, w), np.float32)})
    post = {n: tuple(v.get_shape()) for n, v in g.tensormap.items()}
    if pre != post:
        yield 'vision inferred shape', str([(n, pre[n], post[n]) for n in pre if pre[n] != post.get(n)][:3])
    st.valid()
    st.state('vision', len(g.nodemap), int(g.macs[0]))


def run_case(cid, payload, st):
    if payload[0] == 'graph':
        yield from graph_case(payload[1], payload[2], SHAPES if payload[2] == 'thorough' else SHAPES[:3], CACHES, True, st)
    elif payload[0] == 'graph1':
        c = payload[1]
        if len(c.get('architectures')) and (c.get('hidden_act') or c.get('activation_function')) in llm.ActMap:
            yield from graph_case(c, payload[2], [(1, 7)], [None, 2], False, st)
    elif payload[0] == 'latency':
        yield from latency_case(payload[1], payload[2], st)
    else:
        yield from vision_case(payload[1], payload[2], st)
