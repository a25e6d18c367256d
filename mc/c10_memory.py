"""C10: the activation memory plan on every small graph and size assignment."""
import itertools
from onnx import helper
from mc import gx
from mc.core import tool

PID = 'C10'
TECH = 'exhaustive exploration of wirings x tensor sizes x output sets through the real allocator, against an independent liveness model'
RULE = ('every DAG wiring of up to 4 nodes over one-input/two-input/two-output kinds (up to 3 nodes also with conditionals whose branches read outer tensors) (5 nodes over unary/binary chains without repeats in the thorough tier) x every assignment of tensor sizes from an alphabet that forces '
        'splits, merges, absorbed remainders and growth x every extra graph output x padding, in given order and after reordering; chains of up to 7 nodes (9 thorough) x all size assignments')
ASSUME = ['graphs of at most 5 branching nodes or chains of 9 represent larger ones', 'scalar (rank 0) tensors occupy no planned memory by convention of the tool']

# elements of float32; bytes 4x. 4096-byte split threshold of the allocator is crossed by differences of these
SZ = [16, 2000, 4096]


def proto(nd, j):
    if nd.k == 'i':      # conditional whose branches read an outer tensor
        br = helper.make_graph([helper.make_node('Foo', [nd.i[0]], [f'y{j}'], domain='verif')], f'b{j}', [], [gx.vi(f'y{j}', None)])
        return helper.make_node('If', ['cond'], list(nd.o), name=f'n{j}', then_branch=br, else_branch=br)
    return helper.make_node('Foo', list(nd.i) + ['w'], list(nd.o), name=f'n{j}', domain='verif')


def tensors(w):
    ins = ['x', 'z'] if any('z' in nd.i for nd in w) else ['x']
    return ins + [o for nd in w for o in nd.o]


def plans(tier):
    for n, kinds, rep in [(1, 'ubs', True), (2, 'ubs', True), (3, 'ubs', True)] + ([(4, 'ub', False)] if tier != 'thorough' else [(4, 'ub', True)]):
        seen = set()
        for w in gx.wirings(n, ['x'], kinds, repeat=rep):
            key = repr(w)
            if key in seen:
                continue
            seen.add(key)
            yield w, SZ if n < 4 or tier == 'thorough' else [16, 4096]
    for n in (2, 3):
        for w in gx.wirings(n, ['x'], 'ubi', repeat=False):
            if any(nd.k == 'i' for nd in w):
                yield w, SZ
    for w in gx.wirings(2, ['x', 'z'], 'ubs', use_all=('x', 'z')):
        yield w, SZ
    # long chains with occasional second reader
    L = 7 if tier != 'thorough' else 9
    for n in range(4, L + 1):
        w = [gx.N('u', ['x' if j == 0 else f't{j - 1}'], [f't{j}']) for j in range(n)]
        yield w, [16, 2000, 4096] if n <= 5 or tier == 'thorough' and n <= 7 else [16, 4096]
        for j in range(n - 2):      # skip connection into the last node
            w2 = list(w)
            w2[-1] = gx.N('b', [f't{n - 2}', f't{j}'], [f't{n - 1}'])
            yield w2, [16, 4096] if n <= 6 or tier == 'thorough' else [4096, 2000]


def cases(tier):
    for w, sz in plans(tier):
        for pad in ((64, 256) if len(w) <= 3 else (64,)):
            for re in (False, True):
                yield f'{repr(w)}/sizes{sz}/pad{pad}/{"reordered" if re else "asis"}'.replace(' ', ''), (w, sz, pad, re)


def live_sets(w, outs):
    """step -> set of live tensors (independent of the tool): inputs from the start, results from their node, until the last reader; outputs to the end."""
    last = {}
    for s, nd in enumerate(w):
        for t in nd.i:
            last[t] = s
    birth = {'x': 0}
    if any('z' in nd.i for nd in w):
        birth['z'] = 0
    for s, nd in enumerate(w):
        for t in nd.o:
            birth[t] = s
    end = len(w) - 1
    res = []
    for s in range(len(w)):
        res.append({t for t, b in birth.items() if b <= s <= (end if t in outs else max(last.get(t, b), b))})
    return res


def run_case(cid, case, st):
    w, sz, pad, re = case
    ts = tensors(w)
    base = gx.sinks(w)
    if st.cases % 97 == 0:
        st.sample(cid)
    inner = [o for nd in w for o in nd.o if o not in base]
    outsets = [base] + ([base + [t] for t in inner] if len(w) <= 4 else [base + inner[:1]] if inner else [])
    for outs in outsets:
        m = gx.model([proto(nd, j) for j, nd in enumerate(w)], [gx.vi(t, [4]) for t in ts if t in 'xz'], [gx.vi(o, [4]) for o in outs],
                     [helper.make_tensor('w', 1, [3], [1.0] * 3), helper.make_tensor('cond', 9, [1], [1])], domains=['verif'], value_info=[gx.vi(t, [4]) for t in inner if t not in outs])
        g = gx.load(m)
        if re:
            tool(g.graph_reorder_nodes)
        order = [int(nm[1:]) for nm in g.nodemap]
        wo = [w[j] for j in order]
        live = live_sets(wo, set(outs))
        for sizes in itertools.product(sz, repeat=len(ts)):
            for t, s in zip(ts, sizes):
                g.tensormap[t].update_shape([s])
            mem, total = tool(g.compress_memory, pad)
            st.valid()
            need = dict(zip(ts, [4 * s for s in sizes]))
            padded = {t: (v + pad - 1) // pad * pad for t, v in need.items()}
            st.state(tuple(sorted((t, tuple(b)) for t, b in mem.items())))
            for t in ts:
                if t not in mem:
                    yield 'missing', f'{t} has no block; outputs {outs} sizes {sizes}'
                    continue
                b = mem[t]
                if b[1] < need[t] or b[0] < 0 or b[0] % pad:
                    yield 'block', f'{t} needs {need[t]} at padding {pad}, block {b}'
                if b[0] + b[1] > total:
                    yield 'total', f'{t} ends at {b[0] + b[1]} beyond {total}'
            if total > sum(padded.values()):
                yield 'exceeds-sum', f'{total} > {sum(padded.values())} sizes {sizes}'
            bad = None
            for s, L in enumerate(live):
                Ls = sorted(t for t in L if t in mem)
                for a, b in itertools.combinations(Ls, 2):
                    x, y = mem[a], mem[b]
                    if x[0] < y[0] + y[1] and y[0] < x[0] + x[1]:
                        bad = f'outputs {outs} sizes {sizes}: while node {s} runs {a}{x} overlaps {b}{y}'
            if bad:
                yield 'overlap', bad
                break
