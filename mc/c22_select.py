"""C22: resolved conditionals, fixed top-k and dangling removal, on every program of three bounded spaces."""
import itertools
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto as TP
from mc import gx
from mc.core import tool, ToolError

PID = 'C22'
TECH = 'exhaustive enumeration of small programs with conditionals, top-k nodes and dead regions x loading options; the resolved graph is saved and executed against the source model with its conditions or k forced to constants'
RULE = ('(a) every pair of branch bodies out of 15 (one or two nodes, constants, initialisers, outer values, values of the condition chain, nested conditionals, loops, multi-result nodes, top-k, changed shape) x 7 condition sources (input, initialiser, Constant node, computed chain, chain shared with the main graph, with a body, exported) '
        'x 8 surroundings (inner value, graph output, both, two conditionals on one condition, chained, reading each other, one deciding the other, read by a loop) x branch names (distinct, shared between conditionals, missing, equal to outer nodes) x chosen branch x {folding, renaming, inferred outputs}; '
        '(b) every pair of 9 sources of k x axis x consumers x fixed k x options; (c) every wiring of up to 4 nodes (unary, binary, two-result, conditional) x every non-empty set of up to two graph outputs x removal of dangling nodes')
ASSUME = ['a branch of at most three nodes represents a larger one', 'conditionals inside loop bodies are not resolved, so they are not enumerated', 'top-k in its attribute form (opset below 10) is not covered']
nd = helper.make_node


def c(name, arr):
    return numpy_helper.from_array(np.asarray(arr), name)


def vf(n, shape=None, t=TP.FLOAT):
    return helper.make_tensor_value_info(n, t, shape if shape is not None else [n + '_a', n + '_b'])


def typed(m, feeds):
    """declares the graph outputs as they are, with named dimensions"""
    for o, v in zip(m.graph.output, gx.evaluate(m, {i.name: feeds[i.name] for i in m.graph.input}).values()):
        o.CopyFrom(vf(o.name, [f'{o.name}_{j}' for j in range(v.ndim)], helper.np_dtype_to_tensor_dtype(v.dtype)))
    onnx.checker.check_model(m)
    return m


class B:
    """builds one branch body; names get the prefix p, node names the style s"""

    def __init__(self, p, style, env):
        self.p, self.s, self.env, self.k = p, style, env, 0
        self.nodes, self.inits = [], []

    def t(self, n):
        return self.p + n

    def add(self, op, i, o, **a):
        self.k += 1
        name = {'named': f'{self.p}n{self.k}', 'none': '', 'outer': f'm{self.k}'}[self.s]
        self.nodes.append(nd(op, i, o, name=name, **a))
        return o[0]

    def graph(self, *outs):
        return helper.make_graph(self.nodes, self.p + 'g', [], [vf(o) for o in outs], initializer=self.inits)


def loop_body(p, read):
    return helper.make_graph([nd('Identity', [p + 'ci'], [p + 'co'], name=p + 'l1'), nd('Add', [p + 'v', read], [p + 'w'], name=p + 'l2')], p + 'lb',
                             [vf(p + 'it', [], TP.INT64), vf(p + 'ci', [], TP.BOOL), vf(p + 'v')], [vf(p + 'co', [], TP.BOOL), vf(p + 'w')])


def body(kind, b, x):
    """adds the nodes of a branch reading x; returns its result"""
    t = b.t
    if kind == 'op':
        return b.add('Neg', [x], [t('o')])
    if kind == 'two':
        return b.add('Abs', [b.add('Neg', [x], [t('a')])], [t('o')])
    if kind == 'const':
        b.add('Constant', [], [t('c')], value=c('', np.float32(2.)))
        return b.add('Add', [x, t('c')], [t('o')])
    if kind == 'init':
        b.inits.append(c(t('w'), np.full((2, 3), 3., np.float32)))
        return b.add('Mul', [x, t('w')], [t('o')])
    if kind == 'initout':
        b.inits.append(c(t('o'), np.arange(6, dtype=np.float32).reshape(2, 3)))
        return t('o')
    if kind == 'constout':
        return b.add('Constant', [], [t('o')], value=c('', np.ones((2, 3), np.float32)))
    if kind == 'outer':
        return b.add('Mul', [x, b.env['r']], [t('o')])
    if kind == 'cond':
        return b.add('Add', [x, b.env['sum']], [t('o')])
    if kind == 'ident':
        return b.add('Identity', [b.env['r']], [t('o')])
    if kind == 'tr':
        return b.add('Transpose', [x], [t('o')], perm=[1, 0])
    if kind == 'split':
        b.k += 1
        b.nodes.append(nd('Split', [x], [t('a'), t('o'), t('b')], name=f'{b.p}n{b.k}' if b.s == 'named' else '', axis=1, num_outputs=3))
        return t('o')
    if kind in ('nest', 'nestc'):
        cn = b.env['cond']
        if kind == 'nestc':
            b.add('ReduceMin', [x], [t('q')], keepdims=0)
            b.inits.append(c(t('z'), np.float32(0)))
            cn = b.add('Greater', [t('q'), t('z')], [t('cc')])
        th, el = B(b.p + 'i', b.s, b.env), B(b.p + 'j', b.s, b.env)
        y = b.add('Relu', [x], [t('h')])
        a1, a2 = th.add('Neg', [y], [th.t('o')]), el.add('Exp', [x], [el.t('o')])
        return b.add('If', [cn], [t('o')], then_branch=th.graph(a1), else_branch=el.graph(a2))
    if kind == 'loop':
        h = b.add('Neg', [x], [t('h')])
        b.inits.append(c(t('n'), np.int64(2)))
        b.inits.append(c(t('y'), np.array(True)))
        return b.add('Loop', [t('n'), t('y'), x], [t('o')], body=loop_body(b.p, h))
    if kind == 'alias':     # a name which the first name would get if it had to be made unique
        b.add('Neg', [x], [t('a')])
        b.add('Abs', [x], [t('a') + '_if1'])
        return b.add('Mul', [t('a'), t('a') + '_if1'], [t('o')])
    if kind == 'topk':
        b.inits.append(c(t('k'), np.array([2])))
        b.k += 1
        b.nodes.append(nd('TopK', [x, t('k')], [t('o'), t('oi')], name=f'{b.p}n{b.k}' if b.s == 'named' else '', axis=1))
        return t('o')
    raise KeyError(kind)


BODIES = ['op', 'two', 'const', 'init', 'initout', 'constout', 'outer', 'cond', 'ident', 'tr', 'split', 'nest', 'nestc', 'loop', 'topk', 'alias']
CONDS = ['in', 'init', 'const', 'chain', 'shared', 'body', 'exported', 'halves']
AROUND = ['inner', 'output', 'both', 'samecond', 'chained', 'reads', 'decides', 'looped', 'multi', 'loopnames']


def if_model(cond, tk, ek, around, style, clash):
    """a model with one or two conditionals"""
    ins, inits, nodes, outs = [vf('x', [2, 3])], [], [], []
    env = {'r': 'r', 'sum': 'sum', 'cond': 'cond'}
    nodes.append(nd('Relu', ['x'], ['r'], name='m1'))
    outs.append('r0')
    nodes.append(nd('Exp', ['r'], ['r0'], name='m2'))
    need_sum = cond in ('chain', 'shared', 'body', 'exported', 'halves') or 'cond' in (tk, ek)
    if cond == 'halves':    # the condition is computed from one result of a node whose other result is used
        inits.append(c('halves', np.array([2, 1])))
        nodes.append(nd('Split', ['x', 'halves'], ['xa', 'xb'], name='s0', axis=1))
        nodes.append(nd('Neg', ['xb'], ['nxb'], name='s4'))
        outs.append('nxb')
    if need_sum:
        nodes.append(nd('ReduceSum', ['xa' if cond == 'halves' else 'x'], ['sum'], name='s1', keepdims=0))
    if cond == 'in':
        ins.append(vf('cond', [], TP.BOOL))
    elif cond == 'init':
        inits.append(c('cond', np.array(True)))
    elif cond == 'const':
        nodes.append(nd('Constant', [], ['cond'], name='s2', value=c('', np.array(False))))
    else:
        inits.append(c('zero', np.float32(0)))
        nodes.append(nd('Greater', ['sum', 'zero'], ['cond0'], name='s2'))
        nodes.append(nd('Not', ['cond0'], ['cond'], name='s3'))
        if cond == 'shared':
            nodes.append(nd('Neg', ['sum'], ['ns'], name='s4'))
            outs.append('ns')
        if cond == 'exported':
            outs.append('cond0')

    def iff(name, cn, x, p, y, extra=None):
        t, e = B(p + 't', style, env), B(p + 'e', style, env)
        a, b = body(tk, t, x), body(ek, e, x)
        if cond == 'body' and tk != 'cond':
            a = t.add('Add', [a, 'sum'], [t.t('f')])
        ys, o1, o2 = [y], [a], [b]
        if around == 'multi':
            ys = [y, y + 'b']
            o1.append(t.add('Abs', [x], [t.t('m')]))
            o2.append(e.add('Sin', [x], [e.t('m')]))
        if extra:
            o1 = [t.add('Add', [a, extra], [t.t('x')])]
            o2 = [e.add('Mul', [b, extra], [e.t('x')])]
        nodes.append(nd('If', [cn], ys, name=name, then_branch=t.graph(*o1), else_branch=e.graph(*o2)))
        return y
    iff('if1', 'cond', 'r', 'a', 'y')
    p2 = 'a' if clash else 'b'
    if around in ('inner', 'both', 'multi', 'looped'):
        nodes.append(nd('Neg', ['y'], ['z'], name='z1'))
        outs.append('z')
    if around == 'multi':
        nodes.append(nd('Neg', ['yb'], ['zb'], name='z2'))
        outs.append('zb')
    if around in ('output', 'both', 'samecond'):
        outs.append('y')
    if around == 'samecond':
        iff('if2', 'cond', 'x', p2, 'y2')
        outs.append('y2')
    if around == 'chained':
        iff('if2', 'cond', 'y', p2, 'y2')
        outs.append('y2')
    if around == 'reads':
        nodes.append(nd('ReduceSum', ['y'], ['ysum'], name='z2', keepdims=0))
        iff('if2', 'cond', 'x', p2, 'y2', extra='ysum')
        outs.append('y2')
    if around == 'decides':
        inits.append(c('one', np.float32(1)))
        nodes.append(nd('ReduceMax', ['y'], ['ymax'], name='z2', keepdims=0))
        nodes.append(nd('Greater', ['ymax', 'one'], ['cond2'], name='z3'))
        iff('if2', 'cond2', 'x', p2, 'y2')
        outs.append('y2')
    if around == 'looped':
        inits += [c('ln', np.int64(2)), c('lc', np.array(True))]
        nodes.append(nd('Loop', ['ln', 'lc', 'y'], ['yl'], name='z4', body=loop_body('lp', 'y')))
        outs.append('yl')
    if around == 'loopnames':   # the body of a loop uses the names which the branches use inside
        inits += [c('ln', np.int64(2)), c('lc', np.array(True))]
        lb = helper.make_graph([nd('Identity', ['ato'], ['eto'], name='l1'), nd('Add', ['atc', 'y'], ['ata'], name='l2'), nd('Abs', ['ata'], ['ath'], name='l3')], 'lb', [vf('atm', [], TP.INT64), vf('ato', [], TP.BOOL), vf('atc')], [vf('eto', [], TP.BOOL), vf('ath')])
        nodes.append(nd('Loop', ['ln', 'lc', 'y'], ['yl'], name='z4', body=lb))
        outs.append('yl')
    return nodes, ins, outs, inits


def prune(nodes, outs, inits, ins):
    """drops what no output needs, so that the source has no dead nodes"""
    need = set(outs)
    keep = []
    for n in reversed(nodes):
        if any(o in need for o in n.output):
            keep.append(n)
            need.update(n.input)
            for a in n.attribute:
                if a.type == onnx.AttributeProto.GRAPH:
                    need.update(gx.body_reads(a.g))
    keep.reverse()
    return keep, [i for i in inits if i.name in need], [v for v in ins if v.name in need]


def cond_only(m):
    """nodes that reach outputs only through the condition of a conditional"""
    need, keep = {o.name for o in m.graph.output}, set()
    for n in reversed(m.graph.node):
        if any(o in need for o in n.output):
            keep.add(n.name)
            if n.op_type != 'If':
                need.update(n.input)
            for a in n.attribute:
                if a.type == onnx.AttributeProto.GRAPH:
                    need.update(gx.body_reads(a.g))
    return {n.name for n in m.graph.node} - keep


def force(g, value, k=None):
    """copy of graph g in which every condition is value and every k is k"""
    g2 = onnx.GraphProto()
    g2.CopyFrom(g)

    def walk(gr, top):
        extra = []
        for n in gr.node:
            if n.op_type == 'If' and value is not None:
                n.input[0] = 'forced_cond'
            if n.op_type == 'TopK' and k is not None:
                n.input[1] = 'forced_k'
            for a in n.attribute:
                if a.type == onnx.AttributeProto.GRAPH:
                    walk(a.g, False)
    walk(g2, True)
    if value is not None:
        g2.initializer.append(c('forced_cond', np.array(value)))
    if k is not None:
        g2.initializer.append(c('forced_k', np.array([k])))
    return g2



# ---------------------------------------------------------------- top-k
KSRC = ['init', 'const', 'input', 'shape', 'mul', 'sharedinit', 'sharedchain', 'exported', 'other']


def topk_model(ks, axes, cons):
    """x -> one or two TopK nodes whose k comes from the given sources"""
    nodes, ins, outs, inits = [], [vf('x', [3, 4])], [], []
    made = set()

    def src(s, j):
        n = f'k{j}'
        if s == 'init':
            inits.append(c(n, np.array([2])))
        elif s == 'const':
            nodes.append(nd('Constant', [], [n], name='c' + n, value=c('', np.array([3]))))
        elif s == 'input':
            ins.append(vf(n, [1], TP.INT64))
        elif s == 'sharedinit':
            if 'ksi' not in made:
                made.add('ksi')
                inits.append(c('ksi', np.array([2])))
                nodes.append(nd('Add', ['ksi', 'ksi'], ['kk'], name='kk'))
                outs.append('kk')
            return 'ksi'
        else:
            if 'shp' not in made:
                made.add('shp')
                nodes.append(nd('Shape', ['x'], ['shp'], name='shp'))
                nodes.append(nd('ReduceMin', ['shp'], ['kmin'], name='kmin', keepdims=1))
            if s == 'shape':
                return 'kmin'
            inits.append(c('one' + n, np.array([1])))
            nodes.append(nd('Mul', ['kmin', 'one' + n], [n], name='mul' + n))
            if s == 'sharedchain' and 'ksc' not in made:
                made.add('ksc')
                nodes.append(nd('Neg', ['kmin'], ['nk'], name='nk'))
                outs.append('nk')
            if s == 'exported':
                outs.append(n)
            if s == 'other':            # k also serves another reader
                nodes.append(nd('Neg', [n], ['n' + n], name='neg' + n))
                outs.append('n' + n)
        return n
    x = 'x'
    for j, (s, ax) in enumerate(zip(ks, axes)):
        k = src(s, j)
        kw = {} if ax is None else {'axis': ax}
        nodes.append(nd('TopK', [x, k], [f'v{j}', f'i{j}'], name=f'topk{j}', **({'largest': 0} if j else {}), **kw))
        if cons == 'both':
            nodes.append(nd('Relu', [f'v{j}'], [f'y{j}'], name=f'y{j}'))
            nodes.append(nd('Cast', [f'i{j}'], [f'z{j}'], name=f'z{j}', to=TP.FLOAT))
            outs += [f'y{j}', f'z{j}']
        elif cons == 'values':
            outs.append(f'v{j}')
        else:
            nodes.append(nd('Neg', [f'i{j}'], [f'y{j}'], name=f'y{j}'))
            outs += [f'y{j}', f'i{j}']
    return nodes, ins, outs, inits


def k_only(m):
    need, keep = {o.name for o in m.graph.output}, set()
    for n in reversed(m.graph.node):
        if any(o in need for o in n.output):
            keep.add(n.name)
            need.update(n.input[:1] if n.op_type == 'TopK' else n.input)
    return {n.name for n in m.graph.node} - keep


# ---------------------------------------------------------------- dangling
def dag_model(w, outs):
    protos = []
    for j, n in enumerate(w):
        if n.k == 'u':
            protos.append(nd('Relu', n.i, n.o, name=f'n{j}'))
        elif n.k == 'b':
            protos.append(nd('Add', n.i, n.o, name=f'n{j}'))
        elif n.k == 's':
            br = [helper.make_graph([nd('Neg', [n.i[0]], [f'{p}{j}']), nd('Exp', [n.i[0]], [f'{p}{j}x'])], f'{p}g{j}', [], [gx.vi(f'{p}{j}', None), gx.vi(f'{p}{j}x', None)]) for p in ('bt', 'be')]
            protos.append(nd('If', ['cond'], n.o, name=f'n{j}', then_branch=br[0], else_branch=br[1]))
        elif n.k == 'o':
            protos.append(nd('Clip', [n.i[0], '', 'top'], n.o, name=f'n{j}'))
        else:
            br = [helper.make_graph([nd(op, [n.i[0]], [f'{p}{j}'])], f'{p}g{j}', [], [gx.vi(f'{p}{j}', None)]) for op, p in (('Neg', 'bt'), ('Abs', 'be'))]
            protos.append(nd('If', ['cond'], n.o, name=f'n{j}', then_branch=br[0], else_branch=br[1]))
    used = {t for p in protos for t in p.input}
    return gx.model(protos, [gx.vi('x', [1, 1, 2, 3])], [vf(o) for o in outs], [t for t in (c('cond', np.array(True)), c('top', np.float32(1))) if t.name in used])


def cases(tier):
    th = tier == 'thorough'
    pairs = list(itertools.product(BODIES, BODIES))
    for cond, around in itertools.product(CONDS, AROUND):
        for tk, ek in pairs:
            # every pair where the surroundings are simple; elsewhere each body in each role
            if not th and around not in ('inner', 'both', 'chained') and ek != 'op' and tk != 'op':
                continue
            if around in ('chained', 'reads', 'multi') and 'tr' in (tk, ek) and not (tk == ek == 'tr' and around == 'multi'):
                if around != 'multi':
                    continue
            if around in ('chained', 'looped', 'loopnames') and {tk, ek} & {'split', 'topk', 'tr'}:
                continue
            for style, clash in (('named', 0), ('named', 1), ('none', 0), ('outer', 1)):
                if clash and around not in ('samecond', 'chained', 'reads', 'decides') and style == 'named':
                    continue
                if not th and (style, clash) != ('named', 0) and cond not in ('in', 'shared'):
                    continue
                yield f'if/{cond}/{around}/{tk},{ek}/{style}{clash}', ('if', (cond, tk, ek, around, style, clash), th)
    for n in (1, 2):
        for ks in itertools.product(KSRC, repeat=n):
            for axes in itertools.product((None, 0, 1) if n == 1 or th else (None, 0), repeat=n):
                for cons in ('both', 'values', 'indices'):
                    yield f'topk/{",".join(ks)}/{axes}/{cons}', ('topk', (ks, axes, cons), th)
    seen = set()
    for n, kinds in ((1, 'ubsfo'), (2, 'ubsfo'), (3, 'ubsf'), (4, 'ubf' if not th else 'ubsf')):
        for w in gx.wirings(n, ['x'], kinds):
            key = gx.canonical(w, ['x'])
            if key in seen:
                continue
            seen.add(key)
            ts = [o for m in w for o in m.o]
            for k in (1, 2):
                for outs in itertools.combinations(ts, k):
                    yield f'dangling/{w}/{",".join(outs)}'.replace(' ', ''), ('dag', w, outs)


OPTS = [{}, {'constant_folding': True}, {'node_rename': True}, {'remove_dangling': False}, {'constant_folding': True, 'remove_dangling': False}]
XV = [np.array([[1, -2, 3], [-4, 5, .5]], np.float32), np.array([[-1, -2, -.25], [-4, 1.5, -.5]], np.float32)]


def compare(m, ref, g, feeds, gone, cfg, what, st, declared):
    """the loaded graph against the forced source model"""
    d = gx.rel_diff(g)
    if d:
        yield 'relations', f'{what}: {d}'
    avail = set(g.input) | set(g.initials) | {''}
    for name, n in g.nodemap.items():
        miss = [t for t in gx.reads(n) if t not in avail]
        if miss:
            yield 'order', f'{what}: {name} reads {miss} before it is produced'
            return
        avail.update(n.output)
    left = gone & set(g.nodemap)
    if left and not cfg.get('node_rename'):
        yield 'serves nothing but the choice', f'{what}: {sorted(left)} left in the graph'
    if cfg.get('remove_dangling', True) and list(g.output) != declared:
        yield 'outputs', f'{what}: graph outputs {g.output}, the source has {declared}'
        return
    if not cfg.get('remove_dangling', True):
        read = {t for n in g.nodemap.values() for t in gx.reads(n)}
        want = declared + [o for n in g.nodemap.values() for o in n.output if o and o not in read and o not in declared]
        if list(g.output) != want:
            yield 'dangling outputs', f'{what}: graph outputs {g.output}, the declared and unread ones are {want}'
            return
    extra = set(g.input) - {v.name for v in m.graph.input}
    if extra:
        yield 'inputs', f'{what}: new inputs {extra}'
        return
    infer = not any(n.op_type == 'Loop' for n in g.nodemap.values())     # the tool does not infer loops
    if infer:
        tool(g.shape_infer, {k: v for k, v in feeds[0].items() if k in g.input} or None)
    shapes = {o: (tuple(g.tensormap[o].get_shape()), g.tensormap[o].dtype) for o in g.output}
    m2 = gx.saved(g, rawmodel=m)
    if m2 is None:
        yield 'not saved', what
        return
    bare = onnx.ModelProto()
    bare.CopyFrom(m2)
    if not infer:       # the shapes of results kept as outputs are not known then
        del bare.graph.output[len(declared):]
    try:
        onnx.checker.check_model(bare, full_check=True)
    except Exception as e:
        yield 'saved model is not valid', f'{what}: {str(e)[:160]}'
        return
    names = [o.name for o in m2.graph.output]
    cmp = [o for o in declared if o in names]
    if names[:len(declared)] != declared or cfg.get('remove_dangling', True) and names != declared:
        yield 'saved outputs', f'{what}: {names}, the source has {declared}'
        return
    for fd in feeds:
        want = ref(fd)
        try:
            got = gx.evaluate(m2, {v.name: fd[v.name] for v in m2.graph.input if v.name in fd})
        except Exception as e:
            yield 'saved model does not run', f'{what}: {type(e).__name__} {str(e)[:160]}'
            return
        for o in cmp:
            if not gx.close(got[o], want[o]):
                yield 'result', f'{what}: {o} is {np.asarray(got[o]).tolist()}, the selected computation gives {np.asarray(want[o]).tolist()}'
                return
            if infer and fd is feeds[0] and (shapes[o][0] != np.asarray(want[o]).shape or np.dtype(shapes[o][1]) != np.asarray(want[o]).dtype):
                yield 'inferred shape', f'{what}: {o} inferred {shapes[o]}, actual {np.asarray(want[o]).shape} {np.asarray(want[o]).dtype}'
    st.valid()
    st.outcome(len(g.nodemap), tuple(sorted(shapes.items(), key=str)).__repr__())


def run_case(cid, payload, st):
    kind = payload[0]
    if kind == 'if':
        cond, tk, ek, around, style, clash = payload[1]
        nodes, ins, outs, inits = if_model(cond, tk, ek, around, style, clash)
        nodes, inits, ins = prune(nodes, outs, inits, ins)
        feeds = [{'x': x, 'cond': np.array(False)} for x in XV]
        m = typed(gx.model(nodes, ins, [vf(o) for o in outs], inits, opset=18), feeds[0])
        gone = cond_only(m)
        for value in (True, False):
            fm = onnx.ModelProto()
            fm.CopyFrom(m)
            fm.graph.CopyFrom(force(m.graph, value))
            memo = {}

            def ref(fd):
                if id(fd) not in memo:
                    memo[id(fd)] = gx.evaluate(fm, {v.name: fd[v.name] for v in fm.graph.input})
                return memo[id(fd)]
            if np.asarray(ref(feeds[0])[outs[-1]]).dtype == object:
                continue
            for cfg in OPTS if payload[2] or style == 'named' else OPTS[:3]:
                cf = dict(cfg, if_fixed_branch='then' if value else 'else')
                g = gx.load(m, **cf)
                what = str(cf)
                if any(n.op_type == 'If' for n in g.nodemap.values()):
                    yield 'conditional left', what
                    continue
                yield from compare(m, ref, g, feeds, gone, cf, what, st, outs)
    elif kind == 'topk':
        nodes, ins, outs, inits = topk_model(*payload[1])
        gone = None
        x = np.array([[3, 1, 4, -1], [5, 9, 2, 6], [-5, 3.5, 8, 7]], np.float32)
        feeds = [{'x': x, 'k0': np.array([3]), 'k1': np.array([2])}]
        m = typed(gx.model(nodes, ins, [vf(o) for o in outs], inits, opset=17), feeds[0])
        gone = k_only(m)
        for k, cfg in itertools.product((1, 2), OPTS):
            fm = onnx.ModelProto()
            fm.CopyFrom(m)
            fm.graph.CopyFrom(force(m.graph, None, k))
            want = gx.evaluate(fm, {v.name: feeds[0][v.name] for v in fm.graph.input})
            cf = dict(cfg, fixed_topk=k)
            g = gx.load(m, **cf)
            for n in g.nodemap.values():
                if n.op_type == 'TopK':
                    t = g.tensormap[n.input[1]].numpy if n.input[1] in g.tensormap else None
                    if t is None or t.dtype != np.int64 or t.shape != (1,) or t[0] != k:
                        yield 'k operand', f'{cf}: {n.name} takes k from {n.input[1]} = {t!r}'
            yield from compare(m, lambda fd: want, g, feeds, gone, cf, str(cf), st, outs)
    else:
        _, w, outs = payload
        m = dag_model(w, outs)
        g = gx.load(m)
        before = list(g.nodemap)
        need, keep = set(outs), []
        for name, n in reversed(list(g.nodemap.items())):
            if any(o in need for o in n.output):
                keep.append(name)
                need.update(gx.reads(n))
        keep.reverse()
        tool(g.remove_dangling_nodes)
        if list(g.nodemap) != keep:
            yield 'dangling', f'left {list(g.nodemap)}, reachable {keep} of {before}'
            return
        if list(g.output) != list(outs):
            yield 'dangling outputs', f'{g.output}'
        d = gx.rel_diff(g)
        if d:
            yield 'relations', d
        m2 = gx.saved(g, rawmodel=m)
        fd = {'x': np.arange(6, dtype=np.float32).reshape(1, 1, 2, 3) - 2}
        want, got = gx.evaluate(m, fd), gx.evaluate(m2, {v.name: fd[v.name] for v in m2.graph.input})
        for o in outs:
            if not gx.close(got[o], want[o]):
                yield 'dangling result', o
        st.valid()
        st.outcome(len(before), len(keep))
