"""Bounded graph spaces and helpers shared by the graph-level checks."""
import contextlib
import functools
import itertools
import numpy as np
import onnx
from onnx import helper, numpy_helper, TensorProto
from mc.core import tool, ToolError
from onnx_tool import Graph
from onnx_tool.utils import ModelConfig

F = np.float32


class N:
    """One abstract node: kind, input tensor names, output tensor names."""
    __slots__ = ('k', 'i', 'o')

    def __init__(self, k, i, o):
        self.k, self.i, self.o = k, tuple(i), tuple(o)

    def __repr__(self):
        return f"{self.k}({','.join(self.i)})" + (f">{','.join(x or '-' for x in self.o)}" if len(self.o) != 1 or not self.o[0].startswith('t') else '')


ARITY = {'u': 1, 'v': 1, 'b': 2, 'c': 2, 's': 1, 'e': 1, 'o': 1, 'w': 1, 'i': 1, 'm': 1, 'f': 1}
SYM = {'b'}


def wirings(n, srcs, kinds, repeat=True, use_all=()):
    """All node sequences of length n in topological construction order.

    srcs: names of the source tensors; kinds: letters of ARITY.  Every source in use_all must be used.
    """
    def rec(k, avail, nodes):
        if k == n:
            used = {x for nd in nodes for x in nd.i}
            if all(s in used for s in use_all):
                yield list(nodes)
            return
        for kd in kinds:
            a = ARITY[kd]
            it = itertools.combinations_with_replacement(avail, a) if kd in SYM else itertools.product(avail, repeat=a)
            for ins in it:
                if not repeat and len(set(ins)) < a:
                    continue
                outs = [f't{k}']
                if kd in 'sm':
                    outs = [f't{k}', f't{k}b']
                nd = N(kd, ins, outs)
                nodes.append(nd)
                yield from rec(k + 1, avail + [o for o in nd.o], nodes)
                nodes.pop()
    yield from rec(0, list(srcs), [])


def canonical(nodes, srcs):
    """Key that is equal for wirings differing only in the order of independent nodes (labels by structure)."""
    memo = {}
    prod = {o: (nd, j) for nd in nodes for j, o in enumerate(nd.o)}

    def h(t):
        if t in memo:
            return memo[t]
        if t not in prod:
            memo[t] = t
            return t
        nd, j = prod[t]
        memo[t] = (nd.k, tuple(h(x) for x in nd.i), j)
        return memo[t]
    return tuple(sorted(repr((nd.k, tuple(h(x) for x in nd.i))) for nd in nodes))


def sinks(nodes):
    used = {x for nd in nodes for x in nd.i}
    return [o for nd in nodes for o in nd.o if o and o not in used]


# ---------------------------------------------------------------- relations of a loaded graph
def body_reads(gp, bound=frozenset()):
    """Outer tensors a subgraph reads (independent of the tool)."""
    bound = set(bound) | {t.name for t in gp.input} | {t.name for t in gp.initializer}
    res = []
    for n in gp.node:
        for t in n.input:
            if t and t not in bound:
                res.append(t)
        for a in n.attribute:
            if a.type == onnx.AttributeProto.GRAPH:
                res += body_reads(a.g, bound)
        bound |= set(n.output)
    return res + [o.name for o in gp.output if o.name not in bound]


def reads(nd):
    """Tensors a tool node reads: inputs and outer tensors of its bodies."""
    res = list(nd.input)
    for a in nd.proto.attribute:
        if not isinstance(a, str) and a.type == onnx.AttributeProto.GRAPH:
            res += [t for t in body_reads(a.g) if t not in res]
    return res


def relations(g):
    """(producedby, consumedby) recomputed from the nodes."""
    pb, cb = {}, {}
    for name, nd in g.nodemap.items():
        for t in reads(nd):
            cb.setdefault(t, []).append(name)
        for t in nd.output:
            pb.setdefault(t, []).append(name)
    return pb, cb


def rel_diff(g):
    """First difference between the stored relations and the nodes, or None."""
    pb, cb = relations(g)
    for nm, got, want in (('producedby', g.producedby, pb), ('consumedby', g.consumedby, cb)):
        for t in set(got) | set(want):
            if t == '':
                continue
            a = sorted(set(got.get(t, [])))
            b = sorted(set(want.get(t, [])))
            if a != b:
                return f'{nm}[{t}] is {got.get(t)} but the nodes say {want.get(t)}'
    for name, nd in g.nodemap.items():
        if nd.name != name:
            return f'node {name} is named {nd.name}'
        for t in reads(nd) + list(nd.output):
            if t not in g.tensormap:
                return f'tensor {t} of node {name} is not in the tensor map'
    return None


def evaluate(model, feeds):
    """Outputs by the ONNX reference evaluator (dict name -> array)."""
    from onnx.reference import ReferenceEvaluator
    r = ReferenceEvaluator(model)
    names = [o.name for o in model.graph.output]
    vals = r.run(None, feeds)
    return dict(zip(names, [np.asarray(v) for v in vals]))


def load(m, **cfg):
    g = m.graph if isinstance(m, onnx.ModelProto) else m
    return tool(Graph, g, ModelConfig(cfg))


def vi(name, shape, t=TensorProto.FLOAT):
    return helper.make_tensor_value_info(name, t, shape)


def model(nodes, ins, outs, inits=(), opset=17, value_info=(), name='g', domains=()):
    g = helper.make_graph(nodes, name, ins, outs, initializer=list(inits), value_info=list(value_info))
    return helper.make_model(g, opset_imports=[helper.make_opsetid('', opset)] + [helper.make_opsetid(d, 1) for d in domains], ir_version=8)


def close(a, b, tol=1e-5):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind == 'f':
        return np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
    return np.array_equal(a, b)


@contextlib.contextmanager
def scratch():
    """a private directory of this process, empty at entry"""
    import os
    from mc.c07_roundtrip import tmpdir
    d = tmpdir()
    try:
        yield d
    finally:
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                os.unlink(p)


def saved(g, **kw):
    """the model a graph is saved as"""
    import os
    with scratch() as d:
        p = os.path.join(d, 'g.onnx')
        tool(functools.partial(g.save_model, p, **kw))
        return onnx.load(p) if os.path.exists(p) else None
