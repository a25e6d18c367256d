"""A stand-in for the part of the torch API that /repo/inference uses, on numpy.

Only what the engine and its kernels call is provided; anything else raises.  The stand-in is stricter than torch where torch would
silently leave the memory pool (an `out=` tensor of another shape raises instead of being resized)."""
import sys
import types
import numpy as np


class dtype:
    def __init__(self, name, np_):
        self.name, self.np = name, np.dtype(np_)

    def __repr__(self):
        return 'torch.' + self.name


DT = {n: dtype(n, a) for n, a in (('float32', 'f4'), ('float64', 'f8'), ('float16', 'f2'), ('int8', 'i1'), ('int16', 'i2'), ('int32', 'i4'), ('int64', 'i8'), ('uint8', 'u1'), ('bool', '?'))}
BYNP = {d.np: d for d in DT.values()}


class Missing(AttributeError):
    """the stand-in does not provide this part of torch"""


def _a(x):
    return x.a if isinstance(x, Tensor) else x


def _ints(s):
    if len(s) == 1 and isinstance(s[0], (list, tuple, Size)):
        s = s[0]
    return tuple(int(v) for v in s)


class Size(tuple):
    def numel(self):
        return int(np.prod(self, dtype=np.int64))


class Tensor:
    def __init__(self, a):
        self.a = a if isinstance(a, np.ndarray) else np.asarray(a)

    def __getattr__(self, n):
        raise Missing(f'the stand-in has no Tensor.{n}')

    shape = property(lambda s: Size(s.a.shape))
    ndim = property(lambda s: s.a.ndim)
    dtype = property(lambda s: BYNP[s.a.dtype])
    device = property(lambda s: 'cpu')
    T = property(lambda s: Tensor(s.a.T))

    def dim(self):
        return self.a.ndim

    def numel(self):
        return self.a.size

    def element_size(self):
        return self.a.dtype.itemsize

    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    def item(self):
        if self.a.size != 1:
            raise RuntimeError('a Tensor with %d elements cannot be converted to Scalar' % self.a.size)
        return self.a.reshape(-1)[0].item()

    def tolist(self):
        return self.a.tolist()

    def numpy(self):
        return self.a

    def cpu(self):
        return self

    def contiguous(self):
        return Tensor(np.ascontiguousarray(self.a))

    def clone(self):
        return Tensor(self.a.copy())

    def to(self, *args, device=None, dtype=None):
        for x in args:
            if x in DT.values():
                dtype = x
        if dtype is None or dtype.np == self.a.dtype:
            return self
        return Tensor(self.a.astype(dtype.np))

    def long(self):
        return self.to(DT['int64'])

    def bool(self):
        return self.to(DT['bool'])

    def float(self):
        return self.to(DT['float32'])

    def view(self, *s, dtype=None):
        if s and s[0] in DT.values():
            dtype, s = s[0], ()
        if dtype is not None:
            if self.a.ndim and self.a.strides[-1] != self.a.itemsize or self.a.size * self.a.itemsize % dtype.np.itemsize:
                raise RuntimeError('cannot view as ' + repr(dtype))
            return Tensor(self.a.view(dtype.np))
        r = self.a.view()
        r.shape = self._shape(_ints(s))
        return Tensor(r)

    def _shape(self, s):
        n = self.a.size
        known = int(np.prod([d for d in s if d != -1], dtype=np.int64))
        if s.count(-1) > 1 or any(d < -1 for d in s) or (s.count(-1) == 0 and known != n) or (s.count(-1) == 1 and (known == 0 or n % known)):
            raise RuntimeError(f'shape {list(s)} is invalid for input of size {n}')
        return s

    def reshape(self, *s):
        return Tensor(self.a.reshape(self._shape(_ints(s))))

    def flatten(self):
        return Tensor(self.a.reshape(-1))

    def permute(self, *p):
        return Tensor(self.a.transpose(_ints(p)))

    def transpose(self, i, j):
        return Tensor(self.a.swapaxes(i, j))

    def squeeze(self, dim=None):
        if dim is None:
            return Tensor(self.a.squeeze())
        dim = (dim,) if isinstance(dim, int) else dim
        dim = tuple(d % self.a.ndim for d in dim)
        return Tensor(self.a.squeeze(tuple(d for d in dim if self.a.shape[d] == 1)))

    def unsqueeze(self, d):
        if not -self.a.ndim - 1 <= d <= self.a.ndim:
            raise IndexError('Dimension out of range')
        return Tensor(np.expand_dims(self.a, d))

    def expand(self, *s):
        s = list(_ints(s))
        if len(s) < self.a.ndim:
            raise RuntimeError('the number of sizes provided must be greater or equal to the number of dimensions in the tensor')
        o = len(s) - self.a.ndim
        for i, d in enumerate(s):
            if d == -1:
                if i < o:
                    raise RuntimeError('-1 is not allowed in a leading dimension')
                s[i] = self.a.shape[i - o]
        try:
            return Tensor(np.broadcast_to(self.a, s))
        except ValueError as e:
            raise RuntimeError(str(e))

    def repeat(self, *r):
        r = _ints(r)
        if len(r) < self.a.ndim:
            raise RuntimeError('Number of dimensions of repeat dims can not be smaller than number of dimensions of tensor')
        return Tensor(np.tile(self.a, r))

    def repeat_interleave(self, n, dim):
        return Tensor(np.repeat(self.a, n, dim))

    def copy_(self, o):
        try:
            if not self.a.flags.writeable:
                raise ValueError('write to an expanded tensor')
            np.copyto(self.a, np.broadcast_to(_a(o), self.a.shape), casting='unsafe')
        except ValueError as e:
            raise RuntimeError(str(e))
        return self

    def zero_(self):
        self.a[...] = 0
        return self

    def fill_(self, v):
        self.a[...] = v
        return self

    def _in(self, f, o):
        r = f(self.a, _a(o))
        if r.shape != self.a.shape:
            raise RuntimeError('output with shape %s does not match the broadcast shape %s' % (self.a.shape, r.shape))
        self.a[...] = r
        return self

    def mul_(self, o):
        return self._in(np.multiply, o)

    def add_(self, o):
        return self._in(np.add, o)

    def sub_(self, o):
        return self._in(np.subtract, o)

    def _red(self, f, dim, keepdim, **k):
        if dim is not None and not isinstance(dim, int):
            dim = tuple(int(d) for d in dim)
            if len({d % self.a.ndim for d in dim}) != len(dim):
                raise RuntimeError('dim appears multiple times in the list of dims')
            if dim == ():
                dim = None
        if dim is None and keepdim is not None and f is not np.max:
            raise TypeError('keepdim without dim')
        return Tensor(f(self.a, axis=dim, keepdims=bool(keepdim), **k))

    def mean(self, dim=None, keepdim=None):
        return self._red(np.mean, dim, keepdim)

    def sum(self, dim=None, keepdim=None):
        return self._red(np.sum, dim, keepdim)

    def amax(self, dim=None, keepdim=None):
        return self._red(np.max, dim, keepdim)

    def amin(self, dim=None, keepdim=None):
        return self._red(np.min, dim, keepdim)

    def var(self, dim=None, keepdim=None, unbiased=True):
        return self._red(np.var, dim, keepdim, ddof=1 if unbiased else 0)

    def pow(self, e):
        return Tensor(np.power(self.a, _a(e)))

    @staticmethod
    def _idx(i):
        t = i if isinstance(i, tuple) else (i,)
        for x in t:
            if isinstance(x, slice) and x.step is not None and x.step <= 0:
                raise ValueError('step must be greater than zero')
        return tuple(_a(x) for x in t)

    def __getitem__(self, i):
        r = self.a[self._idx(i)]
        return Tensor(r if isinstance(r, np.ndarray) else np.asarray(r))

    def __setitem__(self, i, v):
        self.a[self._idx(i)] = _a(v)

    def __len__(self):
        return len(self.a)

    def __bool__(self):
        return bool(self.a)

    def __int__(self):
        return int(self.item())

    def __repr__(self):
        return f'tensor({self.a.tolist()})'


for _n in 'add radd sub rsub mul rmul truediv rtruediv floordiv mod pow neg lt le gt ge'.split():
    def _op(self, *o, _n=_n):
        r = getattr(self.a, f'__{_n}__')(*[_a(x) for x in o])
        return NotImplemented if r is NotImplemented else Tensor(np.asarray(r))
    setattr(Tensor, f'__{_n}__', _op)


def _out(r, out):
    r = np.asarray(r)
    if out is None:
        return Tensor(r)
    if out.a.shape != r.shape:
        raise RuntimeError(f'out of shape {out.a.shape} for a result of shape {r.shape} (torch would leave the pool)')
    np.copyto(out.a, r, casting='unsafe')
    return out


def _bin(f):
    def g(a, b, out=None):
        try:
            return _out(f(_a(a), _a(b)), out)
        except ValueError as e:
            raise RuntimeError(str(e))
    return g


def _un(f):
    def g(a, out=None):
        return _out(f(_a(a)), out)
    return g


def _erf(a):
    import math
    return np.vectorize(math.erf, otypes=[a.dtype])(a) if a.size else a


def _div(a, b):
    r = np.true_divide(a, b)
    return r


def _mm(a, b, out=None):
    if a.a.ndim != 2 or b.a.ndim != 2:
        raise RuntimeError('self must be a matrix')
    return _out(a.a @ b.a, out)


def _cat(ts, dim=0, out=None):
    return _out(np.concatenate([t.a for t in ts], axis=dim), out)


def _split(t, sizes, dim=0):
    if isinstance(sizes, int):
        n = t.a.shape[dim]
        sizes = [sizes] * (n // sizes) + ([n % sizes] if n % sizes else [])
    if sum(sizes) != t.a.shape[dim]:
        raise RuntimeError('split_with_sizes expects split_sizes to sum exactly to %d' % t.a.shape[dim])
    return tuple(Tensor(x) for x in np.split(t.a, np.cumsum(sizes)[:-1], axis=dim))


def _chunk(t, n, dim=0):
    d = t.a.shape[dim]
    return _split(t, max(-(-d // n), 1), dim)


def _clamp(t, lo=None, hi=None, out=None):
    a = t.a
    if lo is not None:
        a = np.maximum(a, np.asarray(lo).astype(a.dtype))
    if hi is not None:
        a = np.minimum(a, np.asarray(hi).astype(a.dtype))
    return _out(a, out)


def _index_select(t, dim, i):
    if i.a.ndim > 1:
        raise IndexError('index_select(): Index is supposed to be a vector')
    if (i.a < 0).any() or (i.a >= t.a.shape[dim]).any():
        raise IndexError('index out of range in self')
    return Tensor(np.take(t.a, i.a.reshape(-1), axis=dim))


def _gather(t, dim, i):
    if (i.a < 0).any() or (i.a >= t.a.shape[dim]).any():
        raise RuntimeError('index out of bounds')
    if i.a.ndim != t.a.ndim:
        raise RuntimeError('Index tensor must have the same number of dimensions as input tensor')
    dim %= t.a.ndim
    cut = tuple(slice(None) if d == dim else slice(n) for d, n in enumerate(i.a.shape))
    return Tensor(np.take_along_axis(t.a[cut], i.a, axis=dim))


def _where(c, a, b, out=None):
    return _out(np.where(c.a, _a(a), _a(b)), out)


def _topk(t, k, dim=-1, largest=True, sorted=True):
    a = -t.a if largest else t.a
    i = np.argsort(a, axis=dim, kind='stable')
    i = np.take(i, range(k), axis=dim)
    return Tensor(np.take_along_axis(t.a, i, axis=dim)), Tensor(i)


def _tensor(x, dtype=None, device=None):
    a = np.array(x if not isinstance(x, Tensor) else x.a)
    if dtype is None and a.dtype == np.float64:
        dtype = DT['float32']
    return Tensor(a.astype(dtype.np) if dtype else a)


def _empty(*s, dtype=None, device=None):
    a = np.empty(_ints(s), (dtype or DT['float32']).np)
    a.view(np.uint8)[...] = 0xA5           # what torch.empty holds is not defined
    return Tensor(a)


def _full(s, v, dtype=None, device=None):
    return Tensor(np.full(_ints([s]), v, (dtype or DT['float32']).np))


# ---------------------------------------------------------------- functional
def _pair(v):
    return (v, v) if isinstance(v, int) else tuple(v)


def _windows(a, k, s, p, d, fill, n):
    if a.ndim != n + 2:
        raise RuntimeError(f'Expected {n + 1}D or {n + 2}D input')
    k, s, p, d = (tuple(_ints([v])) if not isinstance(v, int) else (v,) * n for v in (k, s, p, d))
    a = np.pad(a, [(0, 0), (0, 0)] + [(q, q) for q in p], constant_values=fill)
    o = [(a.shape[2 + i] - d[i] * (k[i] - 1) - 1) // s[i] + 1 for i in range(n)]
    if min(o) <= 0:
        raise RuntimeError('Output size is too small')
    r = np.empty(a.shape[:2] + tuple(o) + k, a.dtype)
    for w in np.ndindex(*k):
        r[(Ellipsis,) + w] = a[(slice(None), slice(None)) + tuple(slice(w[i] * d[i], w[i] * d[i] + (o[i] - 1) * s[i] + 1, s[i]) for i in range(n))]
    return r


def _conv(n):
    def conv(input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
        k = weight.a.shape[2:]
        win = _windows(input.a, k, stride, padding, dilation, 0, n)
        b, c, o = win.shape[0], win.shape[1], win.shape[2:2 + n]
        m = weight.a.shape[0]
        if c != weight.a.shape[1] * groups or m % groups:
            raise RuntimeError('wrong number of channels')
        win = win.reshape(b, groups, c // groups, int(np.prod(o)), int(np.prod(k)))
        r = np.einsum('ngcok,gmck->ngmo', win, weight.a.reshape(groups, m // groups, c // groups, -1)).reshape((b, m) + o)
        if bias is not None:
            r = r + bias.a.reshape((1, -1) + (1,) * n)
        return Tensor(r.astype(input.a.dtype))
    return conv


def _pool_check(k, p, n):
    k, p = (_ints([v]) if not isinstance(v, int) else (v,) * n for v in (k, p))
    if any(2 * q > v for q, v in zip(p, k)):
        raise RuntimeError('pad should be at most half of effective kernel size')


def _avg(n):
    def pool(input, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True):
        _pool_check(kernel_size, padding, n)
        if ceil_mode:
            raise Missing('the stand-in has no ceil_mode')
        w = _windows(input.a, kernel_size, stride or kernel_size, padding, 1, 0, n)
        ax = tuple(range(-n, 0))
        if count_include_pad:
            return Tensor(w.mean(ax, dtype=input.a.dtype))
        one = _windows(np.ones_like(input.a), kernel_size, stride or kernel_size, padding, 1, 0, n)
        return Tensor((w.sum(ax) / one.sum(ax)).astype(input.a.dtype))
    return pool


def _max(n):
    def pool(input, kernel_size, stride=None, padding=0, dilation=1, ceil_mode=False, return_indices=False):
        _pool_check(kernel_size, padding, n)
        if ceil_mode or return_indices:
            raise Missing('the stand-in has no ceil_mode')
        return Tensor(_windows(input.a, kernel_size, stride or kernel_size, padding, dilation, -np.inf, n).max(tuple(range(-n, 0))))
    return pool


def adaptive_avg_pool2d(x, o):
    if _pair(o) != (1, 1) or x.a.ndim not in (3, 4):
        raise Missing('the stand-in has adaptive_avg_pool2d for one cell only')
    return Tensor(x.a.mean((-2, -1), keepdims=True))


def softmax(x, dim):
    e = np.exp(x.a - x.a.max(axis=dim, keepdims=True))
    return Tensor((e / e.sum(axis=dim, keepdims=True)).astype(x.a.dtype))


def batch_norm(x, running_mean, running_var, weight=None, bias=None, training=False, momentum=0.1, eps=1e-5):
    s = (1, -1) + (1,) * (x.a.ndim - 2)
    r = (x.a - running_mean.a.reshape(s)) / np.sqrt(running_var.a.reshape(s) + eps)
    return Tensor((r * weight.a.reshape(s) + bias.a.reshape(s)).astype(x.a.dtype))


def pad(x, p, mode='constant', value=None):
    p = _ints([p])
    if len(p) % 2 or len(p) > 2 * x.a.ndim:
        raise RuntimeError('Padding length must be divisible by 2 and at most twice the number of dimensions')
    w = [[0, 0] for _ in range(x.a.ndim)]
    for i in range(len(p) // 2):
        w[-1 - i] = list(p[2 * i:2 * i + 2])
    a = x.a
    for d, q in enumerate(w):              # negative pads crop
        if min(q) < 0:
            a = np.take(a, range(max(0, -q[0]), a.shape[d] + min(0, q[1])), axis=d)
    w = [[max(0, v) for v in q] for q in w]
    if mode == 'constant':
        return Tensor(np.pad(a, w, constant_values=value or 0))
    n = len(p) // 2
    if not (n, x.a.ndim) in ((1, 2), (1, 3), (2, 3), (2, 4), (3, 4), (3, 5)):
        raise RuntimeError('Only 2D, 3D, 4D, 5D padding with non-constant padding are supported for now')
    return Tensor(np.pad(a, w, mode={'reflect': 'reflect', 'replicate': 'edge'}[mode]))


def _sig(a):
    return (1 / (1 + np.exp(-a))).astype(a.dtype)


def install():
    t, nn, f = types.ModuleType('torch'), types.ModuleType('torch.nn'), types.ModuleType('torch.nn.functional')
    t.Tensor, t.Size, t.dtype = Tensor, Size, dtype
    for n, d in DT.items():
        setattr(t, n, d)
    t.double, t.float, t.long, t.half = DT['float64'], DT['float32'], DT['int64'], DT['float16']
    t.tensor, t.empty, t.full = _tensor, _empty, _full
    t.from_numpy = lambda a: Tensor(a)
    t.arange = lambda a, b, device=None, dtype=None: Tensor(np.arange(a, b, dtype=dtype.np if dtype else None))
    for n, g in (('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('div', _div), ('pow', np.power), ('eq', np.equal), ('gt', np.greater), ('lt', np.less),
                 ('matmul', np.matmul), ('fmod', np.fmod), ('remainder', np.mod), ('maximum', np.maximum), ('minimum', np.minimum)):
        setattr(t, n, _bin(g))
    for n, g in (('relu', lambda a: np.maximum(a, 0)), ('sigmoid', _sig), ('tanh', np.tanh), ('neg', np.negative), ('sqrt', np.sqrt), ('erf', _erf), ('exp', np.exp), ('abs', np.abs), ('rsqrt', lambda a: 1 / np.sqrt(a))):
        setattr(t, n, _un(g))
    t.mm, t.cat, t.split, t.chunk, t.clamp, t.index_select, t.gather, t.where, t.topk = _mm, _cat, _split, _chunk, _clamp, _index_select, _gather, _where, _topk
    t.ones = lambda *s, dtype=None, device=None: Tensor(np.ones(_ints(s), (dtype or DT['float32']).np))
    t.zeros = lambda *s, dtype=None, device=None: Tensor(np.zeros(_ints(s), (dtype or DT['float32']).np))
    t.flip = lambda x, dims: Tensor(np.flip(x.a, tuple(dims)))
    t.triu = lambda x, diagonal=0: Tensor(np.triu(x.a, diagonal))
    for n in (1, 2, 3):
        for name, g in ((f'conv{n}d', _conv(n)), (f'avg_pool{n}d', _avg(n)), (f'max_pool{n}d', _max(n))):
            g.__name__ = name
            setattr(f, name, g)
    for g in (adaptive_avg_pool2d, softmax, batch_norm, pad):
        setattr(f, g.__name__, g)
    f.relu = t.relu
    f.leaky_relu = lambda x, alpha=0.01: Tensor(np.where(x.a >= 0, x.a, x.a * np.asarray(alpha, x.a.dtype)))
    f.silu = lambda x: Tensor(x.a * _sig(x.a))
    f.gelu = lambda x: Tensor((x.a * 0.5 * (1 + _erf(x.a / np.sqrt(2)))).astype(x.a.dtype))
    nn.functional, t.nn = f, nn
    for mod in (t, nn, f):
        def absent(name, mod=mod):
            raise Missing(f'the stand-in has no {mod.__name__}.{name}')
        mod.__getattr__ = absent
    sys.modules.update({'torch': t, 'torch.nn': nn, 'torch.nn.functional': f})
    return t
