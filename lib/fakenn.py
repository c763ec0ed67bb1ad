"""Layers and functions of torch that encoders use, on top of the stand-in of torch: plain numpy in double precision."""
import sys
from collections import namedtuple

import faketorch as ft
import numpy as np
from faketorch import Module, Parameter, Tensor, raw



class Lacks(BaseException):
    """The stand-in misses something; no verdict."""


# Parts of containers and arrays that tensors do not have.
NEVER = set("keys items append extend insert get update setdefault astype fill strides nbytes_total encode decode split strip lower startswith".split())


def guard(fn):
    def call(*args, **kwargs):
        try:
            return fn(*args, **kwargs)
        except ft.Gap as e:
            raise Lacks(str(e)) from None
        except AttributeError as e:
            obj = getattr(e, "obj", None)
            if isinstance(obj, Tensor) and getattr(e, "name", "") in NEVER:
                raise
            if (type(obj).__module__ in ("faketorch", "fakenn") or isinstance(obj, ft.FakeModule)) and "has no attribute" in str(e):
                raise Lacks(str(e)) from None
            raise
        except TypeError as e:
            if "unexpected keyword argument" in str(e):
                raise Lacks(str(e)) from None
            raise

    return call


RNG = [np.random.default_rng(0)]


def weights(*shape):
    return RNG[0].normal(0, 0.5, shape)


class Linear(Module):
    def __init__(self, n, m, bias=True):
        super().__init__()
        self.weight = Parameter(weights(m, n))
        self.bias = Parameter(weights(m)) if bias else None

    def forward(self, x):
        y = raw(x) @ self.weight.a.T
        return Tensor(y + self.bias.a if self.bias is not None else y)


class Embedding(Module):
    def __init__(self, n, dim, padding_idx=None):
        super().__init__()
        w = weights(n, dim)
        if padding_idx is not None:
            w[padding_idx] = 0
        self.weight = Parameter(w)

    def forward(self, x):
        i = raw(x)
        if i.size and (i.min() < 0 or i.max() >= len(self.weight.a)):
            raise IndexError("index out of range in self")
        return Tensor(self.weight.a[i])


class Conv1d(Module):
    def __init__(self, n, m, k):
        super().__init__()
        self.weight, self.bias = Parameter(weights(m, n, k)), Parameter(weights(m))

    def forward(self, x):
        x = raw(x)
        if x.ndim != 3:
            raise RuntimeError("expected 3D input")
        k = self.weight.a.shape[2]
        return Tensor(np.stack([np.einsum("bnk,mnk->bm", x[:, :, i : i + k], self.weight.a) + self.bias.a for i in range(x.shape[2] - k + 1)], 2))


class LSTM(Module):
    """A simpler recurrent layer with the same shapes and the same independence of rows."""

    def __init__(self, n, m, layers=1, bidirectional=False):
        super().__init__()
        self.ways = 2 if bidirectional else 1
        self.ins = [weights(n, m) for _ in range(self.ways)]
        self.loop = [weights(m, m) for _ in range(self.ways)]

    def forward(self, x):
        x = raw(x)
        outs = []
        for w in range(self.ways):
            h, steps = np.zeros((x.shape[1], self.ins[w].shape[1])), []
            for t in range(len(x)) if w == 0 else reversed(range(len(x))):
                h = np.tanh(x[t] @ self.ins[w] + h @ self.loop[w])
                steps.append(h)
            outs.append(np.stack(steps if w == 0 else steps[::-1]))
        return Tensor(np.concatenate(outs, 2)), None


class Same(Module):
    def forward(self, x):
        return x


class ModuleList(Module):
    def __init__(self, modules=()):
        super().__init__()
        self.items = []
        for m in modules:
            self.append(m)

    def append(self, m):
        setattr(self, str(len(self.items)), m)
        self.items.append(m)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __iter__(self):
        return iter(self.items)


class LeakyReLU(Module):
    def __init__(self, negative_slope=0.01):
        super().__init__()
        self.slope = negative_slope

    def forward(self, x):
        return leaky_relu(x, self.slope)


class CrossEntropy(Module):
    def forward(self, scores, target):
        s, t = raw(scores), raw(target)
        if s.ndim != 2 or t.shape != s.shape[:1]:
            raise ValueError("Expected input batch_size (%s) to match target batch_size (%s)" % (s.shape, t.shape))
        if not np.issubdtype(t.dtype, np.integer):
            raise RuntimeError("expected scalar type Long")
        z = s - s.max(1, keepdims=True)
        return Tensor((np.log(np.exp(z).sum(1)) - z[np.arange(len(t)), t]).mean())


def leaky_relu(x, negative_slope=0.01, inplace=False):
    a = raw(x)
    return Tensor(np.where(a > 0, a, a * negative_slope))


def softmax(x, dim=-1, **kwargs):
    a = raw(x)
    e = np.exp(a - a.max(dim, keepdims=True))
    return Tensor(e / e.sum(dim, keepdims=True))


def elu(x, alpha=1.0, inplace=False):
    a = raw(x)
    return Tensor(np.where(a > 0, a, alpha * np.expm1(np.minimum(a, 0))))


Top = namedtuple("topk", "values indices")


def topk(t, k, dim=-1, largest=True, sorted=True):
    a = raw(t)
    if k > a.shape[dim]:
        raise RuntimeError("selected index k out of range")
    o = np.take(np.argsort(-a if largest else a, axis=dim, kind="stable"), range(k), axis=dim)
    return Top(Tensor(np.take_along_axis(a, o, dim)), Tensor(o))


class Sparse(Tensor):
    """Matrix given by places and values."""

    is_sparse = True

    def __init__(self, indices, values, size):
        self.i, self.v, self.n = np.asarray(raw(indices)), np.asarray(raw(values)), tuple(size)
        super().__init__(np.zeros(0))

    shape = property(lambda self: self.n)

    def _indices(self):
        return Tensor(self.i)

    indices = _indices

    def _values(self):
        return Tensor(self.v)

    values = _values

    def coalesce(self):
        return self

    def to_dense(self):
        a = np.zeros(self.n)
        np.add.at(a, tuple(self.i), self.v)
        return Tensor(a)


def sparse_softmax(s, dim):
    v = np.zeros(len(s.v))
    line = s.i[1 - dim] if dim in (0, 1) else None
    for x in np.unique(line):
        at = line == x
        e = np.exp(s.v[at] - s.v[at].max())
        v[at] = e / e.sum()
    return Sparse(s.i, v, s.n)


def new(fill):
    def make(*shape, **kwargs):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        return Tensor(fill(shape))

    return make


def xavier(t, gain=1.0):
    t.a = weights(*t.a.shape)
    return t


class BertConfig:
    @classmethod
    def from_dict(cls, d):
        c = cls()
        c.__dict__.update(d)
        return c


class BertModel(Module):
    """Mixes the places of a row that its mask shows; rows do not meet."""

    def __init__(self, config):
        super().__init__()
        self.embeddings = Embedding(config.vocab_size + 1, config.hidden_size)
        self.mix = Parameter(weights(config.hidden_size, config.hidden_size))

    def init_bert_weights(self, module):
        pass

    def forward(self, input_ids=None, attention_mask=None, **kwargs):
        x, m = raw(self.embeddings(input_ids)), raw(attention_mask)
        if x.shape[:2] != m.shape:
            raise RuntimeError("sequence %s and mask %s do not match" % (x.shape, m.shape))
        seen = (x * m[:, :, None]).sum(1, keepdims=True)
        return (Tensor(np.tanh(x @ self.mix.a + seen)),)


class BertTokenizer:
    """Words of a text by their place in the file of words."""

    def __init__(self, vocab_file):
        with open(vocab_file, encoding="utf-8") as f:
            self.words = {w.rstrip("\n"): i for i, w in enumerate(f)}

    def encode(self, text, add_special_tokens=True, **kwargs):
        ids = [self.words.get(w, 1) for w in text.split()]
        return [2] + ids + [3] if add_special_tokens else ids


def along(fn):
    """Function of numpy with the names of arguments that torch has."""

    def call(*args, **kwargs):
        if "dim" in kwargs:
            kwargs["axis"] = kwargs.pop("dim")
        if "keepdim" in kwargs:
            kwargs["keepdims"] = kwargs.pop("keepdim")
        for k in ("device", "out", "requires_grad"):
            kwargs.pop(k, None)
        return Tensor(fn(*[[raw(x) for x in a] if isinstance(a, (list, tuple)) else raw(a) for a in args], **{k: raw(v) for k, v in kwargs.items()}))

    return call


def flatten(t, start_dim=0, end_dim=-1):
    a = raw(t)
    end = end_dim % max(a.ndim, 1)
    return Tensor(a.reshape(a.shape[:start_dim] + (-1,) + a.shape[end + 1 :]))


def gather(t, dim, index):
    return Tensor(np.take_along_axis(raw(t), raw(index), dim))


def extreme(pick, where):
    def call(t, dim=None, keepdim=False):
        a = raw(t)
        if dim is None:
            return Tensor(pick(a))
        return Top(Tensor(pick(a, axis=dim, keepdims=keepdim)), Tensor(where(a, axis=dim, keepdims=keepdim)))

    return call


def sort(t, dim=-1, descending=False, stable=True):
    o = np.argsort(-raw(t) if descending else raw(t), axis=dim, kind="stable")
    return Top(Tensor(np.take_along_axis(raw(t), o, dim)), Tensor(o))


# Not used by the encoders today; here so that they can be written differently.
MORE = dict(
    flatten=flatten, gather=gather, max=extreme(np.max, np.argmax), min=extreme(np.min, np.argmin), sort=sort,
    argsort=lambda t, dim=-1, descending=False: sort(t, dim, descending).indices,
    clamp=lambda t, min=None, max=None: Tensor(np.clip(raw(t), min, max)),
    permute=lambda t, *d: Tensor(np.transpose(raw(t), d[0] if isinstance(d[0], (tuple, list)) else d)),
    concat=lambda ts, dim=0: Tensor(np.concatenate([raw(t) for t in ts], dim)),
    relu=lambda t: Tensor(np.maximum(raw(t), 0)),
    sigmoid=lambda t: Tensor(1 / (1 + np.exp(-raw(t)))),
    mm=lambda a, b: Tensor(raw(a) @ raw(b)), bmm=lambda a, b: Tensor(raw(a) @ raw(b)),
    index_select=lambda t, dim, i: Tensor(np.take(raw(t), raw(i), dim)),
    masked_fill=lambda t, m, v: Tensor(np.where(raw(m), v, raw(t))),
    movedim=lambda t, a, b: Tensor(np.moveaxis(raw(t), a, b)),
    div=lambda a, b: Tensor(raw(a) / raw(b)), sub=lambda a, b: Tensor(raw(a) - raw(b)), mul=lambda a, b: Tensor(raw(a) * raw(b)), add=lambda a, b: Tensor(raw(a) + raw(b)), neg=lambda a: Tensor(-raw(a)),
    full=lambda s, v, **k: Tensor(np.full(s, v)), eye=lambda n, **k: Tensor(np.eye(n)),
    expand=lambda t, *s: Tensor(np.broadcast_to(raw(t), [n if n != -1 else m for n, m in zip(s, raw(t).shape)])),
    view_as=lambda t, o: Tensor(raw(t).reshape(raw(o).shape)),
)
for _n in ("abs", "exp", "log", "sqrt", "argmax", "argmin", "where", "einsum", "cumsum", "zeros_like", "ones_like", "tile", "all", "any", "prod", "square", "isnan", "equal", "dot", "nonzero", "unique", "roll", "hstack", "vstack", "round", "floor", "maximum", "minimum", "bincount", "tensordot", "eq", "ne", "lt", "le", "gt", "ge"):
    MORE.setdefault(_n, along(getattr(np, {"equal": "array_equal", "eq": "equal", "ne": "not_equal", "lt": "less", "le": "less_equal", "gt": "greater", "ge": "greater_equal"}.get(_n, _n))))


def install():
    ft.install()
    import importlib

    torch, nn, fun = sys.modules["torch"], sys.modules["torch.nn"], sys.modules["torch.nn.functional"]
    for cls in (Linear, Embedding, Conv1d, LSTM, ModuleList, LeakyReLU):
        setattr(nn, cls.__name__, cls)
    nn.Dropout = type("Dropout", (Same,), {})
    nn.CrossEntropyLoss = CrossEntropy
    nn.functional = fun
    for k, f in dict(leaky_relu=leaky_relu, softmax=softmax, elu=elu, relu=lambda x, inplace=False: Tensor(np.maximum(raw(x), 0)), tanh=lambda x: Tensor(np.tanh(raw(x)))).items():
        setattr(fun, k, f)
    nn.init.xavier_uniform_ = xavier
    for k, f in dict(
        topk=topk,
        empty=new(lambda s: np.full(s, np.nan)),
        zeros=new(np.zeros),
        ones=new(np.ones),
        reshape=lambda t, s: Tensor(raw(t).reshape(tuple(int(x) for x in s))),
        tanh=lambda t: Tensor(np.tanh(raw(t))),
        arange=lambda *a, **k: Tensor(np.arange(*a)),
        mean=lambda t, dim=None, **k: Tensor(np.mean(raw(t), axis=dim)),
        sum=lambda t, dim=None, **k: Tensor(np.sum(raw(t), axis=dim)),
        softmax=softmax,
        sparse_coo_tensor=Sparse,
    ).items():
        setattr(torch, k, f)
    for k, f in MORE.items():
        setattr(torch, k, f)
        if not hasattr(Tensor, k):
            setattr(Tensor, k, f)
    torch.nn = nn
    torch.sparse = ft.FakeModule("torch.sparse")
    torch.sparse.softmax = sparse_softmax
    torch.sparse.mm = lambda s, d: Tensor(raw(s.to_dense()) @ raw(d))
    Tensor.is_sparse = False
    Tensor.permute = lambda self, *d: Tensor(self.a.transpose(*d))
    Tensor.transpose = lambda self, a, b: Tensor(np.swapaxes(self.a, a, b))
    Tensor.repeat = lambda self, *n: Tensor(np.tile(self.a, n))
    Tensor.sum = lambda self, dim=None, **k: Tensor(self.a.sum(axis=dim))
    Tensor.mean = lambda self, dim=None, **k: Tensor(self.a.mean(axis=dim))
    Tensor.int = lambda self: Tensor(self.a.astype(np.int32))
    Module.add_module = lambda self, name, m: setattr(self, name, m)
    m = importlib.import_module("transformers.models.bert.modeling_bert")
    m.BertModel, m.BertConfig = BertModel, BertConfig
    importlib.import_module("transformers.models.bert.tokenization_bert").BertTokenizer = BertTokenizer
