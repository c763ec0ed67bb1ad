"""Stand-in for the tensorflow package: numpy in double precision, sessions, keras models and horovod ranks as threads.

Tensors hold a value, or a function of the current session run when they are part of a graph.
Every step of a session, every save and every barrier passes event(), where a check can delay or look.
"""
import contextlib
import importlib.abc
import importlib.machinery
import inspect
import os
import pickle
import sys
import threading
import types

import numpy as np

HOOK = [None]
RNG = [np.random.default_rng(0)]
ME = threading.local()


def event(name, **what):
    if HOOK[0] is not None:
        HOOK[0](name, **what)


class Gap(BaseException):
    """The stand-in misses something; no verdict."""


class Named(type):
    def __getattr__(cls, name):
        if name.startswith("__") or cls.__module__ != __name__ and not cls.__module__.startswith("tensorflow"):
            raise AttributeError(name)
        return Named(name, (Dummy,), {"__module__": cls.__module__})


class Dummy(metaclass=Named):
    """Class or function that is only named, never used, by the code under test."""

    def __init__(self, *args, **kwargs):
        raise Gap(type(self).__name__)


class FakeModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        d = Named(name, (Dummy,), {"__module__": self.__name__})
        setattr(self, name, d)
        return d


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    roots = ("tensorflow", "horovod", "tensorflow_addons", "tensorboard")

    def find_spec(self, fullname, path, target=None):
        if fullname.split(".")[0] in self.roots:
            return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
        return None

    def create_module(self, spec):
        m = FakeModule(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        for k, v in MODULES.get(module.__name__, {}).items():
            setattr(module, k, v)


# ---- shapes and tensors


class Dim(int):
    value = property(lambda self: int(self))


class TensorShape:
    def __init__(self, dims):
        if isinstance(dims, TensorShape):
            dims = dims.dims
        self.dims = None if dims is None else [None if d is None else Dim(d) for d in dims]

    ndims = rank = property(lambda self: None if self.dims is None else len(self.dims))

    def as_list(self):
        return [None if d is None else int(d) for d in self.dims]

    def concatenate(self, other):
        return TensorShape(self.dims + (list(other.dims) if isinstance(other, TensorShape) else [other]))

    def is_compatible_with(self, other):
        other = TensorShape(other)
        if self.dims is None or other.dims is None:
            return True
        return len(self.dims) == len(other.dims) and all(a is None or b is None or a == b for a, b in zip(self.dims, other.dims))

    def __getitem__(self, i):
        return TensorShape(self.dims[i]) if isinstance(i, slice) else self.dims[i]

    def __len__(self):
        return len(self.dims)

    def __iter__(self):
        return iter(self.dims)

    def __eq__(self, other):
        return self.dims == TensorShape(other).dims

    def __repr__(self):
        return "(%s)" % ", ".join(map(str, self.dims))


def raw(x):
    return x.a if isinstance(x, (Tensor, Variable)) else x


class Tensor:
    def __init__(self, a=None, thunk=None):
        self.thunk = thunk
        self._a = None if thunk is not None else np.asarray(a)

    @property
    def a(self):
        if self.thunk is not None:
            raise Gap("the value of a tensor of a graph outside of a session")
        return self._a

    shape = property(lambda self: TensorShape(self.a.shape))
    dtype = property(lambda self: self.a.dtype)
    ndim = property(lambda self: self.a.ndim)
    device = ""
    name = "tensor"

    def get_shape(self):
        return self.shape

    def numpy(self):
        return self.a

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return (Tensor(x) for x in self.a)

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)

    def __float__(self):
        return float(self.a)

    def __int__(self):
        return int(self.a)

    def __bool__(self):
        return bool(self.a)

    def __index__(self):
        return int(self.a)

    def __format__(self, spec):
        return format(self.a.item(), spec) if self.a.size == 1 else str(self.a)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "tf.Tensor(%s)" % (self._a if self.thunk is None else "?")


class Variable:
    """Lives in the store of a session's target, or in its own process."""

    def __init__(self, initial=None, name="variable", dtype=None, trainable=True, shape=None):
        self.name, self.trainable, self.device = name, trainable, ""
        self.a = np.array(raw(initial), dtype=np.float64 if dtype is None else dtype)

    shape = property(lambda self: TensorShape(self.a.shape))
    dtype = property(lambda self: self.a.dtype)
    ndim = property(lambda self: self.a.ndim)

    def get_shape(self):
        return self.shape

    def numpy(self):
        return self.a

    def assign(self, v):
        self.a = np.array(raw(v), dtype=self.a.dtype)
        return self

    def assign_add(self, v):
        return self.assign(self.a + raw(v))

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)

    def __hash__(self):
        return id(self)


def lazy(x):
    return isinstance(x, GraphVariable) or (isinstance(x, Tensor) and x.thunk is not None)


def lift(fn):
    """The function on values; on tensors of a graph it becomes a part of the graph."""

    def call(*args, **kwargs):
        flat = list(args) + list(kwargs.values())
        if any(lazy(x) for x in flat):
            return Tensor(thunk=lambda run: raw(fn(*[run(x) for x in args], **{k: run(v) for k, v in kwargs.items()})))
        return fn(*args, **kwargs)

    call.__name__ = fn.__name__
    return call


def value(fn):
    """Function of arrays with an array as its result."""

    def on_arrays(*args, **kwargs):
        kwargs.pop("name", None)
        return Tensor(fn(*[unwrap(x) for x in args], **{k: unwrap(v) for k, v in kwargs.items()}))

    on_arrays.__name__ = fn.__name__
    return lift(on_arrays)


def unwrap(x):
    if isinstance(x, (list, tuple)):
        return [unwrap(y) for y in x]
    return raw(x)


def _operators():
    import operator

    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "lt", "le", "gt", "ge", "and", "or"):
        f = getattr(operator, n if n not in ("and", "or") else n + "_")
        g = value(lambda x, y, f=f: f(x, y))
        r = value(lambda x, y, f=f: f(y, x))
        for c in (Tensor, Variable):
            setattr(c, "__%s__" % n, lambda self, o, g=g: g(self, o))
            if n not in ("lt", "le", "gt", "ge"):
                setattr(c, "__r%s__" % n, lambda self, o, r=r: r(self, o))
    for c in (Tensor, Variable):
        c.__neg__ = value(lambda x: -x)
        c.__abs__ = value(lambda x: abs(x))
        c.__invert__ = value(lambda x: ~x)
        c.__eq__ = value(lambda x, y: x == y)
        c.__ne__ = value(lambda x, y: x != y)
        c.__hash__ = lambda self: id(self)
        c.__getitem__ = lambda self, i: pick(self, i)


def pick(x, i):
    i = tuple(raw(j) for j in i) if isinstance(i, tuple) else raw(i)
    return Tensor(raw(x)[i])


class SparseTensor:
    def __init__(self, indices, values, dense_shape):
        self.indices, self.values = Tensor(np.asarray(raw(indices))), Tensor(np.asarray(raw(values)))
        self.dense_shape = Tensor(np.asarray(raw(dense_shape)))
        i, s = self.indices.a, self.dense_shape.a
        if i.ndim != 2 or i.shape[1] != len(s) or len(i) != len(self.values.a):
            raise ValueError("indices %s, values %s and shape %s do not fit" % (i.shape, self.values.a.shape, s))

    shape = property(lambda self: TensorShape(self.dense_shape.a.tolist()))
    dtype = property(lambda self: self.values.dtype)

    def get_shape(self):
        return self.shape

    def dense(self):
        d = np.zeros(tuple(self.dense_shape.a))
        np.add.at(d, tuple(self.indices.a.T), self.values.a)
        return d


_operators()


# ---- functions


def softmax_rows(x, axis=-1):
    e = np.exp(x - x.max(axis, keepdims=True))
    return e / e.sum(axis, keepdims=True)


def dropout(x, rate=0.0, **kwargs):
    x = raw(x)
    if rate == 0.0:
        return Tensor(x)
    event("dropout")
    keep = RNG[0].random(x.shape) >= rate
    return Tensor(np.where(keep, x / (1 - rate), 0.0))


def lookup(params, ids, **kwargs):
    p, i = np.asarray(unwrap(params)), np.asarray(unwrap(ids))
    if i.size and (i.min() < 0 or i.max() >= len(p)):
        raise InvalidArgumentError("indices are not in [0, %d)" % len(p))
    return p[i]


def reshape(x, shape):
    return np.asarray(x).reshape([int(s) for s in np.asarray(shape).reshape(-1)])


def slice_(x, begin, size):
    return x[tuple(slice(b, None if n == -1 else b + n) for b, n in zip(begin, size))]


def scatter_nd(indices, updates, shape):
    out = np.zeros([int(s) for s in shape], np.asarray(updates).dtype)
    np.add.at(out, tuple(np.asarray(indices).T), updates)
    return out


def gather(params, indices, axis=0, **kwargs):
    return lookup(params, indices) if axis == 0 else np.take(params, indices, axis)


def matmul(a, b, transpose_a=False, transpose_b=False, a_is_sparse=False, b_is_sparse=False):
    a = np.swapaxes(a, -1, -2) if transpose_a else a
    b = np.swapaxes(b, -1, -2) if transpose_b else b
    return np.matmul(a, b)


def bias_add(x, b):
    if np.ndim(b) != 1 or np.shape(x)[-1] != len(b):
        raise ValueError("bias does not fit")
    return x + b


def add_n(xs):
    if len({np.shape(x) for x in xs}) > 1:
        raise ValueError("Shapes must be equal: %s" % [np.shape(x) for x in xs])
    return sum(xs[1:], xs[0])


def reduce(fn):
    def call(input_tensor, axis=None, keepdims=False):
        x = np.asarray(input_tensor)
        return fn(x, axis=tuple(axis) if isinstance(axis, list) else axis, keepdims=keepdims)

    return value(call)


def l2_normalize(x, axis=None, epsilon=1e-12):
    return x / np.sqrt(np.maximum((x**2).sum(axis, keepdims=True), epsilon))


def cross_entropy(labels=None, logits=None, axis=-1):
    return -(labels * np.log(softmax_rows(logits, axis) + 1e-300)).sum(axis)


def one_hot(indices, depth, **kwargs):
    i = np.asarray(indices)
    return (i[..., None] == np.arange(depth)).astype(np.float64)


def cast(x, dtype):
    return np.asarray(x).astype(np.dtype(dtype) if not isinstance(dtype, np.dtype) else dtype)


def argmax(input=None, axis=None, **kwargs):
    return np.argmax(input, 0 if axis is None else axis)


def power(x, y):
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.power(np.asarray(x, np.float64), y)


def transpose(a=None, perm=None, **kwargs):
    return np.transpose(a, perm)


def where(condition, x=None, y=None):
    return np.where(condition, x, y) if x is not None else np.argwhere(condition)


def sparse_softmax(s):
    d = np.full(tuple(s.dense_shape.a), -np.inf)
    for (i, j), v in zip(s.indices.a, s.values.a):
        d[i, j] = v
    with np.errstate(invalid="ignore"):
        m = d.max(-1, keepdims=True)
        e = np.exp(d - np.where(np.isinf(m), 0, m))
        p = e / np.maximum(e.sum(-1, keepdims=True), 1e-300)
    return SparseTensor(s.indices, p[tuple(s.indices.a.T)], s.dense_shape)


def sparse_matmul(sp_a, b, adjoint_a=False, adjoint_b=False, name=None):
    a, b = sp_a.dense(), raw(b)
    return Tensor((a.T if adjoint_a else a) @ (b.T if adjoint_b else b))


def tensordot(a, b, axes):
    return np.tensordot(a, b, axes)


def embedding_lookup_sparse(params, sp_ids, sp_weights=None, combiner="mean", **kwargs):
    rows, ids = sp_ids.indices.a[:, 0], sp_ids.values.a
    p = raw(params)
    out = np.zeros((int(sp_ids.dense_shape.a[0]), p.shape[1]))
    n = np.zeros(len(out))
    for r, i in zip(rows, ids):
        out[r] += p[i]
        n[r] += 1
    if combiner == "mean":
        out /= np.maximum(n, 1)[:, None]
    elif combiner == "sqrtn":
        out /= np.sqrt(np.maximum(n, 1))[:, None]
    return Tensor(out)


# ---- keras


class Calls(threading.local):
    training = None


CALLS = Calls()


class KerasLayer:
    def __init__(self, name=None, **kwargs):
        self.name = name
        self.built = False
        self.own = []

    def add_weight(self, name=None, shape=(), initializer=None, dtype=None, trainable=True, **kwargs):
        shape = [int(s) for s in shape]
        v = Variable(np.zeros(shape) if initializer == "zeros" else RNG[0].normal(0, 0.5, shape), name, trainable=trainable)
        self.__dict__.setdefault("own", []).append(v)
        return v

    def build(self, input_shape):
        pass

    def call(self, inputs, **kwargs):
        return inputs

    def __call__(self, inputs, *args, **kwargs):
        if not self.__dict__.get("built"):
            first = inputs
            if isinstance(first, np.ndarray):
                first = Tensor(first)
            self.build(first.shape if isinstance(first, Tensor) else None)
            self.built = True
        takes = "training" in inspect.signature(self.call).parameters
        if takes and "training" not in kwargs and not args and CALLS.training is not None:
            kwargs["training"] = CALLS.training
        before = CALLS.training
        if takes and kwargs.get("training") is not None:
            CALLS.training = kwargs["training"]
        try:
            return self.call(convert(inputs), *args, **kwargs)
        finally:
            CALLS.training = before

    def layers_of(self):
        for v in vars(self).values():
            for x in v if isinstance(v, (list, tuple)) else [v]:
                if isinstance(x, KerasLayer):
                    yield x
                    yield from x.layers_of()

    @property
    def variables(self):
        found = list(self.__dict__.get("own", []))
        found += [v for v in vars(self).values() if isinstance(v, Variable) and not any(v is f for f in found)]
        for x in self.layers_of():
            found += [v for v in list(x.own) + [w for w in vars(x).values() if isinstance(w, Variable)] if not any(v is f for f in found)]
        return found

    trainable_variables = weights = trainable_weights = variables

    def __getattr__(self, name):
        # Parts of real layers that this stand-in does not have.
        if name in LAYER_PARTS:
            raise Gap("%s.%s" % (type(self).__name__, name))
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, name))


LAYER_PARTS = set(
    "get_config from_config add_loss add_metric losses metrics updates add_update get_weights set_weights count_params compute_mask compute_output_shape dtype compute_dtype "
    "variable_dtype input_spec input output input_shape output_shape trainable non_trainable_weights non_trainable_variables stateful dynamic submodules name_scope "
    "activity_regularizer supports_masking finalize_state get_input_at get_output_at".split()
)


def convert(x):
    if isinstance(x, np.ndarray):
        return Tensor(x)
    if isinstance(x, (list, tuple)):
        return type(x)(convert(y) for y in x)
    return x


class Dense(KerasLayer):
    def __init__(self, units, activation=None, use_bias=True, name=None, **kwargs):
        super().__init__(name)
        self.units, self.activation, self.use_bias = units, activation, use_bias

    def call(self, x):
        x = np.asarray(raw(x), np.float64)
        if not hasattr(self, "kernel"):
            self.kernel = self.add_weight("kernel", [x.shape[-1], self.units])
            if self.use_bias:
                self.bias = self.add_weight("bias", [self.units])
        y = x @ self.kernel.a
        if self.use_bias:
            y = y + self.bias.a
        return self.activation(Tensor(y)) if self.activation else Tensor(y)


class Conv1D(Dense):
    def __init__(self, filters, kernel_size, use_bias=True, **kwargs):
        if kernel_size not in (1, [1], (1,)):
            raise Gap("Conv1D with a wide kernel")
        super().__init__(filters, use_bias=use_bias, **kwargs)


class LSTMCell(KerasLayer):
    """A simpler recurrent cell with the same shapes."""

    def __init__(self, units, **kwargs):
        super().__init__()
        self.units = units

    def step(self, x, h):
        if not hasattr(self, "ins"):
            self.ins, self.loop = self.add_weight("in", [x.shape[-1], self.units]), self.add_weight("loop", [self.units, self.units])
        return np.tanh(x @ self.ins.a + h @ self.loop.a)


class RNN(KerasLayer):
    def __init__(self, cell, return_sequences=False, **kwargs):
        super().__init__()
        self.cell, self.return_sequences = cell, return_sequences

    def call(self, x):
        x = raw(x)
        h, steps = np.zeros((len(x), self.cell.units)), []
        for t in range(x.shape[1]):
            h = self.cell.step(x[:, t], h)
            steps.append(h)
        return Tensor(np.stack(steps, 1) if self.return_sequences else h)


class Callback:
    def __init__(self, *args, **kwargs):
        self.model = None

    def set_model(self, model):
        self.model = model

    def set_params(self, params):
        self.params = params


class LambdaCallback(Callback):
    def __init__(self, **fns):
        super().__init__()
        for k, f in fns.items():
            if f is not None:
                setattr(self, k, f)


class TensorBoard(Callback):
    def __init__(self, log_dir="logs", *args, **kwargs):
        super().__init__()
        self.log_dir = log_dir


class ModelCheckpoint(Callback):
    def __init__(self, filepath, monitor="val_loss", verbose=0, save_best_only=False, save_weights_only=False, mode="auto", save_freq="epoch", **kwargs):
        super().__init__()
        if save_best_only or save_freq != "epoch":
            raise Gap("ModelCheckpoint with options")
        self.filepath = filepath

    def on_epoch_end(self, epoch, logs=None):
        self.model.save_weights(self.filepath)


class Model(KerasLayer):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.stop_training = False

    def compile(self, optimizer=None, loss=None, metrics=None, **kwargs):
        if optimizer is not None:
            self.optimizer = optimizer

    def save_weights(self, path, **kwargs):
        event("save", path=path)
        with open(path, "wb") as w:
            pickle.dump([v.a for v in self.variables], w)

    save = save_weights

    def load_weights(self, path, **kwargs):
        event("load", path=path)
        with open(path, "rb") as r:
            saved = pickle.load(r)
        for v, a in zip(self.variables, saved):
            v.assign(a)

    def tell(self, callbacks, what, *args):
        also = {"on_train_batch_end": "on_batch_end", "on_train_batch_begin": "on_batch_begin"}
        for c in callbacks:
            for n in (what, also.get(what)):
                f = getattr(c, n, None) if n else None
                if f is not None:
                    f(*args)

    def steps(self, ds, fn, callbacks, kind, limit, first=0):
        done, logs = 0, {}
        while limit is None or done < limit:
            try:
                data = next(ds)
            except StopIteration:
                break
            self.tell(callbacks, "on_%s_batch_begin" % kind, done, {})
            out = fn(data)
            logs = {k: np.asarray(raw(v)) for k, v in out.items()} if isinstance(out, dict) else {"outputs": [np.asarray(raw(x)) for x in out]}
            event("%s step" % kind)
            self.tell(callbacks, "on_%s_batch_end" % kind, done, logs)
            done += 1
        return done, logs

    def fit(self, x=None, y=None, batch_size=None, epochs=1, verbose=None, callbacks=None, steps_per_epoch=None, **kwargs):
        if kwargs or y is not None:
            raise Gap("fit(%s)" % sorted(kwargs))
        cbs = list(callbacks or [])
        for c in cbs:
            c.set_model(self)
        self.tell(cbs, "on_train_begin", {})
        it, logs = None, {}
        for e in range(epochs):
            self.tell(cbs, "on_epoch_begin", e, {})
            if it is None or steps_per_epoch is None:
                it = iter(x)
            done, logs = self.steps(it, self.train_step, cbs, "train", steps_per_epoch)
            if steps_per_epoch is not None and done < steps_per_epoch:
                # Keras warns that the data ran out and stops.
                self.tell(cbs, "on_epoch_end", e, logs)
                break
            self.tell(cbs, "on_epoch_end", e, logs)
        self.tell(cbs, "on_train_end", logs)

    def evaluate(self, x=None, y=None, batch_size=None, verbose=None, callbacks=None, steps=None, **kwargs):
        cbs = list(callbacks or [])
        for c in cbs:
            c.set_model(self)
        self.tell(cbs, "on_test_begin", {})
        _, logs = self.steps(iter(x), self.test_step, cbs, "test", steps)
        self.tell(cbs, "on_test_end", logs)
        return logs

    def predict(self, x, batch_size=None, verbose=None, callbacks=None, steps=None, **kwargs):
        cbs = list(callbacks or [])
        for c in cbs:
            c.set_model(self)
        self.tell(cbs, "on_predict_begin", {})
        self.steps(iter(x), self.predict_step, cbs, "predict", steps)
        self.tell(cbs, "on_predict_end", {})


# ---- data


class InvalidArgumentError(Exception):
    pass


class OutOfRangeError(Exception):
    pass


class Dataset:
    def __init__(self, make):
        self.make = make

    @staticmethod
    def from_generator(generator, output_types=None, output_shapes=None, args=None, output_signature=None):
        if output_types is None:
            raise Gap("from_generator with a signature")

        def make():
            for item in generator():
                if not isinstance(item, (tuple, list)):
                    raise TypeError("`generator` yielded an element that did not match the expected structure: %s" % type(item))
                if len(item) != len(output_types):
                    raise TypeError("`generator` yielded %d items instead of %d" % (len(item), len(output_types)))
                got = []
                for x, t, s in zip(item, output_types, output_shapes):
                    x = np.asarray(raw(x))
                    if not np.can_cast(x.dtype, t, "same_kind"):
                        raise TypeError("`generator` yielded an element that could not be converted: %s to %s" % (x.dtype, t))
                    if not TensorShape(s).is_compatible_with(x.shape):
                        raise TypeError("`generator` yielded an element of shape %s where an element of shape %s was expected." % (x.shape, s))
                    got.append(Tensor(x.astype(t)))
                yield tuple(got)

        return Dataset(make)

    def repeat(self, count=None):
        def make():
            n = 0
            while count is None or count < 0 or n < count:
                yield from self.make()
                n += 1

        return Dataset(make)

    def prefetch(self, n):
        return self

    def take(self, n):
        def make():
            for i, x in zip(range(n), self.make()):
                yield x

        return Dataset(make)

    def __iter__(self):
        return iter(self.make())


class OneShot:
    """Iterator of a graph: one element per session run."""

    def __init__(self, dataset):
        self.it = None
        self.dataset = dataset
        self.width = None

    def pull(self, run):
        if id(self) not in run.cache:
            if self.it is None:
                self.it = iter(self.dataset)
            try:
                run.cache[id(self)] = next(self.it)
            except StopIteration:
                raise OutOfRangeError("End of sequence") from None
        return run.cache[id(self)]

    def get_next(self, name=None):
        return tuple(Tensor(thunk=lambda run, i=i: raw(self.pull(run)[i])) for i in range(WIDTH.n))


class Width(threading.local):
    n = 1


WIDTH = Width()


# ---- graphs and sessions


class Store:
    """Values of variables, of one process or of all workers of a cluster."""

    def __init__(self):
        self.values = {}
        self.lock = threading.RLock()


CLUSTERS = {}


def local():
    if not hasattr(ME, "store"):
        ME.store = Store()
        ME.graph = {}
    return ME


class GraphVariable(Tensor):
    def __init__(self, name, initial, trainable=True):
        super().__init__(thunk=lambda run: np.array(run.store.values[name]))
        self.name, self.initial = name, initial
        local().graph[name] = self


def get_variable(name, shape=None, initializer=None, partitioner=None, **kwargs):
    v = initializer([int(s) for s in shape]) if callable(initializer) else RNG[0].normal(0, 0.5, [int(s) for s in shape])
    return Variable(v, name)


def global_step():
    g = local().graph
    return g["global_step"] if "global_step" in g else GraphVariable("global_step", np.int64(0))


def assign(ref, v, use_locking=False, **kwargs):
    def do(run):
        with run.store.lock:
            run.store.values[ref.name] = np.array(run.fresh(v))
            return run.store.values[ref.name]

    return Tensor(thunk=do)


class Run:
    def __init__(self, store):
        self.store, self.cache = store, {}

    def __call__(self, x):
        if isinstance(x, (list, tuple)):
            return [self(y) for y in x]
        if not lazy(x):
            return raw(x)
        if id(x) not in self.cache:
            self.cache[id(x)] = (x.thunk(self), x)
        return self.cache[id(x)][0]

    def fresh(self, x):
        """The value now, under the lock of the store."""
        return Run.__call__(Fresh(self), x)


class Fresh(Run):
    def __init__(self, run):
        self.store = run.store
        self.cache = {}


class SessionRunHook:
    def begin(self):
        pass

    def after_create_session(self, session, coord):
        pass

    def before_run(self, run_context):
        pass

    def after_run(self, run_context, run_values):
        pass

    def end(self, session):
        pass


class IdleHook(SessionRunHook):
    def __init__(self, *args, **kwargs):
        pass


def write_checkpoint(path, values, step):
    event("save", path=path, step=int(step))
    with open("%s-%d.index" % (path, step), "wb") as w:
        pickle.dump(values, w)
    with open(os.path.join(os.path.dirname(path), "checkpoint"), "w") as w:
        w.write("%s-%d" % (os.path.basename(path), step))


class CheckpointSaverHook(SessionRunHook):
    def __init__(self, checkpoint_dir, save_secs=None, save_steps=None, saver=None, checkpoint_basename="model.ckpt", scaffold=None, listeners=None, *args, **kwargs):
        if (save_secs is None) == (save_steps is None):
            raise ValueError("exactly one of save_secs and save_steps should be given")
        self._save_path = os.path.join(checkpoint_dir, checkpoint_basename)

    def after_create_session(self, session, coord):
        self._save(session, session.step())

    def end(self, session):
        self._save(session, session.step())

    def _save(self, session, step):
        with session.store.lock:
            write_checkpoint(self._save_path, dict(session.store.values), step)
        return False


class Session:
    def __init__(self, master="", is_chief=True, checkpoint_dir=None, scaffold=None, hooks=None, chief_only_hooks=None, save_checkpoint_secs=600, save_checkpoint_steps=None, config=None, **kwargs):
        if save_checkpoint_secs is not None:
            raise Gap("sessions that save on their own")
        me = local()
        self.store = CLUSTERS[master].store if master else me.store
        self.hooks = (list(chief_only_hooks or []) if is_chief else []) + list(hooks or [])
        self.stop = False
        for h in self.hooks:
            h.begin()
        if is_chief:
            with self.store.lock:
                self.store.values.update({n: np.array(v.initial) for n, v in me.graph.items()})
                if checkpoint_dir is not None:
                    p = os.path.join(checkpoint_dir, "checkpoint")
                    if os.path.exists(p):
                        with open(p) as r:
                            name = r.read()
                        event("load", path=name)
                        with open(os.path.join(checkpoint_dir, name + ".index"), "rb") as r:
                            self.store.values.update(pickle.load(r))
                self.store.ready = True
        else:
            waited = threading.Event()
            while not getattr(self.store, "ready", False):
                event("waiting for the chief")
                waited.wait(0.0005)
        for h in self.hooks:
            h.after_create_session(self, None)

    def step(self):
        return int(self.store.values.get("global_step", 0))

    def __enter__(self):
        return self

    def should_stop(self):
        return self.stop

    def run(self, fetches, feed_dict=None, **kwargs):
        event("run")
        run = Run(self.store)
        out = [run(f) for f in fetches] if isinstance(fetches, (list, tuple)) else run(fetches)
        event("ran")
        return out

    def __exit__(self, kind, error, tb):
        if kind is None or issubclass(kind, (OutOfRangeError, StopIteration)):
            self.stop = True
            for h in self.hooks:
                h.end(self)
            return True
        return False


class Server:
    """All workers of a cluster share the store of its parameter servers."""

    def __init__(self, spec, job_name=None, task_index=0, **kwargs):
        key = repr(sorted((k, tuple(v)) for k, v in spec.items()))
        with CLUSTERS_LOCK:
            self.target = "grpc://" + key
            CLUSTERS.setdefault(self.target, types.SimpleNamespace(store=Store()))

    def join(self):
        raise Gap("a parameter server")


CLUSTERS_LOCK = threading.Lock()


# ---- horovod


class World:
    def __init__(self, size):
        self.size, self.cond, self.turn, self.slots, self.done, self.left = size, threading.Condition(), 0, {}, {}, 0

    def leave(self):
        with self.cond:
            self.left += 1
            self.cond.notify_all()

    def exchange(self, rank, what, v):
        with self.cond:
            turn = self.turn
            self.slots[rank] = (what, v)
            if len(self.slots) == self.size:
                self.done[turn] = self.slots
                self.done.pop(turn - 2, None)
                self.slots, self.turn = {}, self.turn + 1
                self.cond.notify_all()
            while self.turn == turn:
                if self.left:
                    raise RuntimeError("rank %d waits in %s, others have ended" % (rank, what))
                self.cond.wait()
            got = self.done[turn]
        if len({w for w, _ in got.values()}) > 1:
            raise RuntimeError("ranks meet in different operations: %s" % {k: w for k, (w, _) in got.items()})
        return [got[k][1] for k in range(self.size)]


def everyone(v, what):
    return ME.world.exchange(ME.rank, what, v)


class BroadcastHook(SessionRunHook):
    def __init__(self, root, device=""):
        self.root = root

    def after_create_session(self, session, coord):
        session.store.values.update(everyone(dict(session.store.values), "broadcast")[self.root])


class BroadcastCallback(Callback):
    def __init__(self, root):
        super().__init__()
        self.root, self.done = root, False

    def on_batch_end(self, batch, logs=None):
        if not self.done:
            self.done = True
            for v, a in zip(self.model.variables, everyone([v.a for v in self.model.variables], "broadcast")[self.root]):
                v.assign(a)


class DistributedOptimizer:
    """Optimizers of checks have a method that applies a sum of the gradients of all ranks."""

    def __init__(self, optimizer, *args, **kwargs):
        self.optimizer = optimizer

    def minimize(self, loss, global_step=None, **kwargs):
        return self.optimizer.minimize(loss, global_step=global_step, combine=lambda g: sum(everyone(g, "reduce")))


# ---- files


class GFile:
    def __init__(self, name, mode="r"):
        self.f = open(name, mode)

    def __enter__(self):
        return self.f

    def __exit__(self, *args):
        self.f.close()

    def __getattr__(self, n):
        return getattr(self.f, n)


class Writer:
    def __init__(self, *args, **kwargs):
        pass

    @contextlib.contextmanager
    def as_default(self, *args):
        yield self

    def close(self):
        pass

    flush = close


def nothing(*args, **kwargs):
    return None


@contextlib.contextmanager
def scope(*args, **kwargs):
    yield None


def flatten(x):
    if isinstance(x, dict):
        return [z for k in sorted(x) for z in flatten(x[k])]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flatten(y)]
    return [x]


def map_structure(fn, x):
    if isinstance(x, dict):
        return {k: map_structure(fn, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(map_structure(fn, y) for y in x)
    return fn(x)


def space(**kwargs):
    m = FakeModule("tensorflow")
    for k, v in kwargs.items():
        setattr(m, k, v)
    return m


class Strategy:
    def distribute_datasets_from_function(self, fn):
        return fn(None)


class Config(types.SimpleNamespace):
    def __init__(self, **kwargs):
        super().__init__(gpu_options=types.SimpleNamespace(), **kwargs)


def top():
    elu = value(lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0))))
    relu = value(lambda x: np.maximum(x, 0))
    nn = space(
        relu=relu, elu=elu, dropout=lift(dropout), softmax=value(softmax_rows), tanh=value(np.tanh),
        leaky_relu=value(lambda features, alpha=0.2: np.where(features > 0, features, alpha * features)), embedding_lookup=value(lookup), bias_add=value(bias_add),
        embedding_lookup_sparse=embedding_lookup_sparse, l2_normalize=value(l2_normalize), softmax_cross_entropy_with_logits=value(cross_entropy),
        l2_loss=value(lambda x: (np.asarray(x) ** 2).sum() / 2), sigmoid=value(lambda x: 1 / (1 + np.exp(-x))),
    )
    math = space(add=value(np.add), subtract=value(np.subtract), divide=value(np.divide), add_n=value(add_n), abs=value(np.abs), sign=value(np.sign), maximum=value(np.maximum), minimum=value(np.minimum), exp=value(np.exp), tanh=value(np.tanh), reduce_max=reduce(np.max), reduce_min=reduce(np.min), argmax=value(argmax), equal=value(lambda x, y: x == y), square=value(np.square), l2_normalize=value(l2_normalize), reciprocal=value(lambda x: 1.0 / x), pow=value(power), is_inf=value(np.isinf), multiply=value(np.multiply), reduce_sum=reduce(np.sum), reduce_mean=reduce(np.mean), divide_no_nan=value(lambda x, y: np.where(y == 0, 0.0, x / np.where(y == 0, 1, y))), is_nan=value(np.isnan), rsqrt=value(lambda x: power(x, -0.5)), sqrt=value(np.sqrt), is_finite=value(np.isfinite))
    keras = space(
        Model=Model,
        layers=space(Layer=KerasLayer, Dense=Dense, Conv1D=Conv1D, LSTMCell=LSTMCell, RNN=RNN),
        callbacks=space(Callback=Callback, LambdaCallback=LambdaCallback, TensorBoard=TensorBoard, ModelCheckpoint=ModelCheckpoint),
    )
    errors = space(OutOfRangeError=OutOfRangeError, InvalidArgumentError=InvalidArgumentError)
    logging = space(info=nothing, warning=nothing, warn=nothing, error=nothing, debug=nothing, set_verbosity=nothing, INFO=20, WARN=30)
    gfile = space(GFile=GFile, exists=os.path.exists, remove=os.remove, glob=lambda p: __import__("glob").glob(p), makedirs=lambda p: os.makedirs(p, exist_ok=True), isdir=os.path.isdir)
    v1 = space(
        logging=logging, disable_v2_behavior=nothing, set_random_seed=nothing, device=scope, variable_scope=scope, name_scope=scope, get_variable=get_variable,
        local_variables=lambda: [], global_variables=lambda: [], trainable_variables=lambda: [], reset_default_graph=nothing, assign=assign, ConfigProto=Config,
        zeros_initializer=lambda: (lambda shape: np.zeros(shape)),
        constant_initializer=lambda value=0: (lambda shape: np.full(shape, float(value))),
        truncated_normal_initializer=lambda stddev=1.0: (lambda shape: RNG[0].normal(0, stddev, shape)),
        keras=space(initializers=space(VarianceScaling=lambda **k: (lambda shape: RNG[0].normal(0, 0.5, shape)))),
        summary=space(scalar=lambda name=None, tensor=None: None, FileWriter=Writer),
        data=space(make_one_shot_iterator=OneShot),
        train=space(get_or_create_global_step=global_step, MonitoredTrainingSession=Session, replica_device_setter=nothing),
    )
    arrays = dict(
        add_n=value(add_n), concat=value(lambda values, axis: np.concatenate([np.asarray(v) for v in values], axis)), reshape=value(reshape), transpose=value(transpose),
        slice=value(slice_), matmul=value(matmul), expand_dims=value(lambda input, axis: np.expand_dims(input, axis)), squeeze=value(lambda input, axis=None: np.squeeze(input, axis)),
        tensordot=value(tensordot), tanh=value(np.tanh), sign=value(np.sign), abs=value(np.abs), maximum=value(np.maximum), minimum=value(np.minimum),
        cast=value(cast), range=value(lambda *a: np.arange(*[int(x) for x in a])), gather=value(gather), scatter_nd=value(scatter_nd), where=value(where), zeros_like=value(np.zeros_like), ones_like=value(np.ones_like),
        zeros=value(lambda shape, dtype=None: np.zeros([int(s) for s in shape])), ones=value(lambda shape, dtype=None: np.ones([int(s) for s in shape])),
        equal=value(lambda x, y: x == y), argmax=value(argmax), one_hot=value(one_hot), stop_gradient=value(lambda x: x), boolean_mask=value(lambda tensor, mask: tensor[mask]),
        reduce_mean=reduce(np.mean), reduce_sum=reduce(np.sum), reduce_max=reduce(np.max), reduce_min=reduce(np.min), reduce_prod=reduce(np.prod), stack=value(lambda values, axis=0: np.stack(values, axis)), tile=value(np.tile),
        sort=value(lambda values, axis=-1, direction="ASCENDING": np.sort(values, axis) if direction == "ASCENDING" else np.flip(np.sort(values, axis), axis)), argsort=value(lambda values, axis=-1: np.argsort(values, axis, kind="stable")), reverse=value(lambda tensor, axis: np.flip(tensor, axis)), einsum=value(lambda eq, *xs: np.einsum(eq, *xs)), repeat=value(lambda input, repeats, axis=None: np.repeat(input, repeats, axis)),
        logical_not=value(np.logical_not), logical_and=value(np.logical_and), not_equal=value(lambda x, y: x != y), greater=value(lambda x, y: x > y), less=value(lambda x, y: x < y), rank=value(np.ndim), size=value(np.size), broadcast_to=value(lambda x, s: np.broadcast_to(x, [int(k) for k in s])), pad=value(lambda x, w: np.pad(x, w)),
        add=value(np.add), multiply=value(np.multiply), subtract=value(np.subtract), pow=value(power), exp=value(np.exp), sqrt=value(np.sqrt), square=value(np.square), identity=value(lambda x: x), divide=value(np.divide),
        convert_to_tensor=value(lambda x, dtype=None: np.asarray(x, dtype)), constant=value(lambda x, dtype=None, shape=None: np.asarray(x, dtype)), sigmoid=value(lambda x: 1 / (1 + np.exp(-x))), gather_nd=value(lambda params, indices: params[tuple(np.moveaxis(np.asarray(indices), -1, 0))]), fill=value(lambda d, v: np.full([int(s) for s in d], v)),
    )
    return dict(
        arrays,
        __version__="2.9.0", Tensor=Tensor, SparseTensor=SparseTensor, Variable=Variable, TensorShape=TensorShape, nn=nn, math=math, keras=keras, errors=errors,
        shape=value(lambda x: np.array(np.shape(x))), name_scope=scope, array_ops=space(transpose=value(lambda x, perm: np.transpose(x, perm))), device=scope,
        linalg=space(diag=value(lambda d: np.diag(d)), matmul=value(matmul)), random=space(set_seed=nothing, normal=value(lambda shape, mean=0.0, stddev=1.0: RNG[0].normal(mean, stddev, [int(s) for s in shape]))),
        sparse=space(SparseTensor=SparseTensor, softmax=sparse_softmax, sparse_dense_matmul=sparse_matmul, sparse_tensor_dense_matmul=sparse_matmul, from_dense=lambda d: SparseTensor(np.argwhere(raw(d)), raw(d)[raw(d) != 0], raw(d).shape), reorder=lambda s: s, transpose=lambda s, perm=None: SparseTensor(s.indices.a[:, ::-1], s.values, s.dense_shape.a[::-1]), to_dense=lambda s: Tensor(s.dense()), reduce_sum=lambda s, axis=None: Tensor(s.dense().sum(axis))),
        compat=space(v1=v1), estimator=space(SessionRunHook=SessionRunHook, CheckpointSaverHook=CheckpointSaverHook, LoggingTensorHook=IdleHook, SummarySaverHook=IdleHook, ProfilerHook=IdleHook),
        io=space(gfile=gfile), data=space(Dataset=Dataset), distribute=space(Server=Server, get_strategy=Strategy), train=space(ClusterSpec=dict),
        config=space(set_visible_devices=nothing, get_visible_devices=lambda *a: [], experimental=space(list_physical_devices=lambda k: [], set_memory_growth=nothing, set_visible_devices=nothing)),
        summary=space(create_file_writer=Writer, scalar=nothing), dtypes=space(DType=np.dtype), float32=np.dtype(np.float64), float64=np.dtype(np.float64), int32=np.dtype(np.int32), int64=np.dtype(np.int64), bool=np.dtype(bool),
        debugging=space(), print=nothing,
    )


TOP = top()
HVD = dict(
    init=nothing, rank=lambda: ME.rank, size=lambda: ME.world.size, local_rank=lambda: ME.rank, local_size=lambda: ME.world.size,
    DistributedOptimizer=DistributedOptimizer, BroadcastGlobalVariablesHook=BroadcastHook, callbacks=space(BroadcastGlobalVariablesCallback=BroadcastCallback),
)
MODULES = {
    "tensorflow": TOP,
    "tensorflow.keras": vars(TOP["keras"]),
    "tensorflow.python.util.nest": dict(flatten=flatten, map_structure=map_structure),
    "horovod.tensorflow": HVD,
    "horovod.tensorflow.keras": HVD,
}


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    import tensorflow.python.util  # noqa
    import tensorflow.python.util.nest  # noqa

    sys.modules["tensorflow.python.util"].nest = sys.modules["tensorflow.python.util.nest"]
    return sys.modules["tensorflow"]


# Parts of real tensors; other names fail with the real ones, too.
TENSOR_PARTS = set("device dtype graph name op ref shape ndim rank get_shape numpy consumers eval experimental_ref set_shape value_index backing_device cpu gpu is_tensor_like indices values dense_shape with_values from_value".split())
SPARSE_ONLY = {"indices", "values", "dense_shape", "with_values", "from_value"}


def guard(fn):
    """Missing parts of the stand-in give no verdict."""

    def call(*args, **kwargs):
        try:
            return fn(*args, **kwargs)
        except AttributeError as e:
            obj = getattr(e, "obj", None)
            name = getattr(e, "name", "") or ""
            if isinstance(obj, (Tensor, SparseTensor)) and not name.startswith("_") and name not in TENSOR_PARTS - (SPARSE_ONLY if isinstance(obj, Tensor) else set()):
                raise
            if (type(obj).__module__ == __name__ or isinstance(obj, FakeModule) or (isinstance(obj, type) and obj.__module__ == __name__)) and "has no attribute" in str(e):
                raise Gap(str(e)) from None
            raise
        except TypeError as e:
            if "unexpected keyword argument" in str(e):
                raise Gap(str(e)) from None
            raise

    return call
