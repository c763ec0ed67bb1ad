"""Stand-in for the torch package: arrays without gradients, modules, optimizers, loaders and process groups of threads.

It exists to run trainers, not to compute: a model of a check brings its own gradients.
Every call that changes files or model state passes event(), where a check can stop the process.
"""
import contextlib
import copy
import importlib.abc
import importlib.machinery
import os
import pickle
import sys
import threading
import types

import numpy as np

HOOK = [None]
SCALAR = [None]


def event(name):
    if HOOK[0] is not None:
        HOOK[0](name)


# ---- catch-all modules


class Gap(Exception):
    """Something of torch that the stand-in does not have was used."""


class Dummy:
    """Class or function that is only named, never used, by the code under test."""

    def __init__(self, *args, **kwargs):
        raise Gap(type(self).__name__)


class FakeModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        d = type(name, (Dummy,), {"__module__": self.__name__})
        setattr(self, name, d)
        return d


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    roots = ("torch", "transformers", "horovod", "apex")

    def find_spec(self, fullname, path, target=None):
        if fullname.split(".")[0] in self.roots:
            return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
        return None

    def create_module(self, spec):
        m = FakeModule(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, module):
        fill = MODULES.get(module.__name__)
        if fill:
            for k, v in fill.items():
                setattr(module, k, v)


# ---- tensors


def raw(x):
    return x.a if isinstance(x, Tensor) else x


class Tensor:
    def __init__(self, a, back=None):
        self.a = a if isinstance(a, np.ndarray) else np.asarray(a)
        self.grad = None
        self.back = back
        self.factor = 1.0
        self.device = "cpu"
        self.requires_grad = False

    data = property(lambda self: self, lambda self, v: setattr(self, "a", np.array(raw(v))))
    shape = property(lambda self: self.a.shape)
    dtype = property(lambda self: self.a.dtype)
    ndim = property(lambda self: self.a.ndim)
    T = property(lambda self: Tensor(self.a.T))
    is_cuda = False

    def backward(self, *args, **kwargs):
        event("backward")
        self.back(self.factor)

    def item(self):
        return self.a.item()

    def size(self, dim=None):
        return self.a.shape if dim is None else self.a.shape[dim]

    def dim(self):
        return self.a.ndim

    def nelement(self):
        return self.a.size

    numel = nelement

    def same(self, *args, **kwargs):
        return self

    detach = to = contiguous = requires_grad_ = same

    def cuda(self, *args, **kwargs):
        t = Tensor(self.a, self.back)
        t.device = "cuda"
        return t

    def cpu(self):
        t = Tensor(self.a, self.back)
        return t

    def clone(self, *args):
        return Tensor(self.a.copy())

    def numpy(self):
        return self.a

    def tolist(self):
        return self.a.tolist()

    def type(self, t=None):
        return self if t is None else Tensor(self.a.astype(t))

    def float(self):
        return Tensor(self.a.astype(np.float32))

    def double(self):
        return Tensor(self.a.astype(np.float64))

    def long(self):
        return Tensor(self.a.astype(np.int64))

    def squeeze(self, dim=None):
        if dim is not None and self.a.shape[dim] != 1:
            return self
        return Tensor(self.a.squeeze(dim))

    def unsqueeze(self, dim):
        return Tensor(np.expand_dims(self.a, dim))

    def reshape(self, *s):
        return Tensor(self.a.reshape(*s))

    view = reshape

    def mean(self, *a, **k):
        return Tensor(self.a.mean(*a, **k))

    def sum(self, *a, **k):
        return Tensor(self.a.sum(*a, **k))

    def argmax(self, dim=None):
        return Tensor(self.a.argmax(dim))

    def copy_(self, other, *args):
        self.a[...] = raw(other)
        return self

    def add_(self, other, alpha=1):
        self.a += alpha * raw(other)
        return self

    def mul_(self, other):
        self.a *= raw(other)
        return self

    def div_(self, other):
        self.a /= raw(other)
        return self

    def zero_(self):
        self.a[...] = 0
        return self

    def __len__(self):
        return len(self.a)

    def __getitem__(self, i):
        return Tensor(self.a[raw(i)])

    def __setitem__(self, i, v):
        self.a[raw(i)] = raw(v)

    def __iter__(self):
        return (Tensor(x) for x in self.a)

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)

    def __format__(self, spec):
        return format(self.a.item(), spec) if self.a.size == 1 else str(self.a)

    def __float__(self):
        return float(self.a)

    def __int__(self):
        return int(self.a)

    def __bool__(self):
        return bool(self.a)

    def __index__(self):
        return int(self.a)

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "tensor(%s)" % self.a


def _operators():
    import operator

    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "eq", "ne", "lt", "le", "gt", "ge"):
        f = getattr(operator, n)
        setattr(Tensor, "__%s__" % n, lambda self, o, f=f: Tensor(f(self.a, raw(o))))
        if n not in ("eq", "ne", "lt", "le", "gt", "ge"):
            setattr(Tensor, "__r%s__" % n, lambda self, o, f=f: Tensor(f(raw(o), self.a)))
    Tensor.__neg__ = lambda self: Tensor(-self.a)


_operators()


def tensor(x, dtype=None, device=None, requires_grad=False):
    return Tensor(np.array(raw(x), dtype=dtype))


class NoGrad:
    depth = threading.local()

    def __enter__(self):
        NoGrad.depth.n = getattr(NoGrad.depth, "n", 0) + 1

    def __exit__(self, *a):
        NoGrad.depth.n -= 1

    def __call__(self, fn):
        def f(*a, **k):
            with self:
                return fn(*a, **k)

        return f


def grad_enabled():
    return getattr(NoGrad.depth, "n", 0) == 0


def save(obj, f, **kwargs):
    """Written in pieces, so that an interruption leaves a part."""
    data = pickle.dumps(obj)
    event("save begins")
    if hasattr(f, "write"):
        out, close = f, False
    else:
        out, close = open(f, "wb", buffering=0), True
    try:
        n = max(1, len(data) // 3)
        for i in range(0, len(data), n):
            out.write(data[i : i + n])
            if hasattr(out, "flush"):
                out.flush()
            event("save writes")
    finally:
        if close:
            out.close()
    event("save ends")


def load(f, map_location=None, **kwargs):
    event("load")
    if hasattr(f, "read"):
        data = f.read()
    else:
        with open(f, "rb") as h:
            data = h.read()
    try:
        return pickle.loads(data)
    except Exception as e:
        raise RuntimeError("not a complete file: %s (%d bytes): %s" % (f, len(data), e)) from None


# ---- modules and optimizers


class Parameter(Tensor):
    def __init__(self, data, requires_grad=True):
        super().__init__(np.array(raw(data)))
        self.requires_grad = requires_grad


class Module:
    def __init__(self, *args, **kwargs):
        self.training = True

    def named_parameters(self, prefix="", recurse=True):
        for k, v in vars(self).items():
            if isinstance(v, Parameter):
                yield prefix + k, v
            elif isinstance(v, Module):
                yield from v.named_parameters(prefix + k + ".")

    def parameters(self, recurse=True):
        return (p for _, p in self.named_parameters())

    def modules(self):
        yield self
        for v in vars(self).values():
            if isinstance(v, Module):
                yield from v.modules()

    def state_dict(self, *args, **kwargs):
        return {k: Tensor(p.a) for k, p in self.named_parameters()}

    def load_state_dict(self, state, strict=True):
        event("load state")
        mine = dict(self.named_parameters())
        if strict and set(mine) != set(state):
            raise RuntimeError("keys differ: %s %s" % (sorted(mine), sorted(state)))
        for k, v in state.items():
            if k in mine:
                mine[k].a = np.array(raw(v))

    def train(self, mode=True):
        for m in self.modules():
            m.training = mode
        return self

    def eval(self):
        return self.train(False)

    def to(self, *args, **kwargs):
        return self

    cuda = cpu = float = to

    def zero_grad(self, set_to_none=True):
        for p in self.parameters():
            p.grad = None

    def __call__(self, *args, **kwargs):
        return self.forward(*args, **kwargs)


class Loss(Module):
    pass


def clip_grad_norm_(parameters, max_norm, norm_type=2.0, **kwargs):
    grads = [p.grad for p in parameters if p.grad is not None]
    total = float(np.sqrt(sum(float((raw(g) ** 2).sum()) for g in grads)))
    scale = float(max_norm) / (total + 1e-6)
    if scale < 1:
        for g in grads:
            g.a = g.a * scale
    return Tensor(total)


def parameters_to_vector(parameters):
    return Tensor(np.concatenate([p.a.reshape(-1) for p in parameters]))


def vector_to_parameters(vec, parameters):
    pos = 0
    for p in parameters:
        n = p.a.size
        p.a = np.array(raw(vec)[pos : pos + n]).reshape(p.a.shape)
        pos += n


class Optimizer:
    def __init__(self, params, defaults=None, lr=0.01, **kwargs):
        params = list(params)
        self.defaults = dict(defaults or {"lr": lr})
        groups = params if params and isinstance(params[0], dict) else [{"params": params}]
        self.param_groups = [{**self.defaults, **g} for g in groups]
        self.state = {}

    def zero_grad(self, set_to_none=True):
        for g in self.param_groups:
            for p in g["params"]:
                p.grad = None

    def state_dict(self):
        return {"state": self.state, "param_groups": [{k: v for k, v in g.items() if k != "params"} for g in self.param_groups]}

    def load_state_dict(self, s):
        self.state = s["state"]
        for g, t in zip(self.param_groups, s["param_groups"]):
            g.update(t)

    def step(self, closure=None):
        event("optimizer")
        for g in self.param_groups:
            for p in g["params"]:
                if p.grad is not None:
                    self.update(p, raw(p.grad), g["lr"])

    def update(self, p, grad, lr):
        p.a = p.a - lr * grad


class LambdaLR:
    def __init__(self, optimizer, lr_lambda, last_epoch=-1, verbose=False):
        self.optimizer, self.fn, self.last_epoch = optimizer, lr_lambda, last_epoch
        for g in optimizer.param_groups:
            if last_epoch == -1:
                g.setdefault("initial_lr", g["lr"])
            elif "initial_lr" not in g:
                raise KeyError("param 'initial_lr' is not specified in param_groups when resuming an optimizer")
        self.base = [g["initial_lr"] for g in optimizer.param_groups]
        self.step()

    def step(self, epoch=None):
        self.last_epoch += 1
        self._last_lr = []
        for g, b in zip(self.optimizer.param_groups, self.base):
            g["lr"] = b * self.fn(self.last_epoch)
            self._last_lr.append(g["lr"])

    def get_last_lr(self):
        return self._last_lr

    def state_dict(self):
        return {"last_epoch": self.last_epoch, "_last_lr": self._last_lr}

    def load_state_dict(self, s):
        self.last_epoch, self._last_lr = s["last_epoch"], s["_last_lr"]


class SummaryWriter:
    def __init__(self, log_dir=None, *args, **kwargs):
        self.log_dir = log_dir

    def add_scalar(self, tag, value, global_step=None, *args, **kwargs):
        if SCALAR[0] is not None:
            SCALAR[0](self.log_dir, tag, float(value), global_step)

    def ignore(self, *args, **kwargs):
        pass

    add_scalars = add_text = add_histogram = flush = close = ignore


# ---- data


class Dataset:
    def __getitem__(self, i):
        raise NotImplementedError


class IterableDataset(Dataset):
    def __iter__(self):
        raise NotImplementedError


class WorkerInfo:
    def __init__(self, id, num_workers, dataset):
        self.id, self.num_workers, self.dataset, self.seed = id, num_workers, dataset, id


WORKER = threading.local()


def get_worker_info():
    return getattr(WORKER, "info", None)


def collate(x):
    """What the default function makes of a batch with one item."""
    if isinstance(x, dict):
        return {k: collate(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return [collate(v) for v in x]
    return Tensor(np.asarray(raw(x))[None, ...])


class DataLoader:
    """Items of an iterable dataset one by one; workers have copies of the dataset and take turns."""

    def __init__(self, dataset, batch_size=1, shuffle=False, sampler=None, num_workers=0, prefetch_factor=None, **kwargs):
        self.dataset, self.num_workers = dataset, num_workers

    def turn(self, info, fn):
        old = get_worker_info()
        WORKER.info = info
        try:
            return fn()
        finally:
            WORKER.info = old

    def __iter__(self):
        if self.num_workers == 0:
            for x in self.dataset:
                yield collate(x)
            return
        infos, its = [], []
        for w in range(self.num_workers):
            d = copy.copy(self.dataset)
            d.__dict__ = {k: dict(v) if isinstance(v, dict) else v for k, v in d.__dict__.items()}
            infos.append(WorkerInfo(w, self.num_workers, d))
            its.append(self.turn(infos[-1], lambda: iter(d)))
        live = list(range(self.num_workers))
        while live:
            for w in list(live):
                try:
                    x = self.turn(infos[w], lambda: next(its[w]))
                except StopIteration:
                    live.remove(w)
                    continue
                yield collate(x)

    def __len__(self):
        return len(self.dataset)


# ---- process groups: the processes are threads


class OutOfStep(Exception):
    """A rank waits for partners that have left or do something else."""


class World:
    def __init__(self, size):
        self.size = size
        self.cond = threading.Condition()
        self.turn = 0
        self.slots = {}
        self.done = {}
        self.left = 0

    def leave(self):
        with self.cond:
            self.left += 1
            self.cond.notify_all()

    def exchange(self, rank, what, value):
        """Values of all ranks in the order of ranks."""
        with self.cond:
            turn = self.turn
            self.slots[rank] = (what, value)
            if len(self.slots) == self.size:
                self.done[turn] = self.slots
                self.done.pop(turn - 2, None)
                self.slots = {}
                self.turn += 1
                self.cond.notify_all()
            while self.turn == turn:
                if self.left:
                    raise OutOfStep("rank %d waits in %s, others have ended" % (rank, what))
                self.cond.wait()
            got = self.done[turn]
        if len({w for w, _ in got.values()}) > 1:
            raise OutOfStep("ranks meet in different operations: %s" % {k: w for k, (w, _) in got.items()})
        return [got[k][1] for k in range(self.size)]


ME = threading.local()


def join_world(world, rank):
    ME.world, ME.rank = world, rank


def everyone(value, what):
    return ME.world.exchange(ME.rank, what, value)


def broadcast(t, src=0, *args, **kwargs):
    t.a = np.array(everyone(np.array(t.a), "broadcast")[src])


class ReduceOp:
    SUM = "sum"
    AVG = "avg"
    MAX = "max"


def all_reduce(t, op="sum", *args, **kwargs):
    parts = everyone(np.array(t.a), "reduce")
    total = parts[0]
    for p in parts[1:]:
        total = np.maximum(total, p) if op == "max" else total + p
    t.a = np.asarray(total / len(parts) if op == "avg" else total)


def average_grads(parameters):
    for p in parameters:
        parts = everyone(None if p.grad is None else np.array(raw(p.grad)), "gradients")
        total = parts[0]
        for x in parts[1:]:
            total = total + x
        p.grad = Tensor(total / len(parts))


class DistributedDataParallel(Module):
    def __init__(self, module, *args, **kwargs):
        super().__init__()
        self.module = module

    def forward(self, *args, **kwargs):
        out = self.module(*args, **kwargs)
        loss = out[0] if isinstance(out, tuple) else out
        back = loss.back

        def averaged(factor):
            back(factor)
            average_grads(self.module.parameters())

        if back is not None and grad_enabled():
            loss.back = averaged
        return out


class GradScaler:
    """Scales losses up and gradients down again."""

    FACTOR = 1024.0

    def __init__(self, *args, **kwargs):
        self.unscaled = False

    def scale(self, loss):
        t = Tensor(loss.a * self.FACTOR, loss.back)
        t.factor = loss.factor * self.FACTOR
        return t

    def unscale_(self, optimizer):
        if self.unscaled:
            raise RuntimeError("unscale_() has already been called on this optimizer since the last update().")
        self.unscaled = True
        for g in optimizer.param_groups:
            for p in g["params"]:
                if p.grad is not None:
                    p.grad.a = p.grad.a / self.FACTOR

    def step(self, optimizer, *args, **kwargs):
        if not self.unscaled:
            self.unscale_(optimizer)
        return optimizer.step()

    def update(self, *args):
        self.unscaled = False


class scale_loss:
    """The loss scaled up; gradients are scaled down at the end of the block."""

    FACTOR = 256.0

    def __init__(self, loss, optimizer, *args, **kwargs):
        self.loss, self.optimizer = loss, optimizer

    def __enter__(self):
        t = Tensor(self.loss.a * self.FACTOR, self.loss.back)
        t.factor = self.loss.factor * self.FACTOR
        return t

    def __exit__(self, kind, *args):
        if kind is None:
            for p in master_params(self.optimizer):
                if p.grad is not None:
                    p.grad.a = p.grad.a / self.FACTOR


def master_params(optimizer):
    for g in optimizer.param_groups:
        yield from g["params"]


def apex_initialize(models, optimizers=None, opt_level="O1", **kwargs):
    if opt_level not in ("O0", "O1", "O2", "O3"):
        raise RuntimeError("Unexpected optimization level %s" % opt_level)
    return models if optimizers is None else (models, optimizers)


class autocast:
    def __init__(self, *args, **kwargs):
        pass

    def __enter__(self):
        AUTOCAST.n = getattr(AUTOCAST, "n", 0) + 1

    def __exit__(self, *args):
        AUTOCAST.n -= 1


AUTOCAST = threading.local()


class DistributedOptimizer:
    """Averages gradients before a step, or when told to."""

    def __init__(self, optimizer, named_parameters=None, compression=None, op=None, **kwargs):
        self.__dict__["inner"] = optimizer
        self.__dict__["skip"] = False

    def __getattr__(self, name):
        return getattr(self.__dict__["inner"], name)

    def synchronize(self):
        for g in self.inner.param_groups:
            average_grads(g["params"])

    @contextlib.contextmanager
    def skip_synchronize(self):
        self.__dict__["skip"] = True
        yield
        self.__dict__["skip"] = False

    def step(self, closure=None):
        if not self.skip:
            self.synchronize()
        self.inner.step()


def hvd_allreduce(t, name=None, op=None, **kwargs):
    parts = everyone(np.array(raw(t)), "reduce")
    total = parts[0]
    for p in parts[1:]:
        total = total + p
    return Tensor(np.asarray(total / len(parts)))


def broadcast_parameters(params, root_rank=0):
    items = params.items() if isinstance(params, dict) else params
    for _, p in items:
        p.a[...] = everyone(np.array(p.a), "broadcast parameters")[root_rank]


def broadcast_optimizer_state(optimizer, root_rank=0):
    everyone(None, "broadcast optimizer")


class Compression:
    none = "none"
    fp16 = "fp16"


def rank():
    return ME.rank


def size():
    return ME.world.size


def nothing(*args, **kwargs):
    return None


def zero(*args, **kwargs):
    return 0


MODULES = {
    "torch": dict(
        Tensor=Tensor, tensor=tensor, no_grad=NoGrad, save=save, load=load, manual_seed=nothing, as_tensor=tensor, from_numpy=tensor,
        cat=lambda ts, dim=0: Tensor(np.concatenate([np.atleast_1d(raw(t)) for t in ts], dim)),
        stack=lambda ts, dim=0: Tensor(np.stack([raw(t) for t in ts], dim)),
        unsqueeze=lambda t, dim: Tensor(np.expand_dims(raw(t), dim)),
        squeeze=lambda t, dim=None: Tensor(np.squeeze(raw(t), dim)),
        zeros=lambda *s, **k: Tensor(np.zeros(s)),
        ones=lambda *s, **k: Tensor(np.ones(s)),
        mean=lambda t, *a, **k: Tensor(np.mean(raw(t), *a)),
        sum=lambda t, *a, **k: Tensor(np.sum(raw(t), *a)),
        reciprocal=lambda t: Tensor(1 / raw(t)),
        matmul=lambda a, b: Tensor(np.matmul(raw(a), raw(b))),
        transpose=lambda t, a, b: Tensor(np.swapaxes(raw(t), a, b)),
        topk=lambda t, k, dim=-1: (lambda o: (Tensor(np.take_along_axis(raw(t), o, -1)), Tensor(o)))(np.argsort(-raw(t), axis=-1, kind="stable")[..., :k]),
        is_tensor=lambda t: isinstance(t, Tensor), is_grad_enabled=grad_enabled, inference_mode=NoGrad,
        float32=np.float32, float64=np.float64, int64=np.int64, int32=np.int32, float=np.float32, long=np.int64, uint8=np.uint8, float16=np.float16, bool=np.bool_, int8=np.int8,
        __version__="1.13.0",
    ),
    "torch.nn": dict(Module=Module, Parameter=Parameter, CrossEntropyLoss=Loss),
    "torch.nn.parameter": dict(Parameter=Parameter),
    "torch.nn.utils": dict(clip_grad_norm_=clip_grad_norm_, parameters_to_vector=parameters_to_vector, vector_to_parameters=vector_to_parameters),
    "torch.nn.parallel": dict(DistributedDataParallel=DistributedDataParallel),
    "torch.optim": dict(Optimizer=Optimizer),
    "torch.optim.lr_scheduler": dict(LambdaLR=LambdaLR),
    "torch.autograd": dict(Variable=lambda x, **k: x),
    "torch.utils.tensorboard": dict(SummaryWriter=SummaryWriter),
    "torch.utils.data": dict(IterableDataset=IterableDataset, Dataset=Dataset, DataLoader=DataLoader, get_worker_info=get_worker_info),
    "torch.cuda": dict(is_available=lambda: False, manual_seed_all=nothing, set_device=nothing, device_count=zero, memory_allocated=zero, max_memory_allocated=zero, memory_reserved=zero, max_memory_reserved=zero),
    "torch.cuda.amp": dict(GradScaler=GradScaler, autocast=autocast),
    "apex.amp": dict(initialize=apex_initialize, scale_loss=scale_loss, master_params=master_params),
    "torch.distributed": dict(
        init_process_group=nothing, destroy_process_group=nothing, get_rank=rank, get_world_size=size, broadcast=broadcast, all_reduce=all_reduce, ReduceOp=ReduceOp,
        barrier=lambda *a, **k: everyone(None, "barrier"), is_initialized=lambda: True, is_available=lambda: True,
    ),
    "horovod.torch": dict(
        init=nothing, rank=rank, local_rank=rank, size=size, allreduce=hvd_allreduce, broadcast_parameters=broadcast_parameters, broadcast_optimizer_state=broadcast_optimizer_state,
        Compression=Compression, DistributedOptimizer=DistributedOptimizer, join=lambda *a: everyone(None, "join"), Average="average",
    ),
}


def install():
    if any(isinstance(f, Finder) for f in sys.meta_path):
        return
    sys.meta_path.insert(0, Finder())
    import importlib

    for name in ["torch", "torch.nn", "torch.nn.functional", "torch.nn.utils", "torch.nn.parallel", "torch.optim", "torch.optim.lr_scheduler", "torch.utils", "torch.utils.data", "torch.utils.tensorboard", "torch.cuda", "torch.cuda.amp", "torch.distributed", "torch.autograd"]:
        importlib.import_module(name)
    importlib.import_module("apex.amp")
    # Pieces used as decorators or bases while modules are loaded.
    sys.modules["torch"].jit = FakeModule("torch.jit")
    sys.modules["torch"].jit.script = lambda f: f
    sys.modules["torch.nn"].init = FakeModule("torch.nn.init")
    for name in ("Linear", "Embedding", "Dropout", "LayerNorm", "ModuleList", "Sequential", "Conv1d", "Conv2d", "LSTM", "Tanh", "ReLU", "Sigmoid", "Softmax", "LeakyReLU", "ELU", "BCEWithLogitsLoss"):
        setattr(sys.modules["torch.nn"], name, type(name, (Module,), {}))
