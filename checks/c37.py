"""Learning rates of all schedules at every step, also of training that was stopped and started again."""
import json
import math

LEVEL = "exploration"
RULE = "one case is one schedule with its numbers of steps, factors and restarts; it is nontrivial when its rates change, and distinct by schedule and numbers"
ASSUMPTIONS = [
    "torch is replaced by a stand-in with the same interface; the rate of a step is what the optimizer holds when the step is made",
    "rates are compared with a relative tolerance of 1e-9",
]
KINDS = ["constant", "constant with warmup", "linear", "cosine", "cosine with restarts", "polynomial"]
NEED = dict({k: 40 for k in KINDS}, rates=20000, restarts=200, **{"groups of parameters": 60, "defaults": 60, "no warmup": 30, "warmup only": 20, "beyond the end": 100})


def plan(tier, seed):
    big = tier == "thorough"
    return [{"name": "s%d" % i, "cases": 3000 if big else 300} for i in range(6)]


def curve(kind, cfg, base, step):
    """The rate at a step, from the description of the schedule."""
    warm, total = cfg["warmup"], cfg["total"]
    if kind == "constant":
        return base
    if step < warm:
        return base * step / warm
    if kind == "constant with warmup":
        return base
    # The share of the time after the warmup that has passed.
    done = (step - warm) / max(1, total - warm)
    if kind == "linear":
        return base * max(0.0, (total - step) / max(1, total - warm))
    if kind == "cosine":
        return base * max(0.0, (1 + math.cos(2 * math.pi * cfg["cycles"] * done)) / 2)
    if kind == "cosine with restarts":
        if done >= 1:
            return 0.0
        wave = cfg["cycles"] * done
        return base * (1 + math.cos(math.pi * (wave - math.floor(wave)))) / 2
    first, end = cfg["lr"], cfg["end"]
    if step > total:
        return base / first * end
    return base / first * (end + (first - end) * (1 - done) ** cfg["power"])


def jumps(kind, cfg, base, step):
    """Rates on the other side of a jump, for steps at which rounding or taste decides about the side."""
    warm, total = cfg["warmup"], cfg["total"]
    if kind == "polynomial" and step == total == warm:
        return [base / cfg["lr"] * cfg["end"]]
    wave = cfg["cycles"] * (step - warm) / max(1, total - warm)
    if kind == "cosine with restarts" and warm < step < total and abs(wave - round(wave)) < 1e-9:
        return [0.0, base]
    return []


def build(mod, r, kind, cfg, optimizer, last):
    """The schedule, with arguments that have their documented values left out part of the time."""
    kw = {}
    if last != -1 or r.random() < 0.3:
        kw["last_epoch"] = last
    if kind == "constant":
        return mod.get_constant_schedule(optimizer, **kw)
    kw["num_warmup_steps"] = cfg["warmup"]
    if kind == "constant with warmup":
        return mod.get_constant_schedule_with_warmup(optimizer, **kw)
    kw["num_training_steps"] = cfg["total"]
    if kind == "linear":
        return mod.get_linear_schedule_with_warmup(optimizer, **kw)
    if kind.startswith("cosine"):
        if cfg["cycles"] != (0.5 if kind == "cosine" else 1) or r.random() < 0.3:
            kw["num_cycles"] = cfg["cycles"]
        else:
            cfg["default"] = True
        return (mod.get_cosine_schedule_with_warmup if kind == "cosine" else mod.get_cosine_with_hard_restarts_schedule_with_warmup)(optimizer, **kw)
    for name, key, usual in (("lr_end", "end", 1e-7), ("power", "power", 1.0)):
        if cfg[key] != usual or r.random() < 0.3:
            kw[name] = cfg[key]
        else:
            cfg["default"] = True
    return mod.get_polynomial_decay_schedule_with_warmup(optimizer, **kw)


def run(job, ctx):
    import faketorch as ft

    ft.install()
    from deepgnn.pytorch.common import optimization

    r = ctx.rng(job["name"])
    for k in range(job["cases"]):
        with ctx.trial():
            one(ctx, r, ft, optimization, KINDS[k % len(KINDS)], k)


def one(ctx, r, ft, mod, kind, k):
    total = r.choice([1, 2, 3, 7, 10, 33, 100])
    cfg = {
        "kind": kind, "total": total, "warmup": r.choice([0, 0, 1, total // 4, total // 2, total - 1, total, r.randint(0, total)]), "lr": r.choice([0.5, 0.01, 3e-5, 1.0]),
        "cycles": r.choice([0.5, 0.5, 1, 2, 3]) if kind == "cosine" else r.choice([1, 1, 2, 3, 5]), "end": r.choice([1e-7, 1e-7, 0.0, 1e-6]), "power": r.choice([1.0, 1.0, 2.0, 0.5, 3.0]),
        "groups": r.choice([1, 1, 2, 3]),
    }
    ctx.at({"op": "schedule", "cfg": cfg})
    bases = [cfg["lr"]] + [cfg["lr"] * r.choice([0.5, 2.0, 1.0]) for _ in range(cfg["groups"] - 1)]

    def new():
        groups = [{"params": [ft.Parameter([1.0])], "lr": b} for b in bases]
        return ft.Optimizer(groups, lr=cfg["lr"])

    optimizer = new()
    schedule = build(mod, r, kind, cfg, optimizer, -1)
    seen = set()

    def look(step):
        for i, (g, b) in enumerate(zip(optimizer.param_groups, bases)):
            want, got = curve(kind, cfg, b, step), g["lr"]
            right = [want] + jumps(kind, cfg, b, step)
            if isinstance(got, complex) or not any(abs(got - x) <= 1e-9 * max(abs(x), b * 1e-3) for x in right):
                ctx.fail("%s: wrong rate" % kind, "step %d, parameters %d: %r instead of %r" % (step, i, got, want), cfg)
            seen.add(round(got, 12))
            ctx.count("rates")
        last = schedule.get_last_lr()
        if list(last) != [g["lr"] for g in optimizer.param_groups]:
            ctx.fail("%s: reported rate differs from the one in use" % kind, "%s" % last, cfg)

    look(0)
    step, stops = 0, 0
    length = total + r.choice([0, 1, 5])
    while step < length:
        what = r.random()
        if what < 0.1 and stops < 4:
            stops += 1
            kept = json.loads(json.dumps([optimizer.state_dict(), schedule.state_dict()]))
            optimizer = new()
            if what < 0.05:
                # Everything is built as in the beginning, then stored states are loaded.
                schedule = build(mod, r, kind, cfg, optimizer, -1)
                optimizer.load_state_dict(kept[0])
                schedule.load_state_dict(kept[1])
            else:
                # The schedule goes on with the step after the last one.
                optimizer.load_state_dict(kept[0])
                schedule = build(mod, r, kind, cfg, optimizer, step)
                step += 1
            ctx.count("restarts")
        else:
            schedule.step()
            step += 1
        look(step)
    ctx.count(kind)
    if cfg["groups"] > 1:
        ctx.count("groups of parameters")
    if cfg.pop("default", False):
        ctx.count("defaults")
    if cfg["warmup"] == 0:
        ctx.count("no warmup")
    if cfg["warmup"] == total:
        ctx.count("warmup only")
    if length > total:
        ctx.count("beyond the end")
    ctx.case(json.dumps([cfg, bases]), len(seen) > 1, dict(cfg, stops=stops) if k < 12 else None)
