"""P28: the experiment API trains and evaluates like the loop it stands for.

Monitor: the data set of the experiment records which elements were handed out in which order, hooks
on every signal record the events. The recorded history is replayed with plain calls on an
independent copy of the model (same optimizer, same batches; same programming and drift times) and
must give the same weights, predictions and metrics.
"""
import contextlib
import copy
import http.server
import io
import json
import math
import os
import re
import shutil
import tempfile
import threading

import numpy as np
import torch
from torch import nn

import gen
import snap
from gen import coin
from vh import Scenario
from aihwkit.experiments import BasicTraining
from aihwkit.experiments.experiments.base import Signals
from aihwkit.experiments.experiments.inferencing import BasicInferencing
from aihwkit.experiments.runners.i_local import InferenceLocalRunner
from aihwkit.experiments.runners.local import LocalRunner
from aihwkit.inference import PCMLikeNoiseModel, GlobalDriftCompensation
from aihwkit.inference.noise.pcm import CustomDriftPCMLikeNoiseModel
from aihwkit.nn import AnalogConv2d, AnalogLinear, AnalogSequential, AnalogLinearMapped
from aihwkit.optim import AnalogSGD
from aihwkit.simulator.configs import (
    FloatingPointRPUConfig, InferenceRPUConfig, SingleRPUConfig, TorchInferenceRPUConfig)
from aihwkit.simulator.configs.devices import IdealDevice
from aihwkit.simulator.parameters import IOParameters

PID = "P28"
RULE = ("one state per (runner, model kind, loss, batches and remainder, epochs or repeats, subset, "
        "weight template)")
ASSUMPTIONS = ["noise-free training configurations (the replay must be exact)", "synthetic data sets",
               "the wall-clock fields of the results are only checked to be non-negative"]
REQUIRES = ("trained", "epoch", "inferred", "repeat", "template", "hooks", "rerun", "partial", "url")


def make_dataset(rng, n_train, n_test, shape, n_classes, log):
    """A data set class with the constructor of the torchvision data sets."""
    g = torch.Generator().manual_seed(rng.randrange(1 << 30))
    data = {True: (torch.rand(n_train, *shape, generator=g) * 2 - 1,
                   torch.randint(0, n_classes, (n_train,), generator=g)),
            False: (torch.rand(n_test, *shape, generator=g) * 2 - 1,
                    torch.randint(0, n_classes, (n_test,), generator=g))}

    class Synthetic(torch.utils.data.Dataset):
        def __init__(self, root, train=True, transform=None, download=False):
            self.train = train
            self.x, self.y = data[train]
            self.transform = transform

        def __len__(self):
            return len(self.y)

        def __getitem__(self, i):
            if i >= len(self.y):
                raise IndexError
            log.append((self.train, int(i)))
            return self.x[i], int(self.y[i])

    return Synthetic, data


def rand_model(rng, make, shape, n_classes):
    """A classifier of analog (and some digital) layers."""
    layers = []
    n_in = math.prod(shape)
    if len(shape) == 3 and coin(rng, 0.7):
        c = rng.randint(1, 3)
        layers += [AnalogConv2d(shape[0], c, 3, padding=1, bias=coin(rng), rpu_config=make()), nn.ReLU()]
        n_in = c * shape[1] * shape[2]
    layers.append(nn.Flatten())
    for _ in range(rng.randint(0, 1)):
        k = rng.randint(2, 6)
        cls = rng.choice([AnalogLinear, AnalogLinear, AnalogLinearMapped])
        layers += [cls(n_in, k, bias=coin(rng), rpu_config=make()) if coin(rng, 0.8) else nn.Linear(n_in, k),
                   rng.choice([nn.Tanh, nn.Sigmoid])()]
        n_in = k
    layers.append(AnalogLinear(n_in, n_classes, bias=coin(rng), rpu_config=make()))
    return layers


def quietly(fn, *args, **kw):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        res = fn(*args, **kw)
    return res, out.getvalue()


def record(exp):
    """Add a recording hook to every signal."""
    events = []
    for sig in Signals:
        exp.add_hook(sig, lambda *a, _s=sig, **k: events.append((_s, a)))
    return events


def train_config(rng):
    kind = rng.choice(["fp", "ideal", "inference", "torch"])

    def make():
        if kind == "fp":
            return FloatingPointRPUConfig()
        if kind == "ideal":
            cfg = SingleRPUConfig(device=IdealDevice())
        else:
            cfg = InferenceRPUConfig() if kind == "inference" else TorchInferenceRPUConfig()
        cfg.forward = IOParameters(is_perfect=True)
        if kind != "torch":
            cfg.backward = IOParameters(is_perfect=True)
        cfg.mapping.weight_scaling_omega = 0.0
        return cfg
    return kind, make


LOSSES = {"NLLLoss": nn.NLLLoss, "CrossEntropyLoss": nn.CrossEntropyLoss}


class ModeScale(nn.Module):
    """A layer which tells whether it runs for training."""

    def forward(self, x):
        return x * 1.5 if self.training else x


def s_train(rng, mon):
    """LocalRunner / BasicTraining against the plain loop over the recorded batches."""
    kind, make = train_config(rng)
    shape = rng.choice([(4,), (1, 4, 4), (2, 3, 4)])
    n_classes = rng.randint(2, 4)
    n_train, n_test = rng.randint(3, 14), rng.randint(2, 9)
    log = []
    dataset, data = make_dataset(rng, n_train, n_test, shape, n_classes, log)
    layers = rand_model(rng, make, shape, n_classes)
    loss_name = rng.choice(sorted(LOSSES))
    if loss_name == "NLLLoss":
        layers.append(nn.LogSoftmax(dim=1))
    if coin(rng, 0.3):
        layers.insert(1, nn.Dropout(0.0))
    if coin(rng, 0.6):
        layers.insert(rng.randint(1, len(layers)), ModeScale())
    model = AnalogSequential(*layers)
    epochs, bs, lr = rng.randint(1, 3), rng.randint(1, 6), rng.choice([0.05, 0.2])
    exp = BasicTraining(dataset=dataset, model=model, batch_size=bs, loss_function=LOSSES[loss_name],
                        epochs=epochs, learning_rate=lr)
    twin = copy.deepcopy(model)
    twin_opt = AnalogSGD(twin.parameters(), lr=lr)
    twin_opt.regroup_param_groups(twin)
    limit = rng.choice([0, 0, rng.randint(1, min(n_train, n_test))])
    n_tr, n_te = (limit, limit) if limit else (n_train, n_test)
    mon.ctx = f"{kind} {loss_name} n={n_train}/{n_test} limit={limit} bs={bs} epochs={epochs} {model}"
    for run in range(rng.choice([1, 1, 2])):
        del log[:]
        how = rng.choice(["runner", "runner", "direct"])
        stdout = coin(rng, 0.4)
        if coin(rng, 0.5):
            exp.model.eval()          # the state of the model before must not matter
        if how == "runner":
            results, text = quietly(LocalRunner().run, exp, max_elements_train=limit, stdout=stdout)
            events = None
            mon.check(bool(text) == stdout, "train:stdout", lambda: f"stdout={stdout}: {text[:80]!r}")
        else:
            exp.clear_hooks()
            events = record(exp)
            results = exp.run(limit)
            exp.clear_hooks()
        mon.check(exp.model is model, "train:model", "the experiment has another model now")
        mon.check([r["epoch"] for r in results] == list(range(epochs)), "train:epochs", lambda: str(results))
        # who was visited: every element once an epoch, training before validation
        per = n_tr + n_te
        mon.check(len(log) == per * epochs, "train:visits", lambda: f"{len(log)} visits, expected {per * epochs}")
        if len(log) != per * epochs:
            return
        order = [(log[k * per:k * per + n_tr], log[k * per + n_tr:(k + 1) * per]) for k in range(epochs)]
        loss_fn = LOSSES[loss_name]()
        expected_events = []
        for ep, (tr, te) in enumerate(order):
            ok = sorted(tr) == [(True, i) for i in range(n_tr)] and sorted(te) == [(False, i) for i in range(n_te)]
            mon.check(ok, "train:permutation", lambda: f"epoch {ep}: {tr} {te}")
            if not ok:
                return
            expected_events += [(Signals.EPOCH_START, (ep,)), (Signals.TRAIN_EPOCH_START, (ep,))]
            twin.train()
            total, losses = 0, []
            for k in range(0, n_tr, bs):
                idx = [i for _, i in tr[k:k + bs]]
                x, y = data[True][0][idx], data[True][1][idx]
                twin_opt.zero_grad()
                loss = loss_fn(twin(x), y)
                loss.backward()
                twin_opt.step()
                losses.append(loss.item() * len(idx))
                expected_events.append((Signals.TRAIN_EPOCH_BATCH_END, (len(idx), losses[-1])))
            train_loss = sum(losses) / n_tr
            expected_events += [(Signals.TRAIN_EPOCH_END, ()), (Signals.VALIDATION_EPOCH_START, (ep,))]
            twin.eval()
            good, vl = 0, 0.0
            for k in range(0, n_te, bs):
                idx = [i for _, i in te[k:k + bs]]
                x, y = data[False][0][idx], data[False][1][idx]
                with torch.no_grad():
                    p = twin(x)
                    loss = loss_fn(p, y).item()
                c = int((p.argmax(1) == y).sum())
                good += c
                vl += loss * len(idx)
                expected_events.append((Signals.VALIDATION_EPOCH_BATCH_END, (len(idx), c, loss * len(idx))))
            expected_events += [(Signals.VALIDATION_EPOCH_END, ()), (Signals.EPOCH_END, ())]
            if how == "runner":
                r = results[ep]
                mon.check(set(r) == {"epoch", "time_epoch", "accuracy", "train_loss", "valid_loss"} and r["time_epoch"] >= 0,
                          "train:fields", lambda: str(r))
                for key, ref in (("accuracy", good / n_te), ("train_loss", train_loss), ("valid_loss", vl / n_te)):
                    mon.check(abs(r[key] - ref) <= 1e-4 * max(1, abs(ref)), f"train:{key}",
                              lambda: f"epoch {ep}: {r[key]} instead of {ref}")
                if stdout:
                    got = re.findall(r"Epoch: (\d+), loss: ([\d.]+)\nNumber of images: (\d+), accuracy: ([\d.]+)%, "
                                     r"validation loss: ([\d.]+)", text)
                    ref = (ep, train_loss, n_te, 100 * good / n_te, vl / n_te)
                    mon.check(len(got) == epochs and all(abs(float(u) - v) <= 1e-4 * max(1, abs(v))
                                                         for u, v in zip(got[ep], ref)),
                              "train:printed", lambda: f"{ref}: {text}")
            mon.obs("epoch")
        if events is not None:
            mon.check([e[0] for e in events] == [e[0] for e in expected_events], "train:events",
                      lambda: f"{[e[0].name for e in events]}")
            for (_, a), (s, b) in zip(events, expected_events):
                mon.check(len(a) == len(b) and all(abs(u - v) <= 1e-3 * max(1, abs(v)) for u, v in zip(a, b)),
                          f"train:event:{s.name}", lambda: f"{a} instead of {b}")
            mon.obs("hooks")
        for (name, la), (_, lb) in zip(exp.model.named_modules(), twin.named_modules()):
            if isinstance(la, (AnalogLinear, AnalogConv2d, AnalogLinearMapped)):
                for u, v in zip(la.get_weights(), lb.get_weights()):
                    if u is not None:
                        mon.close(u, v, f"train:weights:{kind}", atol=2e-5, rtol=1e-4, msg=name)
            elif type(la) is nn.Linear:
                mon.close(la.weight, lb.weight, "train:digital", atol=2e-5, rtol=1e-4)
        mon.obs("trained")
        if run:
            mon.obs("rerun")
        mon.state("train", kind, loss_name, n_tr % bs == 0, min(n_tr // bs, 3), epochs, bool(limit), how, run)
        twin_opt = AnalogSGD(twin.parameters(), lr=lr)     # each run has a new optimizer
        twin_opt.regroup_param_groups(twin)


def serve(path):
    """A server that gives this file for every path."""
    os.environ["NO_PROXY"] = os.environ["no_proxy"] = "127.0.0.1"

    class Handler(http.server.BaseHTTPRequestHandler):
        def do_GET(self):
            with open(path, "rb") as f:
                body = f.read()
            self.send_response(200)
            self.send_header("Content-Length", str(len(body)))
            self.end_headers()
            self.wfile.write(body)

        def log_message(self, *_):
            pass
    server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
    threading.Thread(target=server.serve_forever, kwargs={"poll_interval": 0.01}, daemon=True).start()
    return server, f"http://127.0.0.1:{server.server_address[1]}"


def infer_config(rng):
    torch_tile = coin(rng, 0.3)
    nu = rng.choice([0.0, 0.05, 0.3])
    comp = coin(rng)

    def make():
        cfg = TorchInferenceRPUConfig() if torch_tile else InferenceRPUConfig()
        cfg.forward = IOParameters(is_perfect=True)
        drift = {"g_lst": [0.0, 25.0], "nu_mean_lst": [nu, nu / 2], "nu_std_lst": [0.0, 0.0]}
        cfg.noise_model = CustomDriftPCMLikeNoiseModel(drift, prog_noise_scale=0.0, read_noise_scale=0.0)
        cfg.drift_compensation = GlobalDriftCompensation() if comp else None
        cfg.mapping.weight_scaling_omega = 0.0
        return cfg
    return ("torch" if torch_tile else "inference") + ("+comp" if comp else ""), make


def s_infer(rng, mon):
    """InferenceLocalRunner / BasicInferencing against programming, drift and evaluation by hand."""
    kind, make = infer_config(rng)
    shape = rng.choice([(4,), (1, 4, 4)])
    n_classes = rng.randint(2, 4)
    n_test = rng.randint(1, 11)
    log = []
    dataset, data = make_dataset(rng, 3, n_test, shape, n_classes, log)
    layers = rand_model(rng, make, shape, n_classes)
    loss_name = rng.choice(sorted(LOSSES))
    if loss_name == "NLLLoss":
        layers.append(nn.LogSoftmax(dim=1))
    if coin(rng, 0.6):
        layers.insert(rng.randint(1, len(layers)), ModeScale())
    model = AnalogSequential(*layers)
    for layer in model.analog_layers():
        w, b = layer.get_weights()
        layer.set_weights((torch.rand_like(w) * 2 - 1) * 0.9, None if b is None else torch.randn_like(b))
    template, tmp, server = "", None, None
    remap = coin(rng)
    source = model
    bs, repeats = rng.randint(1, 5), rng.randint(1, 3)
    t_end = rng.choice([1, 10, 3600, 86400, 31536000])
    limit = rng.choice([0, 0, rng.randint(1, n_test)])
    n_te = limit or n_test
    device = torch.device("cpu")
    try:
        if coin(rng, 0.5):
            # trained weights come from a file
            tmp = tempfile.mkdtemp(prefix="p28.")
            template = os.path.join(tmp, "weights.pth")
            source = copy.deepcopy(model)
            for layer in source.analog_layers():
                w, b = layer.get_weights()
                layer.set_weights((torch.rand_like(w) * 2 - 1) * rng.choice([0.2, 1.0]),
                                  None if b is None else torch.randn_like(b))
            for m in source.modules():
                if type(m) is nn.Linear:
                    nn.init.uniform_(m.weight)
            torch.save(source.state_dict(), template)
            if coin(rng, 0.25):
                # ... given by an url (of a server of our own)
                server, url = serve(template)
                name = f"p28_{os.getpid()}_{rng.randrange(1 << 40)}.pth"
                template, local = url + "/some/" + name, os.path.join("/tmp/weight_templates", name)
                mon.obs("url")
            mon.obs("template")
        exp = BasicInferencing(dataset=dataset, model=model, batch_size=bs, loss_function=LOSSES[loss_name],
                               weight_template_id=template, inference_repeats=repeats, inference_time=t_end,
                               remap_weights=remap)
        mon.ctx = f"{kind} {loss_name} n={n_test} limit={limit} bs={bs} repeats={repeats} t={t_end} template={bool(template)} remap={remap} {model}"
        before = snap.model_state(model)
        how = rng.choice(["runner", "runner", "direct", "parts"])
        stdout = coin(rng, 0.4)
        n_times = 10
        events = None
        if how == "runner":
            result, text = quietly(InferenceLocalRunner(device=rng.choice([device, None])).run, exp,
                                   max_elements=limit, stdout=stdout)
            mon.check(('"inference_runs"' in text) == stdout, "infer:stdout", lambda: text[:100])
            if stdout:
                lines = [json.loads(t) for t in text.splitlines() if t.startswith('{"inference_runs"')]
                mon.check([x["inference_runs"]["is_partial"] for x in lines] == [k + 1 < repeats for k in range(repeats)]
                          and [x["inference_runs"]["inference_repeat"] for x in lines] == list(range(1, repeats + 1)),
                          "infer:partial", lambda: str(lines)[:300])
                mon.obs("partial")
        else:
            events = record(exp)
            if how == "direct":
                quietly(exp.run, limit, device=device)
            else:
                n_times = rng.randint(3, 6)
                loader = exp.get_data_loader(dataset, bs, max_elements=limit)
                m = exp.get_model(template, device)
                mon.check(m is not model, "infer:copy", "get_model returns the model of the experiment itself")
                exp.inference(loader, m, LOSSES[loss_name](), repeats, t_end, device, n_times)
        dif = snap.diff(before, snap.model_state(model))
        mon.check(not dif, "infer:original", lambda: f"the given model was changed: {dif[:3]}")
        # by hand
        ref = copy.deepcopy(source if template else model)
        if template and remap:
            ref.remap_analog_weights()
        ref.eval()
        times = [0.0] + [10 ** (math.log10(t_end) * k / (n_times - 2)) for k in range(n_times - 1)]
        X, Y = data[False][0][:n_te], data[False][1][:n_te]
        crit = LOSSES[loss_name]()
        acc, loss = [], []
        margin = []
        ref.program_analog_weights()
        for t in times:
            ref.drift_analog_weights(t)
            with torch.no_grad():
                p = ref(X)
                loss.append(crit(p, Y).item())
                top = p.topk(2, dim=1).values
                margin.append((top[:, 0] - top[:, 1]).min().item())
                acc.append((p.argmax(1) == Y).float().mean().item() * 100)
        expect_log = [(False, i) for i in range(n_te)] * (n_times * repeats)
        mon.check(log == expect_log, "infer:visits", lambda: f"{len(log)} visits, expected {len(expect_log)}")
        if events is None:
            run = result["inference_runs"]
            mon.check(run["inference_repeat"] == repeats and run["is_partial"] is False and run["time_elapsed"] >= 0,
                      "infer:run_fields", lambda: str({k: run[k] for k in run if k != "inference_results"}))
            rows = [[tuple(r[k] for k in ("t_inference", "avg_accuracy", "std_accuracy", "avg_error", "avg_loss"))
                     for r in run["inference_results"]]]
            mon.check(len(rows[0]) == n_times, "infer:rows", lambda: str(len(rows[0])))
        else:
            sigs = [e[0] for e in events]
            mon.check(sigs == [Signals.INFERENCE_REPEAT_START, Signals.INFERENCE_REPEAT_END] * repeats, "infer:events",
                      lambda: str(sigs))
            ends = [a for s, a in events if s == Signals.INFERENCE_REPEAT_END]
            mon.check([a[0] for s, a in events if s == Signals.INFERENCE_REPEAT_START] == list(range(repeats)),
                      "infer:repeat_number")
            rows = [list(zip(*[np.asarray(v) for v in a[:5]])) for a in ends]
            mon.check(all(len(a) == 6 and a[5] == repeats for a in ends), "infer:repeats_given", lambda: str([a[5:] for a in ends]))
            mon.obs("hooks")
        for row in rows:
            for k, (t, a, s, e, lo) in enumerate(row):
                mon.check(abs(t - times[k]) <= 1e-6 * max(1, times[k]), "infer:times", lambda: f"{t} {times[k]}")
                mon.check(abs(lo - loss[k]) <= 2e-4 * max(1, abs(loss[k])), f"infer:loss:{kind}",
                          lambda: f"t={t}: {lo} instead of {loss[k]}")
                if margin[k] > 1e-3:
                    mon.check(abs(a - acc[k]) < 1e-3 and abs(e - (100 - acc[k])) < 1e-3 and abs(s) < 1e-3,
                              f"infer:accuracy:{kind}", lambda: f"t={t}: {a} +- {s}, {e} instead of {acc[k]}")
            mon.obs("repeat")
        if how != "parts":
            mon.check(exp.model is not model, "infer:updated", "the experiment keeps the original model")
            mon.close(exp.model.eval()(X).detach(), p, "infer:final_model", atol=1e-4, rtol=1e-3)
        mon.obs("inferred")
        mon.state("infer", kind, loss_name, n_te % bs == 0, repeats, bool(limit), bool(template), remap, how, t_end)
    finally:
        if tmp:
            shutil.rmtree(tmp)
        if server:
            mon.check(os.path.exists(local), "infer:downloaded", local)
            if os.path.exists(local):
                os.remove(local)
            server.shutdown()
            server.server_close()


def s_repeats(rng, mon):
    """Averages over the repetitions: real noise, the recorded evaluations give the statistics."""
    shape = (4,)
    n_classes, n_test, repeats = 3, rng.randint(4, 12), rng.randint(2, 4)
    log = []
    dataset, _ = make_dataset(rng, 3, n_test, shape, n_classes, log)

    def make():
        cfg = InferenceRPUConfig()
        cfg.noise_model = PCMLikeNoiseModel(prog_noise_scale=3.0, read_noise_scale=2.0)
        return cfg
    model = AnalogSequential(*rand_model(rng, make, shape, n_classes))
    seen = []

    class Watch(nn.CrossEntropyLoss):
        def forward(self, p, y):
            value = super().forward(p, y)
            seen.append((p.detach().clone(), y.clone(), value.item()))
            return value
    bs = rng.randint(1, 5)
    exp = BasicInferencing(dataset=dataset, model=model, batch_size=bs, loss_function=Watch,
                           inference_repeats=repeats, inference_time=1000)
    ends = []
    exp.add_hook(Signals.INFERENCE_REPEAT_END, lambda *a: ends.append([np.array(v) for v in a[:5]]))
    torch.manual_seed(rng.randrange(1 << 30))
    quietly(exp.run)
    n_b = -(-n_test // bs)
    mon.check(len(seen) == n_b * 10 * repeats, "repeats:batches", lambda: str(len(seen)))
    per = [seen[k:k + n_b] for k in range(0, len(seen), n_b)]
    acc = np.array([100.0 * sum(int((p.argmax(1) == y).sum()) for p, y, _ in b) / n_test for b in per]).reshape(repeats, 10)
    loss = np.array([sum(v * len(y) for _, y, v in b) / n_test for b in per]).reshape(repeats, 10)
    for r, (t, a, s, e, lo) in enumerate(ends):
        for key, x, y in (("avg_accuracy", a, acc[:r + 1].mean(0)), ("std_accuracy", s, acc[:r + 1].std(0)),
                          ("avg_error", e, 100 - acc[:r + 1].mean(0)), ("avg_loss", lo, loss[:r + 1].mean(0))):
            mon.check(x.shape == (10,) and np.allclose(x, y, atol=1e-3), f"repeats:{key}", lambda: f"{r}: {x} {y}")
    # new programming noise in every repetition
    if n_test * n_classes > 4:
        first = [b[0][0] for b in per[::10]]
        mon.check(all(not torch.equal(first[0], f) for f in first[1:]), "repeats:reprogrammed",
                  "repetitions have the same programming noise")
    mon.obs("repeat")
    mon.state("repeats", n_test % bs == 0, repeats, n_b > 1)


def s_hooks(rng, mon):
    """Hooks: registered per signal, called in order with the arguments, results merged, cleared."""
    exp = BasicTraining(dataset=object, model=nn.Linear(2, 2))
    other = BasicTraining(dataset=object, model=nn.Linear(2, 2))
    calls, table = [], {s: [] for s in Signals}
    for n in range(rng.randint(1, 8)):
        sig = rng.choice(list(Signals))
        ret = rng.choice([None, 3, {"k": n}, {"n%d" % n: n}, {}])
        exp.add_hook(sig, lambda *a, _n=n, _r=ret, **k: (calls.append((_n, a, k)), _r)[1])
        table[sig].append((n, ret))
        if coin(rng, 0.1):
            exp.clear_hooks()
            table = {s: [] for s in Signals}
    for sig in Signals:
        del calls[:]
        got = exp._call_hook(sig, 1, x=2)
        ref = {}
        for _, r in table[sig]:
            if isinstance(r, dict):
                ref.update(r)
        mon.check(got == ref, "hooks:result", lambda: f"{sig}: {got} {ref}")
        mon.check(calls == [(n, (1,), {"x": 2}) for n, _ in table[sig]], "hooks:calls", lambda: f"{sig}: {calls}")
        mon.check(other._call_hook(sig) == {}, "hooks:isolation")
    mon.obs("hooks")
    mon.state("hooks", sum(len(v) for v in table.values()))


SCENARIOS = [
    Scenario("train", s_train, quick=250, thorough=3000, min_evals=3000),
    Scenario("infer", s_infer, quick=250, thorough=3000, min_evals=3000),
    Scenario("repeats", s_repeats, quick=40, thorough=400, min_evals=300),
    Scenario("hooks", s_hooks, quick=60, thorough=500, min_evals=500),
]
