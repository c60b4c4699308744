"""P22: analog recurrent layers equal their digital recurrent networks.

Monitor: random stacks of analog cells with perfect passes run next to torch.nn.RNN / LSTM / GRU holding the
same weights: outputs, final states, input and state gradients, and the weights after optimizer steps.
"""
import copy
import warnings

import torch
from torch import nn

import gen
from vh import Scenario
from aihwkit.nn import (AnalogGRUCell, AnalogLSTMCell, AnalogLSTMCellCombinedWeight, AnalogRNN, AnalogVanillaRNNCell, AnalogLinear)
from aihwkit.optim import AnalogSGD
from aihwkit.nn.conversion import convert_to_digital

PID = "P22"
RULE = "one state per (cell, tile kind, layers, directions, bias, given states)"
ASSUMPTIONS = ["sequence-first layout as documented by the layer", "perfect passes compared in float32"]
REQUIRES = ("forward", "gradient", "trained", "chunked", "dropout", "init")
CELLS = {"rnn": (AnalogVanillaRNNCell, nn.RNN), "lstm": (AnalogLSTMCell, nn.LSTM),
         "gru": (AnalogGRUCell, nn.GRU), "combined": (AnalogLSTMCellCombinedWeight, nn.LSTM)}
KINDS = ["float", "ideal", "constant", "inference", "torch", "custom", "digital"]


def build(rng, kinds=KINDS, dropout=0.0):
    c = rng.choice(list(CELLS))
    kind = rng.choice(kinds)
    if kind == "digital" and c == "gru":
        kind = "float"
    cfg = None
    if kind != "digital":
        mp = gen.rand_mapping(rng)
        mp.learn_out_scaling = False
        cfg, kind = gen.perfect_config(rng, kind, mp)
    i, h = rng.randint(1, 5), rng.randint(1, 4)
    nl, bi, bias = rng.choice([1, 1, 2, 3]), gen.coin(rng, 0.35), gen.coin(rng)
    kw = dict(num_layers=nl, bidir=bi, bias=bias, rpu_config=cfg)
    if dropout:
        kw["dropout"] = dropout
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        net = AnalogRNN(CELLS[c][0], i, h, **kw)
        ref = CELLS[c][1](i, h, num_layers=nl, bidirectional=bi, bias=bias)
    load(net, ref, c)
    return c, kind, net, ref, i, h, nl, bi, bias


def cells(net, nl, bi):
    for k in range(nl):
        lay = net.rnn.layers[k]
        if bi:
            yield k, "", lay.directions[0].cell
            yield k, "_reverse", lay.directions[1].cell
        else:
            yield k, "", lay.cell


def get(m):
    if isinstance(m, AnalogLinear):
        w, b = m.get_weights()
        return w.clone(), None if b is None else b.clone()
    return m.weight.detach().clone(), None if m.bias is None else m.bias.detach().clone()


def load(net, ref, c):
    """weights of the analog network into the torch reference."""
    bi = ref.bidirectional
    with torch.no_grad():
        for k, suf, cell in cells(net, ref.num_layers, bi):
            g = lambda n: getattr(ref, f"{n}_l{k}{suf}")
            if c == "combined":
                w, b = get(cell.weight)
                n = cell.input_size
                g("weight_ih").copy_(w[:, :n])
                g("weight_hh").copy_(w[:, n:])
                if b is not None:
                    g("bias_ih").copy_(b)
                    g("bias_hh").zero_()
            else:
                for s, m in (("ih", cell.weight_ih), ("hh", cell.weight_hh)):
                    w, b = get(m)
                    g("weight_" + s).copy_(w)
                    if b is not None:
                        g("bias_" + s).copy_(b)


def to_states(c, bi, nl, h0, c0):
    st = []
    for k in range(nl):
        row = []
        for d in range(2 if bi else 1):
            j = k * (2 if bi else 1) + d
            row.append((h0[j], c0[j]) if c in ("lstm", "combined") else h0[j])
        st.append(row if bi else row[0])
    return st


def flat(c, bi, states):
    hs, cs = [], []
    for s in states:
        for e in (s if bi else [s]):
            if c in ("lstm", "combined"):
                hs.append(e[0])
                cs.append(e[1])
            else:
                hs.append(e)
    return torch.stack(hs), torch.stack(cs) if cs else None


def run(c, bi, nl, h, net, ref, x, given, grad=True):
    b = x.size(1)
    nd = 2 if bi else 1
    x1, x2 = x.clone().requires_grad_(grad), x.clone().requires_grad_(grad)
    leaves1, leaves2 = [x1], [x2]
    if given:
        h0, c0 = torch.randn(nl * nd, b, h) * 0.5, torch.randn(nl * nd, b, h) * 0.5
        h1, c1 = h0.clone().requires_grad_(grad), c0.clone().requires_grad_(grad)
        h2, c2 = h0.clone().requires_grad_(grad), c0.clone().requires_grad_(grad)
        y1, s1 = net(x1, to_states(c, bi, nl, h1, c1))
        y2, s2 = ref(x2, (h2, c2) if c in ("lstm", "combined") else h2)
        leaves1 += [h1] + ([c1] if c in ("lstm", "combined") else [])
        leaves2 += [h2] + ([c2] if c in ("lstm", "combined") else [])
    else:
        y1, s1 = net(x1)
        y2, s2 = ref(x2)
    f1 = flat(c, bi, s1)
    f2 = s2 if isinstance(s2, tuple) else (s2, None)
    return (y1, f1, leaves1), (y2, f2, leaves2)


def s_run(rng, mon):
    c, kind, net, ref, i, h, nl, bi, bias = build(rng)
    mon.ctx = [c, kind, f"layers {nl}", "bidir" if bi else "", "bias" if bias else "", f"{i}x{h}"]
    train = gen.coin(rng)
    net.train(train)
    opt = AnalogSGD(net.parameters(), lr=0.1)
    ropt = torch.optim.SGD(ref.parameters(), lr=0.1)
    for step in range(rng.randint(1, 3)):
        T, B = rng.randint(1, 5), rng.randint(1, 4)
        x = torch.randn(T, B, i) * rng.choice([0.3, 1.0])
        given = gen.coin(rng)
        (y1, f1, l1), (y2, f2, l2) = run(c, bi, nl, h, net, ref, x, given)
        mon.close(y1, y2, "forward:output", atol=3e-5, rtol=1e-4)
        mon.close(f1[0], f2[0], "forward:state", atol=3e-5, rtol=1e-4)
        if f2[1] is not None:
            mon.close(f1[1], f2[1], "forward:cell_state", atol=3e-5, rtol=1e-4)
        mon.check(y1.shape == (T, B, h * (2 if bi else 1)), "forward:shape", str(y1.shape))
        mon.state("forward", c, kind, nl, bi, bias, given)
        if not train:
            with torch.no_grad():
                y3, _ = net(x) if not given else (y1, 0)
            mon.close(y3, y1, "forward:repeat", atol=1e-6)
            continue
        g = torch.randn_like(y1)
        gs = torch.randn_like(f1[0])
        opt.zero_grad()
        ropt.zero_grad()
        ((y1 * g).sum() + (f1[0] * gs).sum() + (f1[1].sum() if f1[1] is not None else 0)).backward()
        ((y2 * g).sum() + (f2[0] * gs).sum() + (f2[1].sum() if f2[1] is not None else 0)).backward()
        for n, (a, b) in enumerate(zip(l1, l2)):
            mon.close(a.grad, b.grad, f"gradient:{'input' if n == 0 else 'state'}", atol=1e-4, rtol=1e-3)
        mon.state("gradient", c, kind, nl, bi)
        # bound the step
        if kind in ("float", "ideal", "inference", "digital"):
            if c == "combined" and bias:
                for n, p in ref.named_parameters():
                    if "bias_hh" in n:
                        p.grad = None
            opt.step()
            ropt.step()
            chk = copy.deepcopy(ref)
            load(net, chk, c)
            for (n, p), (_, q) in zip(chk.named_parameters(), ref.named_parameters()):
                mon.close(p, q, "trained:" + n.split("_l")[0], atol=1e-4, rtol=1e-3)
            load(net, ref, c)
            mon.state("trained", c, kind, nl, bi)


def s_chunk(rng, mon):
    """a sequence run in pieces with carried states equals one run; batch entries are independent."""
    c, kind, net, ref, i, h, nl, bi, bias = build(rng)
    mon.ctx = [c, kind, nl, bi]
    net.eval()
    T, B = rng.randint(2, 6), rng.randint(1, 3)
    x = torch.randn(T, B, i)
    with torch.no_grad():
        y, s = net(x)
        if not bi:
            cut = rng.randint(1, T - 1)
            ya, sa = net(x[:cut])
            keep = copy.deepcopy(sa)
            yb, sb = net(x[cut:], sa)
            mon.close(torch.cat([ya, yb]), y, "chunked:output", atol=2e-5)
            for a, b in zip(flat(c, bi, sb), flat(c, bi, s)):
                if a is not None:
                    mon.close(a, b, "chunked:state", atol=2e-5)
            for a, b in zip(flat(c, bi, sa), flat(c, bi, keep)):
                if a is not None:
                    mon.check(torch.equal(a, b), "chunked:states_kept", "the given states were changed")
        k = rng.randrange(B)
        y1, _ = net(x[:, k:k + 1])
        mon.close(y1, y[:, k:k + 1], "chunked:batch", atol=2e-5)
        z = net.get_zero_state(B)
        y2, _ = net(x, z)
        mon.close(y2, y, "chunked:zero_state", atol=1e-6)
        xs = x.transpose(0, 1).contiguous().transpose(0, 1)
        mon.close(net(xs)[0], y, "chunked:strides", atol=1e-6)
        m2 = copy.deepcopy(net)
        mon.close(m2(x)[0], y, "chunked:copy", atol=1e-6)
        if kind != "digital":
            d = convert_to_digital(net)
            mon.close(d(x)[0], y, "chunked:digital", atol=3e-5, rtol=1e-4)
            mon.check(not any(isinstance(m, AnalogLinear) for m in d.modules()), "chunked:digital", "an analog layer is left")
    mon.state("chunked", c, kind, nl, bi)


def s_dropout(rng, mon):
    c, kind, net, ref, i, h, nl, bi, bias = build(rng, ["float", "ideal", "digital"], dropout=rng.choice([1.0, 1.0, 0.4]))
    p = net.rnn.dropout_layer.p
    x = torch.randn(3, 4, i)
    mon.ctx = [c, kind, nl, bi, p]
    net.eval()
    with torch.no_grad():
        mon.close(net(x)[0], ref(x)[0], "dropout:eval", atol=3e-5, rtol=1e-4)
        net.train()
        y, s = net(x)
        if nl == 1:
            mon.close(y, ref(x)[0], "dropout:single", atol=3e-5, rtol=1e-4)
        elif p == 1.0:
            # all layers but the first see zeros only
            nd = 2 if bi else 1
            top = CELLS[c][1](nd * h, h, bidirectional=bi, bias=bias)
            with torch.no_grad():
                for n, q in top.named_parameters():
                    q.copy_(getattr(ref, n.replace("_l0", f"_l{nl - 1}")))
            mon.close(y, top(torch.zeros(3, 4, nd * h))[0], "dropout:last", atol=3e-5, rtol=1e-4)
        else:
            ys = torch.stack([net(x)[0] for _ in range(3)])
            mon.obs("dropout:random", int((ys.std(0) > 0).any()))
    mon.state("dropout", c, kind, nl, p)


def s_init(rng, mon):
    c, kind, net, ref, i, h, nl, bi, bias = build(rng, ["float", "inference", "torch", "digital", "constant"])
    if kind == "constant":
        return
    mon.ctx = [c, kind]
    net.reset_parameters()
    lim = h ** -0.5
    ws = [get(m) for m in net.modules() if isinstance(m, (AnalogLinear, nn.Linear))]
    for w, b in ws:
        mon.check(float(w.abs().max()) <= lim * 1.0001, "init:uniform", lambda: f"{float(w.abs().max())} {lim}")
        if b is not None:
            mon.check(float(b.abs().max()) <= lim * 1.0001, "init:bias", "")
    mon.check(max(float(w.abs().max()) for w, _ in ws) > 0.2 * lim or sum(w.numel() for w, _ in ws) < 6, "init:zero", "")
    net.reset_parameters(True)
    for w, b in [get(m) for m in net.modules() if isinstance(m, (AnalogLinear, nn.Linear))]:
        mon.check(float(w.abs().max()) <= (6.0 / (w.shape[0] + w.shape[1])) ** 0.5 * 1.0001, "init:xavier", "")
        if b is not None:
            mon.check(float(b.abs().max()) == 0.0, "init:xavier_bias", "")
    load(net, ref, c)
    net.eval()
    x = torch.randn(2, 2, i)
    mon.close(net(x)[0], ref(x)[0], "init:forward", atol=3e-5, rtol=1e-4)
    mon.state("init", c, kind)


SCENARIOS = [
    Scenario("run", s_run, quick=500, thorough=8000, min_evals=2500),
    Scenario("chunk", s_chunk, quick=200, thorough=3000, min_evals=1200),
    Scenario("dropout", s_dropout, quick=100, thorough=1000, min_evals=150),
    Scenario("init", s_init, quick=80, thorough=800, min_evals=200),
]
