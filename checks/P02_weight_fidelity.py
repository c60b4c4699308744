"""P02: what is written with set_weights is what get_weights and the forward pass see,
through every combination of digital scales, tiling and bias handling."""
import torch

import gen
from gen import coin, u
from vh import Scenario, Skip

RULE = ("distinct (configuration, layer geometry, sequence of write/scale operations) situations in which "
        "tile weights, digital scales, logical weights and outputs were compared with a shadow model")
REQUIRES = ("roundtrip", "scaled_write", "shadow_step", "realistic_read", "programmed", "clipped_write")
ASSUMPTIONS = ("CPU tiles", "float32 tolerance 1e-4 relative")


def roundtrip(rng, mon):
    """Layer-level: set -> get identity, arguments untouched, results detached copies."""
    kind = rng.choice(gen.PERFECT_KINDS + ["pulsed"])
    mp = gen.rand_mapping(rng, max_size=True)
    if kind == "pulsed":
        dev = gen.rand_device(rng, None)
        dev_min = 0.05
        cfg = gen.wrap_device(dev)
        mp.weight_scaling_omega = 0.0
        dev.w_max_dtod = dev.w_min_dtod = 0.0
        dev.corrupt_devices_prob = 0.0
        if hasattr(dev, "reference_std"):
            dev.reference_std = 0.0
            dev.subtract_symmetry_point = False
        mp.learn_out_scaling = False
        cfg.mapping = mp
        amp = dev_min
    else:
        cfg, kind = gen.perfect_config(rng, kind, mp)
        amp = rng.choice([1e-3, 0.5, 10.0])
    lk = rng.choice(gen.LAYER_KINDS if kind not in ("torch", "custom") else
                    ["linear", "linear_mapped", "conv2d", "conv2d_mapped"])
    if lk in ("conv1d", "conv3d", "conv2d_idx"):
        cfg.mapping.max_input_size = cfg.mapping.max_output_size = 0
    case = gen.rand_layer(rng, cfg, lk)
    layer = case.analog
    shape = case.digital.weight.shape
    w = (torch.rand(shape) * 2 - 1) * amp
    if coin(rng, 0.2):
        w[rng.randrange(shape[0])] = 0.0
    if coin(rng, 0.1):
        w.zero_()
    b = (torch.rand(shape[0]) * 2 - 1) * amp if case.digital.bias is not None else None
    form = rng.choice(["plain", "param", "strided"])
    wi, bi = w.clone(), None if b is None else b.clone()
    if form == "param":
        wi = torch.nn.Parameter(wi)
    elif form == "strided":
        wi = torch.stack([wi, wi], -1)[..., 0]
    layer.set_weights(wi, bi)
    mon.check(torch.equal(wi, w) and (b is None or torch.equal(bi, b)), "roundtrip:argument_mutated", case.sig)
    g, gb = layer.get_weights()
    mon.close(g.reshape(shape), w, f"roundtrip:{kind}:weight", atol=1e-4 * amp, rtol=1e-4, msg=f"{case.sig}")
    mon.check((gb is None) == (b is None), f"roundtrip:{kind}:bias_presence", case.sig)
    if b is not None and gb is not None:
        mon.close(gb, b, f"roundtrip:{kind}:bias", atol=1e-4 * amp, rtol=1e-4, msg=f"{case.sig}")
    mon.check(not g.requires_grad and not (gb is not None and gb.requires_grad), "roundtrip:attached", case.sig)
    # result is a copy
    g.add_(1.0)
    wi.data.add_(7.0)
    if bi is not None:
        bi.add_(7.0)
    g2, gb2 = layer.get_weights()
    mon.close(g2.reshape(shape), w, f"roundtrip:{kind}:aliased_weight", atol=1e-4 * amp, rtol=1e-4, msg=f"{case.sig}")
    if b is not None:
        mon.close(gb2, b, f"roundtrip:{kind}:aliased_bias", atol=1e-4 * amp, rtol=1e-4, msg=f"{case.sig}")
    mon.obs("roundtrip")
    # scale algebra on every tile
    for t in layer.analog_tiles():
        raw = t.tile.get_weights()
        lw, lb = t.get_weights()
        rw, rb = t.get_weights(apply_weight_scaling=False)
        s = t.get_scales()
        n = t.in_size
        mon.close(rw, raw[:, :n], "tile:unscaled_is_raw", atol=0, rtol=0)
        if s is not None:
            mon.close(lw, raw[:, :n] * s.detach().view(-1, 1), "tile:scaled", atol=1e-6 * amp, rtol=1e-5)
        om = cfg.mapping.weight_scaling_omega
        if om > 0 and kind != "float":
            mx = raw.abs().max(1)[0] if cfg.mapping.weight_scaling_columnwise else raw.abs().max().view(1)
            nz = mx > 0
            mon.close(mx[nz], torch.full_like(mx[nz], om), "tile:omega", atol=1e-5, rtol=1e-4,
                      msg=f"largest analog weight vs omega {om}")
            mon.obs("scaled_write")
    if coin(rng, 0.4):
        om = rng.choice([0.3, 1.0])
        layer.remap_analog_weights(om) if hasattr(layer, "remap_analog_weights") else None
        if kind != "pulsed":
            g, gb = layer.get_weights()
            mon.close(g.reshape(shape), w, f"remap:{kind}:weight", atol=2e-4 * amp, rtol=2e-4, msg=f"{case.sig}")
            if b is not None:
                mon.close(gb, b, f"remap:{kind}:bias", atol=2e-4 * amp, rtol=2e-4)
            for t in layer.analog_tiles():
                raw = t.tile.get_weights()
                mx = raw.abs().max(1)[0] if cfg.mapping.weight_scaling_columnwise else raw.abs().max().view(1)
                nz = mx > 0
                mon.close(mx[nz], torch.full_like(mx[nz], om), "remap:omega", atol=1e-5, rtol=1e-4)
            mon.obs("remapped")
    mon.state(kind, case.sig, gen.msig(cfg.mapping), form)
    mon.sample({"config": kind, "layer": case.sig, "mapping": gen.msig(cfg.mapping), "form": form})


def history(rng, mon):
    """Tile-level: a random sequence of writes and scale changes against a shadow model."""
    mp = gen.rand_mapping(rng)
    cfg, kind = gen.perfect_config(rng, None, mp)
    mp = cfg.mapping
    o, i, bias = rng.randint(1, 6), rng.randint(1, 8), coin(rng)
    t = cfg.tile_class(o, i, cfg, bias=bias)
    ab = bias and not mp.digital_bias
    scaled = True
    T = t.tile.get_weights().clone()
    db = torch.zeros(o)
    M = None if t.get_mapping_scales() is None else t.get_mapping_scales().detach().clone()
    L = None if t.get_learned_out_scales() is None else t.get_learned_out_scales().detach().clone()
    ops = []

    def full(v):
        return torch.ones(o) if v is None else v.view(-1).expand(o) if v.numel() == 1 else v.view(-1)

    def check(op):
        s = full(M) * full(L)
        w, b = t.get_weights()
        msg = f"{kind} {gen.msig(mp)} after {ops}"
        mon.close(t.tile.get_weights(), T, f"history:{op}:tile", atol=1e-5, rtol=1e-4, msg=msg)
        mon.close(w, T[:, :i] * s.view(-1, 1), f"history:{op}:logical", atol=1e-5, rtol=1e-4, msg=msg)
        if bias:
            mon.close(b, T[:, i] * s if ab else db, f"history:{op}:bias", atol=1e-5, rtol=1e-4, msg=msg)
        x = torch.randn(3, i)
        y = t(x)
        want = x @ (T[:, :i] * s.view(-1, 1)).t()
        if bias:
            want = want + (T[:, i] * s if ab else db)
        mon.close(y, want, f"history:{op}:forward", atol=2e-4, rtol=2e-4, msg=msg)
        mon.obs("shadow_step")

    for _ in range(rng.randint(2, 7)):
        op = rng.choice(["set", "set", "set_raw", "remap", "scales", "learned", "mapping", "omega"])
        w = torch.randn(o, i) * rng.choice([0.1, 1.0, 3.0])
        b = torch.randn(o) if bias else None
        comb = torch.cat([w, b.view(-1, 1)], 1) if ab else w
        if op in ("set", "omega"):
            om = rng.choice([0.2, 0.7, 2.0]) if op == "omega" else mp.weight_scaling_omega
            t.set_weights(w, b, weight_scaling_omega=om if op == "omega" else None)
            ops.append((op, om))
            T = comb.clone()
            if om > 0:
                a = (comb.abs().max(1)[0] if mp.weight_scaling_columnwise else comb.abs().max().view(1)) / om
                a[a == 0] = 1.0
                T = comb / a.view(-1, 1)
                M = a
                L = None if L is None else torch.ones_like(L)
            if bias and not ab:
                db = b.clone()
        elif op == "set_raw":
            t.set_weights(w, b, apply_weight_scaling=False)
            ops.append((op,))
            T = comb.clone()
            if bias and not ab:
                db = b.clone()
        elif op == "remap":
            om = rng.choice([0.5, 1.0])
            t.remap_weights(om)
            ops.append((op, om))
            lg = T * (full(M) * full(L)).view(-1, 1)
            a = (lg.abs().max(1)[0] if mp.weight_scaling_columnwise else lg.abs().max().view(1)) / om
            a[a == 0] = 1.0
            T = lg / a.view(-1, 1)
            M = a
            L = None if L is None else torch.ones_like(L)
        elif op in ("scales", "mapping"):
            v = rng.choice(["float", "one", "vec"])
            sc = (u(rng, 0.3, 2.0) if v == "float" else torch.tensor([u(rng, 0.3, 2.0)]) if v == "one"
                  else torch.rand(o) + 0.3)
            ops.append((op, v))
            (t.set_scales if op == "scales" else t.set_mapping_scales)(sc)
            M = torch.tensor([sc]) if v == "float" else sc.clone()
            if op == "scales" and L is not None:
                L = torch.ones_like(L)
        elif op == "learned":
            if L is None:
                continue
            L = torch.rand_like(L) + 0.5
            t.set_learned_out_scales(L.clone())
            ops.append((op,))
        check(ops[-1][0])
    if not ops:
        raise Skip()
    mon.state(kind, gen.msig(mp), o, i, bias, str(ops))
    mon.sample({"config": kind, "mapping": gen.msig(mp), "ops": str(ops)})


def realistic(rng, mon):
    """Estimating the weights through an exact forward pass returns the weights."""
    mp = gen.rand_mapping(rng)
    cfg, kind = gen.perfect_config(rng, None, mp)
    o, i, bias = rng.randint(1, 6), rng.randint(1, 8), coin(rng)
    t = cfg.tile_class(o, i, cfg, bias=bias)
    w, b = torch.randn(o, i), torch.randn(o) if bias else None
    t.set_weights(w, b)
    train = coin(rng)
    t.train(train)
    raw = t.tile.get_weights().clone()
    kw = {}
    if coin(rng, 0.4):
        kw["x_values"] = torch.randn(4 * i + 8, i)
    if coin(rng):
        kw["over_sampling"] = rng.choice([3, 10])
    if coin(rng):
        rw, rb = t.read_weights(apply_weight_scaling=True, **kw)
        lw, lb = w, b
    else:
        rw, rb = t.read_weights(apply_weight_scaling=False, **kw)
        lw, lb = t.get_weights(apply_weight_scaling=False)
    mon.close(rw, lw, f"realistic:{kind}:weight", atol=1e-3, rtol=1e-3, msg=f"{gen.msig(mp)} {list(kw)}")
    if bias:
        mon.close(rb, lb, f"realistic:{kind}:bias", atol=1e-3, rtol=1e-3, msg=f"{gen.msig(mp)} {list(kw)}")
    mon.check(torch.equal(t.tile.get_weights(), raw), "realistic:changed_weights", kind)
    mon.check(t.training == train, "realistic:mode_changed", kind)
    mon.obs("realistic_read")
    mon.state("real", kind, gen.msig(mp), o, i, bias, tuple(kw))


def program(rng, mon):
    """program_weights drives the tile to its target within the tolerance it promises."""
    dev = gen.D.ConstantStepDevice() if coin(rng) else gen.D.SoftBoundsDevice()
    gen.no_dtod(dev)
    dev.w_max, dev.w_min, dev.dw_min = 1.0, -1.0, 0.001
    cfg = gen.wrap_device(dev)
    cfg.forward.is_perfect = True
    o, i = rng.randint(1, 4), rng.randint(1, 4)
    t = cfg.tile_class(o, i, cfg, bias=False)
    w = (torch.rand(o, i) * 2 - 1) * 0.5
    tol = rng.choice([0.02, 0.05])
    lr0 = rng.choice([0.01, 0.3])
    t.tile.set_learning_rate(lr0)
    first = coin(rng)
    if first:
        t.set_weights(w, None, realistic=True)
        tol = 0.01
    else:
        t.set_weights(w, None)
        t.program_weights(tolerance=tol, w_init=rng.choice([0.01, 0.2]))
    err = (t.tile.get_weights() - w).abs().mean() / w.abs().max()
    mon.check(err <= tol + 1e-4, "program:tolerance", f"error {err:.4f} > {tol}")
    # again from the kept reference, other starting point: still the original target
    kw = {"w_init": torch.zeros(o, i)} if coin(rng) else {"x_values": torch.eye(i)}
    t.program_weights(from_reference=True, tolerance=0.02, **kw)
    err = (t.tile.get_weights() - w).abs().mean() / w.abs().max()
    mon.check(err <= 0.02 + 1e-4, "program:reference", f"re-programming drifted: error {err:.4f}")
    mon.close(t.tile.get_learning_rate(), lr0, "program:lr", atol=1e-7, rtol=1e-6)
    mon.obs("programmed")
    mon.state("prog", type(dev).__name__, o, i, first, str(kw))


def clipped(rng, mon):
    """Weights outside the device range are stored at the bound, inside exactly."""
    kind = rng.choice(gen.DEVICE_KINDS)
    dev = gen.rand_device(rng, kind, variation=coin(rng))
    dev.corrupt_devices_prob = 0.0
    if hasattr(dev, "reference_std"):
        dev.reference_std = 0.0
        dev.subtract_symmetry_point = False
    cfg = gen.wrap_device(dev)
    o, i = rng.randint(1, 6), rng.randint(1, 8)
    t = cfg.tile_class(o, i, cfg, bias=False)
    hp = t.get_hidden_parameters()
    ub, lb = hp["max_bound"], hp["min_bound"]
    w = torch.randn(o, i) * 0.5
    t.set_weights(w)
    mon.close(t.tile.get_weights(), torch.minimum(torch.maximum(w, lb), ub), f"clip:{kind}", atol=1e-6, rtol=1e-6)
    if bool((w > ub).any() or (w < lb).any()):
        mon.obs("clipped_write")
    mon.state("clip", kind, o, i)


SCENARIOS = [
    Scenario("roundtrip", roundtrip, 400, 20000),
    Scenario("history", history, 300, 20000),
    Scenario("realistic", realistic, 80, 2500),
    Scenario("program", program, 24, 300),
    Scenario("clipped", clipped, 60, 1500),
]
