"""P01: with a perfect (ideal) pass every analog layer computes what its digital twin
computes, forward and input gradient, whatever the tiling, mapping and input shapes."""
import torch
from torch import nn

import gen
from gen import coin
from vh import Scenario, Skip

RULE = ("distinct (configuration kind, mapping, layer kind and geometry, input shape sequence) tuples "
        "whose outputs and input gradients were compared with a digital torch layer")
REQUIRES = ("forward_compared", "input_grad_compared", "shape_change_same_layer", "multi_tile")
ASSUMPTIONS = ("torch's own nn.Linear/nn.ConvNd is the reference", "CPU tiles only")


def tol(cfg):
    return dict(atol=2e-4, rtol=2e-4)


def compare(mon, case, x, key, msg):
    xa = x.clone().requires_grad_(True)
    xd = x.clone().requires_grad_(True)
    x0 = x.clone()
    ya = case.analog(xa)
    yd = case.digital(xd)
    if not mon.close(ya, yd, key + ":forward", atol=2e-4, rtol=2e-4, msg=msg):
        return
    mon.obs("forward_compared")
    g = torch.randn_like(yd)
    g0 = g.clone()
    (ya * g).sum().backward()
    (yd * g).sum().backward()
    mon.close(xa.grad, xd.grad, key + ":input_grad", atol=3e-4, rtol=3e-4, msg=msg)
    mon.obs("input_grad_compared")
    mon.check(torch.equal(xa.detach(), x0) and torch.equal(g, g0), key + ":input_mutated",
              "input or gradient tensor modified in place")


def run(rng, mon, layer=None, kinds=None, train=True, array=False):
    mapping = gen.rand_mapping(rng, max_size=True)
    kind = rng.choice(kinds or gen.PERFECT_KINDS)
    lk = layer or rng.choice(gen.LAYER_KINDS)
    cfg, kind = gen.perfect_config(rng, kind, mapping)
    if kind in ("custom", "torch") and lk in ("conv1d", "conv3d", "conv1d_mapped", "conv3d_mapped"):
        # these layers need the indexed pass; the tile must refuse, not mis-compute
        return refuse(rng, mon, cfg, lk)
    if lk in ("conv1d", "conv3d", "conv2d_idx"):
        cfg.mapping.max_input_size = cfg.mapping.max_output_size = 0
    case = gen.rand_layer(rng, cfg, lk)
    case.analog.train(train)
    gen.randomize(case, rng)
    gen.copy_weights_to_digital(case)
    nt = len(list(case.analog.analog_tiles()))
    if nt > 1:
        mon.obs("multi_tile")
    shapes = []
    for r in range(rng.randint(1, 4)):
        x = case.make_input(rng) * rng.choice([0.3, 1.0, 5.0])
        if shapes and tuple(x.shape) != shapes[-1]:
            mon.obs("shape_change_same_layer")
        shapes.append(tuple(x.shape))
        compare(mon, case, x, f"{lk}:{kind}", f"{case.sig} {gen.msig(cfg.mapping)} shapes={shapes}")
    mon.state(kind, gen.msig(cfg.mapping), case.sig, tuple(shapes), train)
    mon.sample({"config": kind, "layer": case.sig, "mapping": gen.msig(cfg.mapping), "shapes": shapes,
                "tiles": nt})


def refuse(rng, mon, cfg, lk):
    def go():
        c = gen.rand_layer(rng, cfg, lk)
        c.analog(c.make_input(rng))
    mon.raises(go, f"{lk}:refuse", "layer that needs the indexed pass ran on a tile without it")
    mon.obs("unsupported_refused")
    mon.state("refuse", lk, type(cfg).__name__)


def transposed_shapes(rng, mon):
    """Images of equal size but different shape through one layer."""
    cfg, kind = gen.perfect_config(rng, rng.choice(["float", "ideal", "constant", "inference"]),
                                   gen.rand_mapping(rng, digital_bias=coin(rng)))
    lk = rng.choice(["conv2d", "conv2d_idx", "conv3d", "conv2d_mapped", "conv3d_mapped"])
    if "mapped" in lk:
        cfg.mapping.digital_bias = True
        cfg.mapping.max_input_size = rng.choice([0, 30, 60])
    case = gen.rand_layer(rng, cfg, lk)
    gen.randomize(case, rng)
    gen.copy_weights_to_digital(case)
    dims = [rng.randint(5, 8) for _ in range(2 if "2d" in lk else 3)]
    perms = [list(dims) for _ in range(3)]
    for p in perms[1:]:
        rng.shuffle(p)
    for p in perms:
        x = torch.randn(rng.randint(1, 2), case.digital.in_channels, *p)
        compare(mon, case, x, f"{lk}:{kind}:same_numel", f"{case.sig} image {p} of {perms}")
    mon.obs("shape_change_same_layer", len({tuple(p) for p in perms}) - 1)
    mon.state(kind, lk, case.sig, str(perms))


def no_batch(rng, mon):
    """Non-contiguous and expanded inputs."""
    cfg, kind = gen.perfect_config(rng, None, gen.rand_mapping(rng, max_size=True))
    case = gen.rand_layer(rng, cfg, rng.choice(["linear", "linear_mapped"]))
    gen.randomize(case, rng)
    gen.copy_weights_to_digital(case)
    i = case.digital.in_features
    b = rng.randint(2, 5)
    form = rng.choice(["t", "slice", "expand", "narrow"])
    if form == "t":
        x = torch.randn(i, b).t()
    elif form == "slice":
        x = torch.randn(b * 2, i)[::2]
    elif form == "expand":
        x = torch.randn(1, i).expand(b, i)
    else:
        x = torch.randn(b, i + 3)[:, 1:i + 1]
    leaf = x.detach()
    ya, yd = case.analog(leaf), case.digital(leaf)
    mon.close(ya, yd, f"{kind}:strided:{form}", atol=2e-4, rtol=2e-4, msg=f"{case.sig} {form}")
    mon.obs("forward_compared")
    # gradient arriving with unusual strides
    x = torch.randn(b, i, requires_grad=True)
    x2 = x.detach().clone().requires_grad_(True)
    case.analog(x).t().sum(0).sum().backward()
    case.digital(x2).t().sum(0).sum().backward()
    mon.close(x.grad, x2.grad, f"{kind}:strided_grad", atol=3e-4, rtol=3e-4)
    mon.obs("input_grad_compared")
    mon.state(kind, form, case.sig, gen.msig(cfg.mapping))


def transposed_tile(rng, mon):
    """Tiles used directly with in_trans / out_trans."""
    cfg, kind = gen.perfect_config(rng, rng.choice(["float", "ideal", "constant", "inference"]),
                                   gen.rand_mapping(rng, learn=False))
    o, i = rng.randint(1, 6), rng.randint(1, 8)
    bias = coin(rng)
    it, ot = coin(rng), coin(rng)
    tile = cfg.tile_class(o, i, cfg, bias=bias, in_trans=it, out_trans=ot)
    w, b = torch.randn(o, i), torch.randn(o) if bias else None
    tile.set_weights(w, b)
    n = rng.randint(1, 5)
    x = torch.randn(n, i)
    want = x @ w.t() + (b if bias else 0)
    with torch.no_grad():
        got = tile.forward(x.t().contiguous() if it else x)
        db = b.clone() if bias else None
    got = got.t() if ot else got
    mon.close(got, want, f"{kind}:tile_trans", atol=2e-4, rtol=2e-4, msg=f"in_trans={it} out_trans={ot}")
    mon.obs("tile_trans_compared")
    mon.state("trans", kind, it, ot, bias, gen.msig(cfg.mapping))


SCENARIOS = [
    Scenario("layers", lambda r, m: run(r, m), 500, 12000),
    Scenario("eval", lambda r, m: run(r, m, train=False, kinds=["float", "ideal", "inference", "torch"]), 120, 3000),
    Scenario("same_numel", transposed_shapes, 80, 1500),
    Scenario("strided", no_batch, 60, 1500),
    Scenario("tile_trans", transposed_tile, 60, 1500),
]
