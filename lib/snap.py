"""Complete observable state of an analog model, for comparing before/after, copy/original."""
import torch

SKIP_EXTRA = ("rng", "seed")


def _flat(prefix, obj, out):
    if isinstance(obj, dict):
        for k, v in obj.items():
            _flat(f"{prefix}.{k}", v, out)
    elif isinstance(obj, torch.Tensor):
        out[prefix] = obj.detach().clone()
    elif isinstance(obj, (list, tuple)):
        if all(isinstance(v, (int, float, bool)) for v in obj):
            out[prefix] = torch.tensor([float(v) for v in obj], dtype=torch.float64)
        else:
            for i, v in enumerate(obj):
                _flat(f"{prefix}.{i}", v, out)
    elif isinstance(obj, (int, float, bool)):
        out[prefix] = torch.tensor(float(obj), dtype=torch.float64)
    elif obj is None:
        out[prefix] = None
    elif hasattr(obj, "__array__"):
        import numpy as np
        out[prefix] = torch.from_numpy(np.array(obj, copy=True))


INFERENCE_ATTRS = ("programmed_weights", "nu_drift_list", "drift_noise_parameters", "reference_combined_weights",
                   "drift_baseline", "drift_readout_tensor", "programmed_factor", "alpha",
                   "combined_weights")


def tile_state(tile, extra=True, lr=False):
    out = {}
    out["w"] = tile.tile.get_weights().detach().clone()
    lw, lb = tile.get_weights()
    out["logical"] = lw.detach().clone()
    out["bias"] = None if lb is None else lb.detach().clone()
    _flat("hidden", dict(tile.get_hidden_parameters()), out)
    for name in ("get_mapping_scales", "get_learned_out_scales", "get_scales"):
        if hasattr(tile, name):
            _flat(name, getattr(tile, name)(), out)
    if getattr(tile, "input_range", None) is not None:
        _flat("input_range", tile.input_range, out)
        for a in ("input_range_update_idx", "input_range_delta", "input_range_stat"):
            if hasattr(tile, a):
                _flat(a, getattr(tile, a), out)
    for a in INFERENCE_ATTRS:
        if hasattr(tile, a):
            _flat(a, getattr(tile, a), out)
    if extra:
        ex = tile.tile.dump_extra()
        if ex:
            ex = {k: v for k, v in ex.items() if not any(s in k for s in SKIP_EXTRA)}
            _flat("extra", ex, out)
    if lr:
        _flat("lr", tile.get_learning_rate(), out)
    return out


def model_state(model, extra=True, lr=False):
    """Flat dict name -> tensor/None of everything in a model."""
    out = {}
    for n, p in model.named_parameters():
        if "analog_ctx" in n:
            continue
        out["param:" + n] = p.detach().clone()
    for n, b in model.named_buffers():
        out["buffer:" + n] = b.detach().clone()
    for n, tile in analog_tiles(model):
        for k, v in tile_state(tile, extra, lr).items():
            out[f"tile:{n}:{k}"] = v
    out["training"] = torch.tensor(float(model.training))
    return out


def analog_tiles(model):
    from aihwkit.simulator.tiles.module import TileModule
    for n, m in model.named_modules():
        if isinstance(m, TileModule):
            yield n, m


def diff(a, b, ignore=(), tol=0.0):
    """Names whose values differ."""
    res = []
    for k in list(a) + [k for k in b if k not in a]:
        if any(s in k for s in ignore):
            continue
        if k not in a or k not in b:
            res.append(f"{k} missing in one")
            continue
        x, y = a[k], b[k]
        if x is None or y is None:
            if x is not y:
                res.append(f"{k}: None vs value")
        elif x.shape != y.shape:
            res.append(f"{k}: shape {tuple(x.shape)} vs {tuple(y.shape)}")
        else:
            x, y = x.double(), y.double()
            bad = ~((x == y) | (x.isnan() & y.isnan()))
            if tol:
                bad &= ~((x - y).abs() <= tol * (1 + y.abs()))
            if bad.any():
                res.append(f"{k}: {int(bad.sum())}/{x.numel()} differ, max {float((x - y).abs().max()):.3g}")
    return res


def kinds_of(res):
    """Stable short names of the differing state items."""
    out = set()
    for r in res:
        k = r.split(":")
        name = k[2] if k[0] == "tile" and len(k) > 2 else k[0] + ":" + k[1].split(".")[-1]
        out.add(name.split(" ")[0].rstrip("0123456789").rstrip("._"))
    return sorted(out)[:2]
