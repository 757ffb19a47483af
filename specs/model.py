"""Reference semantics: model output -> permittivity grid."""
import torch


def axes(nx, ny, n_layers, thick):
    x = torch.linspace(-1, 1, nx)
    y = torch.linspace(-1, 1, ny)
    if len(thick) == 1:
        z = torch.linspace(-1, 1, n_layers)
    else:
        total = sum(thick)
        w = torch.cumsum(torch.tensor(thick) / total, dim=0) - thick[0] / total
        z = 2 * (w / w.max() - 0.5)
    return x, y, z


def sample(run_cfg, model):
    nx = run_cfg.Nx // run_cfg.eps_oversampling
    ny = run_cfg.Ny // run_cfg.eps_oversampling
    f = run_cfg.target_frequencies
    if run_cfg.model_type == "nerf" or run_cfg.model_type == "siren":
        x, y, z = axes(nx, ny, run_cfg.N_layers, run_cfg.PER_LAYER_THICKNESS)
        if run_cfg.freq_distribution == "linear":
            w = torch.linspace(-32.0, 32.0, len(f))
        elif run_cfg.freq_distribution == "log":
            w = 64.0 * (torch.tensor(f / max(f)) - 0.5)
        else:
            raise ValueError("distribution")
        X, Y, Z, W = torch.meshgrid((x, y, 1000.0 * z, w))
        return model(torch.cat((X.reshape(-1, 1), Y.reshape(-1, 1), Z.reshape(-1, 1), W.reshape(-1, 1)), dim=1))
    if run_cfg.model_type == "voxel":
        return model()
    raise NotImplementedError("model")


def away_from_zero(eps):
    re = eps.real
    re = torch.where(re == 0.0, 0.01, re)
    re = torch.where(torch.logical_and(re < 0.01, re > -0.01), 0.01 * torch.sign(re), re)
    return torch.complex(re, eps.imag)


def avoid_zero_eps(eps, cutoff=1e-2):
    i = eps.real == 0.0
    eps.real[i] = cutoff
    i = torch.logical_and(eps.real < cutoff, eps.real > -cutoff)
    eps.real[i] = cutoff * torch.sign(eps.real[i])
    return eps


def bounded(u, lo, hi):
    return (u * (hi - lo) + lo).clip(lo, hi)


def regression(model, run_cfg):
    out = sample(run_cfg, model)
    k = run_cfg.eps_oversampling
    n = run_cfg.N_freq
    if run_cfg.model_type == "voxel":
        eps = torch.zeros_like(out)
        eps.real = out.real.clip(run_cfg.real_min_eps, run_cfg.real_max_eps)
        eps.imag = out.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
    else:
        out = out.reshape(run_cfg.Nx // k, run_cfg.Ny // k, run_cfg.N_layers, 2 * n)
        out = torch.repeat_interleave(torch.repeat_interleave(out, k, dim=0), k, dim=1)
        eps = torch.zeros([run_cfg.Nx, run_cfg.Ny, run_cfg.N_layers, n], dtype=torch.cfloat)
        eps.real = bounded(out[:, :, :, :n], run_cfg.real_min_eps, run_cfg.real_max_eps)
        eps.imag = bounded(out[:, :, :, n:], run_cfg.imag_min_eps, run_cfg.imag_max_eps)
    if run_cfg.add_noise:
        a, b = run_cfg.real_min_eps, run_cfg.real_max_eps
        eps.real = (eps.real + (2.0 * torch.randn_like(eps.real) - 1.0) * run_cfg.noise_scale * (b - a)).clip(a, b)
        a, b = run_cfg.imag_min_eps, run_cfg.imag_max_eps
        eps.imag = (eps.imag + (2.0 * torch.randn_like(eps.imag) - 1.0) * run_cfg.noise_scale * (b - a)).clip(a, b)
    if run_cfg.avoid_zero_eps:
        avoid_zero_eps(eps)
    return eps


def classification(model, run_cfg):
    out = sample(run_cfg, model)
    k = run_cfg.eps_oversampling
    out = out.reshape(run_cfg.Nx // k, run_cfg.Ny // k, run_cfg.N_layers, run_cfg.N_freq, run_cfg.N_materials)
    out = torch.repeat_interleave(torch.repeat_interleave(out, k, dim=0), k, dim=1)
    score = torch.mean(out, dim=3)
    if run_cfg.add_noise:
        score = score + torch.randn_like(score) * run_cfg.noise_scale
    e = torch.exp(16 * score)
    p = e / e.sum(dim=-1).unsqueeze(-1)
    p = p / p.sum(-1).unsqueeze(-1)
    eps = (p.unsqueeze(-1) * run_cfg.material_collection.epsilon_matrix).sum(-2)
    if run_cfg.avoid_zero_eps:
        avoid_zero_eps(eps)
    return eps, p


def grid(model, run_cfg):
    if run_cfg.type == "classification":
        return classification(model, run_cfg)
    if run_cfg.type == "regression":
        return regression(model, run_cfg), None
