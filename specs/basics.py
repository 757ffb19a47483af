"""Reference semantics: units, target frequencies, losses."""
import numpy as np
import torch


def inverse_freq(freq):
    return 1 / freq


def to_phys(wl):
    return wl * 1e-6


def to_norm(phys_wl):
    return phys_wl / 1e-6


def phys_inverse(freq):
    return 299792458 / freq


def target_frequencies(min_physical_wl, max_physical_wl, N_freq, distribution):
    hi = 1 / (min_physical_wl * 1000000)
    lo = 1 / (max_physical_wl * 1000000)
    if distribution == "linear":
        return np.sort(np.linspace(lo, hi, num=N_freq))
    if distribution == "log":
        return np.sort(np.logspace(np.log10(lo), np.log10(hi), num=N_freq, base=10))
    raise ValueError("unknown distribution")


def frequency_points(run_cfg):
    f = target_frequencies(run_cfg.physical_wavelength_range[0], run_cfg.physical_wavelength_range[1], run_cfg.N_freq, run_cfg.freq_distribution)
    run_cfg.target_frequencies = f
    return 1e-6 / f, f


def spectrum_loss(produced_R_spectrum, produced_T_spectrum, target_R_spectrum, target_T_spectrum, target_frequencies, L=2.0, include_absorption=False):
    total = 0
    renormalized = False
    for r0, t0, tr, tt, f in zip(produced_R_spectrum, produced_T_spectrum, target_R_spectrum, target_T_spectrum, target_frequencies):
        r, t = r0, t0
        if r0 + t0 > 1:
            r = r0 / (r0 + t0)
            t = t0 / (r0 + t0)
            renormalized = True
        total = total + torch.abs(r - tr) ** L + torch.abs(t - tt) ** L
        if include_absorption:
            total = total + torch.abs((1 - t - r) - (1 - tt - tr)) ** L
    terms = 3 if include_absorption else 2
    return total / (terms * len(produced_R_spectrum)), renormalized


def likelihood_loss(material_predictions, L=0.5, use_max=False):
    if use_max:
        return torch.mean(1 - torch.max(material_predictions, dim=-1)[0])
    return torch.mean(torch.minimum(torch.pow(1 - material_predictions, L), torch.pow(material_predictions, L)))


def closest_material(eps, run_cfg, material_collection):
    cmp = torch.zeros([run_cfg.Nx, run_cfg.Ny, run_cfg.N_layers, run_cfg.N_freq, material_collection.N_materials])
    for k, name in enumerate(material_collection.material_names):
        cmp[..., k] = torch.abs(eps - material_collection[name])
    d, i = torch.min(cmp.mean(dim=3), dim=-1)
    return d, i
