"""Reference semantics: configuration validation, dispatch, defaults."""
import os
import toml
from dotmap import DotMap

REQUIRED = ["name", "seed", "eps_oversampling", "real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps",
            "Nx", "Ny", "N_layers", "physical_wavelength_range", "N_freq", "model_type", "encoding_dim", "siren_omega",
            "n_neurons", "hidden_layers", "learning_rate", "iterations", "L", "absorption_loss", "type", "use_regularization_loss",
            "reg_loss_weight", "add_noise", "noise_scale", "solver", "PER_LAYER_THICKNESS",
            "TRCWA_L_grid", "TRCWA_NG", "TRCWA_TOP_LAYER_EPS", "TRCWA_BOTTOM_LAYER_EPS",
            "FDTD_min_gridpoints_per_unit_magnitude", "FDTD_source_type", "FDTD_pulse_type", "FDTD_pml_thickness",
            "FDTD_source_position", "FDTD_free_space_distance", "FDTD_niter", "FDTD_gridpoints_from_material_to_detector",
            "target_reflectance_spectrum", "target_transmittance_spectrum", "freq_distribution", "use_gpu", "avoid_zero_eps"]
RUNTIME = ["target_frequencies", "FDTD_grid", "model", "out_features", "results", "best_model_state_dict", "material_collection",
           "N_materials", "thicknesses", "FDTD_grid_scaling"]


def keys_known(cfg):
    for key in REQUIRED:
        if key not in cfg:
            raise KeyError("missing")
    for key in cfg.keys():
        if key not in REQUIRED and key not in RUNTIME:
            raise KeyError("unknown")


def types_right(cfg):
    for key in ["Nx", "Ny", "N_layers", "N_freq", "encoding_dim", "n_neurons", "eps_oversampling", "seed",
                "TRCWA_NG", "FDTD_niter", "FDTD_gridpoints_from_material_to_detector", "FDTD_min_gridpoints_per_unit_magnitude"]:
        if not isinstance(cfg[key], int):
            raise TypeError("int")
    for key in ["L", "real_min_eps", "real_max_eps", "imag_min_eps", "imag_max_eps", "siren_omega", "noise_scale", "reg_loss_weight",
                "TRCWA_TOP_LAYER_EPS", "TRCWA_BOTTOM_LAYER_EPS", "FDTD_free_space_distance", "FDTD_pml_thickness"]:
        if not isinstance(cfg[key], float):
            raise TypeError("float")
    for key in ["use_regularization_loss", "add_noise", "use_gpu", "avoid_zero_eps"]:
        if not isinstance(cfg[key], bool):
            raise TypeError("bool")
    for key in ["model_type", "type", "name", "freq_distribution", "solver", "FDTD_source_type", "FDTD_pulse_type"]:
        if not isinstance(cfg[key], str):
            raise TypeError("str")
    for key in ["PER_LAYER_THICKNESS", "TRCWA_L_grid", "FDTD_source_position", "target_reflectance_spectrum", "target_transmittance_spectrum",
                "physical_wavelength_range"]:
        if not isinstance(cfg[key], list):
            raise TypeError("list")


def ranges_right(cfg):
    if not cfg.real_min_eps <= cfg.real_max_eps:
        raise RuntimeError("real range")
    if not cfg.imag_min_eps <= cfg.imag_max_eps:
        raise RuntimeError("imag range")
    if not cfg.physical_wavelength_range[0] < cfg.physical_wavelength_range[1]:
        raise RuntimeError("wavelength range")
    points = max(1e-6 / (cfg.physical_wavelength_range[0] * 0.1), cfg.FDTD_min_gridpoints_per_unit_magnitude)
    if int(points * cfg.FDTD_free_space_distance) < cfg.FDTD_gridpoints_from_material_to_detector:
        raise RuntimeError("detector inside the pml")
    for key in ["L", "n_neurons", "Nx", "Ny", "N_layers", "N_freq", "learning_rate", "iterations", "eps_oversampling", "noise_scale",
                "TRCWA_NG", "reg_loss_weight", "FDTD_niter", "FDTD_free_space_distance", "FDTD_pml_thickness",
                "FDTD_gridpoints_from_material_to_detector", "FDTD_min_gridpoints_per_unit_magnitude"]:
        if not cfg[key] > 0:
            raise RuntimeError("positive")
    if cfg.Nx % cfg.eps_oversampling != 0:
        raise RuntimeError("oversampling")
    if cfg.Ny % cfg.eps_oversampling != 0:
        raise RuntimeError("oversampling")
    if cfg.type not in ("classification", "regression"):
        raise RuntimeError("type")
    if cfg.solver not in ("FDTD", "TRCWA"):
        raise RuntimeError("solver")
    if cfg.model_type not in ("nerf", "siren", "voxel"):
        raise RuntimeError("model type")
    if not cfg.TRCWA_L_grid[1][0] < cfg.TRCWA_L_grid[1][1]:
        raise RuntimeError("lattice")
    if not cfg.TRCWA_L_grid[0][0] > cfg.TRCWA_L_grid[0][1]:
        raise RuntimeError("lattice")
    for value in cfg.PER_LAYER_THICKNESS:
        if not value > 0.0:
            raise RuntimeError("thickness")
    if "FDTD_grid" in cfg.keys():
        for value in cfg.FDTD_grid:
            if not value > 0.0:
                raise RuntimeError("grid")
    for value in cfg.FDTD_source_position:
        if not value > 0.0:
            raise RuntimeError("source position")
    for value in cfg.target_transmittance_spectrum:
        if not value >= 0.0:
            raise RuntimeError("spectrum")
    for value in cfg.target_reflectance_spectrum:
        if not value >= 0.0:
            raise RuntimeError("spectrum")
    if len(cfg.PER_LAYER_THICKNESS) != cfg.N_layers and len(cfg.PER_LAYER_THICKNESS) != 1:
        raise RuntimeError("thickness count")
    if cfg.freq_distribution not in ("linear", "log"):
        raise RuntimeError("distribution")
    if len(cfg.FDTD_source_position) not in (2, 3):
        raise RuntimeError("position")
    if cfg.FDTD_source_type not in ("point", "line"):
        raise RuntimeError("source")
    if cfg.FDTD_pulse_type not in ("ricker", "hanning", "continuous"):
        raise RuntimeError("pulse")


def validate(cfg):
    keys_known(cfg)
    types_right(cfg)
    ranges_right(cfg)


def dispatch(eps_grid, cfg, validate_cfg=True):
    if validate_cfg:
        _validate_config(cfg)
    if cfg.solver == "FDTD":
        return compute_spectrum_fdtd(eps_grid, cfg)
    if cfg.solver == "TRCWA":
        return compute_spectrum_trcwa(eps_grid, cfg)
    raise NotImplementedError("solver")
