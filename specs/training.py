"""Reference semantics: training loop."""
from collections import deque
from copy import deepcopy
import numpy as np
import torch
from dotmap import DotMap


def prepare(run_cfg):
    _validate_config(run_cfg)
    if run_cfg.use_gpu:
        torch.set_default_tensor_type(torch.cuda.FloatTensor)
    run_cfg.target_frequencies = compute_target_frequencies(
        run_cfg.physical_wavelength_range[0], run_cfg.physical_wavelength_range[1], run_cfg.N_freq, run_cfg.freq_distribution)
    if run_cfg.type == "classification":
        run_cfg.material_collection = MaterialCollection(run_cfg.target_frequencies)
        run_cfg.N_materials = run_cfg.material_collection.N_materials
        run_cfg.out_features = run_cfg.N_materials
    else:
        run_cfg.out_features = 2
    fix_random_seeds(run_cfg.seed)
    if "model" not in run_cfg.keys() or run_cfg.model is None:
        run_cfg.model = init_network(run_cfg)
    optimizer = torch.optim.Adam(run_cfg.model.parameters(), lr=run_cfg.learning_rate)
    scheduler = torch.optim.lr_scheduler.ReduceLROnPlateau(optimizer, factor=0.66, patience=500, min_lr=1e-6, verbose=True)
    return optimizer, scheduler


def train(run_cfg):
    optimizer, scheduler = prepare(run_cfg)
    run_cfg.results = DotMap()
    run_cfg.results.loss_log = []
    run_cfg.results.weighted_average_log = []
    run_cfg.results.L1_errs = []
    recent = deque([], maxlen=20)
    best = np.inf
    run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
    for it in range(run_cfg.iterations):
        eps, likelihoods = model_to_eps_grid(run_cfg.model, run_cfg)
        try:
            R, T = compute_spectrum(eps, run_cfg, validate_cfg=False)
        except ValueError:
            run_cfg.model.load_state_dict(run_cfg.best_model_state_dict)
            optimizer.param_groups[0]["lr"] *= 0.5
            continue
        loss, renormalized = _spectrum_loss_fn(
            R, T, run_cfg.target_reflectance_spectrum, run_cfg.target_transmittance_spectrum, run_cfg.target_frequencies, run_cfg.L, run_cfg.absorption_loss)
        l1, _ = _spectrum_loss_fn(
            R, T, run_cfg.target_reflectance_spectrum, run_cfg.target_transmittance_spectrum, run_cfg.target_frequencies, 1, False)
        if run_cfg.type == "classification" and run_cfg.use_regularization_loss:
            loss = loss + run_cfg.reg_loss_weight * _likelihood_regularization_loss_fn(likelihoods, run_cfg.L)
        if loss < best:
            best = loss
            if not renormalized:
                run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
        recent.append(loss.item())
        run_cfg.results.weighted_average_log.append(np.mean(recent))
        run_cfg.results.loss_log.append(loss.item())
        run_cfg.results.L1_errs.append(l1.item())
        optimizer.zero_grad()
        loss.backward()
        optimizer.step()
        scheduler.step(loss.item())
    run_cfg.model.load_state_dict(run_cfg.best_model_state_dict)
    return run_cfg


def fix_seeds(seed=42):
    torch.manual_seed(seed)
    np.random.seed(seed)
