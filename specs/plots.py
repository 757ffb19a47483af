"""Reference semantics: what the plots show and where they are stored (style is free)."""
import numpy as np
import torch
from pathlib import Path
from matplotlib import pyplot as plt


def finish(save_path, name):
    if save_path is not None:
        plt.savefig(save_path + name)
    else:
        plt.show()


def losses(run_cfg, save_path=None):
    plt.semilogy(run_cfg.results.L1_errs)
    plt.semilogy(run_cfg.results.loss_log)
    plt.semilogy(run_cfg.results.weighted_average_log)
    plt.xlabel("Model evaluations")
    plt.ylabel("Loss")
    plt.legend(["L1", "Loss", "Weighted Average Loss"])
    finish(save_path, "/losses.png")


def cells(run_cfg):
    return torch.meshgrid((torch.linspace(-1, 1, run_cfg.Nx), torch.linspace(-1, 1, run_cfg.Ny), torch.linspace(-1, 1, run_cfg.N_layers)))


def sides(axes, run_cfg):
    axes.set_xlabel("$N_x =$" + str(run_cfg.Nx))
    axes.set_ylabel("$N_y =$" + str(run_cfg.Ny))
    layers(axes, run_cfg)


def layers(axes, run_cfg):
    axes.set_zticklabels(["L" + str(i + 1) for i in range(run_cfg.N_layers)])


def epsilon_grid(eps, run_cfg, save_path=None):
    X, Y, Z = cells(run_cfg)
    axes = plt.subplot(1)
    axes.scatter(X, Y, Z, c=torch.norm(eps, dim=3))
    sides(axes, run_cfg)
    finish(save_path, "/eps_grid.png")


def model_grid(run_cfg, save_path=None):
    eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
    X, Y, Z = cells(run_cfg)
    mean = torch.mean(eps, dim=3)
    axes = plt.subplot(1)
    axes.scatter(X, Y, Z, c=torch.sqrt(mean.real ** 2 + mean.imag ** 2))
    sides(axes, run_cfg)
    finish(save_path, "/model_grid.png")


def model_grid_per_freq(run_cfg, freq_idx=None, save_path=None):
    if freq_idx is None:
        freq_idx = list(range(min(4, run_cfg.N_freq)))
    eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
    X, Y, Z = cells(run_cfg)
    for i in range(len(freq_idx)):
        part = eps[:, :, :, freq_idx[i]]
        first, second = plt.subplot(2, len(freq_idx), i + 1), plt.subplot(2, len(freq_idx), len(freq_idx) + i + 1)
        first.scatter(X, Y, Z, c=part.real, vmin=eps.real.min(), vmax=eps.real.max())
        second.scatter(X, Y, Z, c=part.imag, vmin=eps.imag.min(), vmax=eps.imag.max())
        for axes in (first, second):
            axes.set_title("WL=" + str(round(1 / run_cfg.target_frequencies[freq_idx[i]], 2)) + "um")
            layers(axes, run_cfg)
    finish(save_path, "/model_grid_per_freq.png")


def material_grid(run_cfg, save_path=None, eps=None, plot_error=False, to_skip=None):
    if eps is None:
        eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
    X, Y, Z = cells(run_cfg)
    known = MaterialCollection(run_cfg.target_frequencies, to_skip=to_skip)
    errors, ids = _find_closest_material(eps, run_cfg, known)
    first = plt.subplot(1)
    points = first.scatter(X, Y, Z, c=ids + 1, vmin=0.5, vmax=known.N_materials + 0.5)
    plt.colorbar(points).set_ticklabels(known.material_names)
    layers(first, run_cfg)
    if plot_error:
        second = plt.subplot(2)
        second.scatter(X, Y, Z, c=errors)
        sides(second, run_cfg)
    finish(save_path, "/material_grid.png")


def spectrum_axes(axes, kind, limits):
    axes.set_xlabel("Wavelength [µm]")
    axes.set_ylabel(kind)
    axes.set_ylim(limits)


def spectra(run_cfg, save_path=None, prod_R_spectrum=None, prod_T_spectrum=None, markers=True, filename=None, ylim=[[0.0, 1.0], [0.0, 1.0]]):
    if prod_R_spectrum is None or prod_T_spectrum is None:
        eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
        prod_R_spectrum, prod_T_spectrum = compute_spectrum(eps, run_cfg)
    wl = 1 / run_cfg.target_frequencies
    left, right = plt.subplot(1), plt.subplot(2)
    left.plot(wl, run_cfg.target_reflectance_spectrum)
    left.plot(wl, prod_R_spectrum)
    left.legend(["Target Reflectance", "Produced Reflectance"])
    spectrum_axes(left, "Reflectance", ylim[0])
    left.text(0.01, 1.05, f"L1 Error = {abs(run_cfg.target_reflectance_spectrum - prod_R_spectrum).mean():.4f}")
    right.plot(wl, run_cfg.target_transmittance_spectrum)
    right.plot(wl, prod_T_spectrum)
    right.legend(["Target Transmittance", "Produced Transmittance"])
    spectrum_axes(right, "Transmittance", ylim[1])
    right.text(0.01, 1.05, f"L1 Error = {abs(run_cfg.target_transmittance_spectrum - prod_T_spectrum).mean():.4f}")
    finish(save_path, "/spectra_comparison.png" if filename is None else "/" + filename + ".png")


def spectrum(run_cfg, R_spectrum, T_spectrum, markers=True, save_path=None, filename=None, show_absorption=False):
    if "target_frequencies" not in run_cfg.keys():
        run_cfg.target_frequencies = compute_target_frequencies(
            run_cfg.physical_wavelength_range[0], run_cfg.physical_wavelength_range[1], run_cfg.N_freq, run_cfg.freq_distribution)
    wl = 1 / run_cfg.target_frequencies
    plt.subplot(1).plot(wl, R_spectrum)
    plt.subplot(1).legend(["Produced Reflectance", "Target Reflectance"])
    spectrum_axes(plt.subplot(1), "Reflectance", [0.0, 1.0])
    plt.subplot(2).plot(wl, T_spectrum)
    plt.subplot(2).legend(["Produced Transmittance", "Target Transmittance"])
    spectrum_axes(plt.subplot(2), "Transmittance", [0.0, 1.0])
    if show_absorption:
        plt.subplot(3).plot(wl, np.ones_like(R_spectrum) - (T_spectrum + R_spectrum))
        plt.subplot(3).legend(["Produced Absorptance", "Target Absorptance"])
        spectrum_axes(plt.subplot(3), "Absorptance", [0.0, 1.0])
    finish(save_path, "/spectrum.png" if filename is None else "/" + filename + ".png")


def eps_per_point(run_cfg, compare_to_material=None, save_path=None, legend=True, file_id=None):
    if "eps" in run_cfg.keys():
        eps = run_cfg.eps
    else:
        eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
    known = MaterialCollection(run_cfg.target_frequencies)
    wl = 1 / run_cfg.target_frequencies
    for k, part in ((1, "Real"), (2, "Imaginary")):
        plt.subplot(k).set_xlabel("Wavelength [µm]")
        plt.subplot(k).set_ylabel("Permittivity - " + part + " Part")
    for x in range(eps.shape[0]):
        for y in range(eps.shape[1]):
            for layer in range(eps.shape[2]):
                plt.subplot(1).plot(wl, eps[x, y, layer].real)
                plt.subplot(2).plot(wl, eps[x, y, layer].imag)
    if legend:
        plt.subplot(1).legend([f"Layer {layer} - (x,y)=({x},{y})" for x in range(eps.shape[0]) for y in range(eps.shape[1]) for layer in range(eps.shape[2])])
    if compare_to_material is not None:
        names = [compare_to_material] if type(compare_to_material) is str else compare_to_material
        for name in names:
            plt.subplot(1).plot(wl, known[name].real)
            plt.subplot(2).plot(wl, known[name].imag)
            plt.subplot(1).text(wl.max(), known[name].real[0], " " + name)
            plt.subplot(2).text(wl.max(), known[name].imag[0], " " + name)
    else:
        _, ids = _find_closest_material(eps, run_cfg, known)
        for i in torch.unique(ids):
            plt.subplot(1).plot(wl, known[known.material_names[i]].real)
            plt.subplot(2).plot(wl, known[known.material_names[i]].imag)
            plt.subplot(1).text(wl.max(), known[known.material_names[i]].real[0], " " + known.material_names[i])
            plt.subplot(2).text(wl.max(), known[known.material_names[i]].imag[0], " " + known.material_names[i])
    finish(save_path, "/eps_per_points" + str(file_id) + ".png")


def everything(run_cfg, save_path):
    Path(save_path).mkdir(parents=True, exist_ok=True)
    plot_spectra(run_cfg, save_path=save_path)
    plot_losses(run_cfg, save_path=save_path)
    plot_model_grid(run_cfg, save_path=save_path)
    plot_model_grid_per_freq(run_cfg, save_path=save_path)
    plot_material_grid(run_cfg, save_path=save_path)
    plot_eps_per_point(run_cfg, save_path=save_path)
