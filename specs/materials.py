"""Reference semantics: material collection and layer builder."""
import os
from glob import glob
import pandas
import torch


def material(self, name):
    return table(name, self.target_frequencies)


def table(name, target_frequencies=[1.0]):
    """permittivity of one material at the tabulated wavelength nearest to each target"""
    table = pandas.read_csv(name, delimiter="\t")
    out = []
    for freq in target_frequencies:
        row = table.iloc[(table["Wavelength"] - 1 / freq).abs().idxmin()]
        out.append([row.n ** 2 - row.k ** 2 + 2 * row.n * row.k * 1j])
    return torch.tensor(out)


def collection(self, target_frequencies, to_skip=None):
    if len(target_frequencies) == 0:
        raise ValueError("no target frequencies")
    self.target_frequencies = target_frequencies
    self.materials_folder = os.path.dirname(__file__) + "/data/"
    names = []
    tables = []
    for file in sorted(glob(self.materials_folder + "/*.csv")):
        file = file.replace("\\", "/")
        name = file.split("/")[-1].split(".csv")[0]
        if to_skip is not None and name in to_skip:
            continue
        tables.append(material(self, file))
        names.append(name)
    self.material_names = names
    self.epsilon_matrix = torch.stack(tables).squeeze(-1)
    self.N_materials = len(names)


def by_name(self, key):
    if key not in self.material_names:
        raise KeyError("unknown material")
    return self.epsilon_matrix[self.material_names.index(key)]


def builder(self, run_cfg):
    self.run_cfg = run_cfg
    self.material_collection = MaterialCollection(run_cfg.target_frequencies)


def canvas(self):
    return torch.zeros(self.run_cfg.Nx, self.run_cfg.Ny, self.run_cfg.N_freq, dtype=torch.cdouble)


def uniform(self, grid_material):
    eps = canvas(self)
    eps[:, :] = self.material_collection[grid_material]
    return eps


def square(self, grid_material, square_material, a=0.33):
    eps = uniform(self, grid_material)
    x, y = torch.meshgrid(torch.linspace(0, 1, self.run_cfg.Nx), torch.linspace(0, 1, self.run_cfg.Ny))
    inside = (x > a) & (x < 1 - a) & (y > a) & (y < 1 - a)
    eps[inside] = self.material_collection[square_material]
    return eps


def circle(self, grid_material, circle_material, radius=0.33, x_center=0.5, y_center=0.5):
    eps = uniform(self, grid_material)
    x, y = torch.meshgrid(torch.linspace(0, 1, self.run_cfg.Nx), torch.linspace(0, 1, self.run_cfg.Ny))
    inside = (x - x_center) ** 2 + (y - y_center) ** 2 < radius ** 2
    eps[inside] = self.material_collection[circle_material]
    return eps
