"""Reference semantics: storing runs, seeding, the default configuration."""
import os
import pickle
from datetime import datetime
from pathlib import Path
import numpy as np
import toml
import torch
from dotmap import DotMap


def save(run_cfg, subfolder=""):
    folder = "../results/" + subfolder + "/"
    Path(folder).mkdir(parents=True, exist_ok=True)
    filename = folder + run_cfg.name + "_" + datetime.now().strftime("%d-%m-%Y %H-%M-%S") + "_run.pk"
    with open(filename, "wb") as handle:
        pickle.dump(run_cfg, handle)


def load(filename):
    with open(filename, "rb") as handle:
        return pickle.load(handle)


def seed_all(seed=42):
    torch.manual_seed(seed)
    np.random.seed(seed)


def default_cfg():
    with open(os.path.join(os.path.dirname(__file__), "resources", "default_config.toml")) as f:
        return DotMap(toml.load(f), _dynamic=False)
