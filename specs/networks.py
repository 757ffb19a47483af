"""Reference semantics: the networks behind a design."""
import numpy as np
import torch
from torch import nn


def create(run_cfg):
    if run_cfg.model_type == "nerf":
        return NERF(in_features=run_cfg.encoding_dim, out_features=run_cfg.out_features, skip=[4], n_neurons=run_cfg.n_neurons, activation=nn.Sigmoid(), hidden_layers=run_cfg.hidden_layers)
    if run_cfg.model_type == "siren":
        return Siren(in_features=run_cfg.encoding_dim, hidden_features=run_cfg.n_neurons, hidden_layers=run_cfg.hidden_layers, out_features=run_cfg.out_features, outermost_linear=True,
                     outermost_activation=nn.Sigmoid(), first_omega_0=run_cfg.siren_omega, hidden_omega_0=run_cfg.siren_omega)
    if run_cfg.model_type == "voxel":
        return Voxel(run_cfg)
    raise NotImplementedError("unknown model type")


def sine_layer(self, in_features, out_features, bias=True, is_first=False, omega_0=30):
    self.omega_0 = omega_0
    self.is_first = is_first
    self.in_features = in_features
    self.linear = nn.Linear(in_features, out_features, bias=bias)
    if is_first:
        bound = 1 / in_features
    else:
        bound = np.sqrt(6 / in_features) / omega_0
    self.linear.weight.uniform_(-bound, bound)


def sine_forward(self, input):
    return torch.sin(self.omega_0 * self.linear(input))


def sine_intermediate(self, input):
    x = self.omega_0 * self.linear(input)
    return torch.sin(x), x


def siren(self, in_features, hidden_features, hidden_layers, out_features, outermost_linear=False, outermost_activation=AbsLayer(), first_omega_0=30, hidden_omega_0=30.0):
    layers = [SineLayer(in_features, hidden_features, is_first=True, omega_0=first_omega_0)]
    for i in range(hidden_layers):
        layers.append(SineLayer(hidden_features, hidden_features, is_first=False, omega_0=hidden_omega_0))
    if outermost_linear:
        last = nn.Linear(hidden_features, out_features)
        bound = np.sqrt(6 / hidden_features) / hidden_omega_0
        last.weight.uniform_(-bound, bound)
        layers.append(last)
        layers.append(outermost_activation)
    else:
        layers.append(SineLayer(hidden_features, out_features, is_first=False, omega_0=hidden_omega_0))
    self.net = nn.Sequential(*layers)


def siren_forward(self, coords):
    return self.net(coords)


def nerf_layer(self, in_features, out_features, bias=True, activation=nn.ReLU()):
    self.linear = nn.Linear(in_features, out_features, bias=bias)
    nn.init.xavier_uniform_(self.linear.weight)
    nn.init.uniform_(self.linear.bias.data, 0.0, 0.0)
    self.activation = activation


def nerf_layer_forward(self, input):
    return self.activation(self.linear(input))


def nerf(self, in_features, out_features, skip=[], n_neurons=100, activation=nn.Sigmoid(), hidden_layers=8):
    self.skip = skip
    self.net = nn.ModuleList()
    self.net.append(NERFLayer(in_features, n_neurons))
    for i in range(hidden_layers):
        if i in skip:
            self.net.append(NERFLayer(n_neurons + in_features, n_neurons))
        else:
            self.net.append(NERFLayer(n_neurons, n_neurons))
    self.net.append(NERFLayer(n_neurons, out_features, activation=activation))


def nerf_forward(self, x):
    out = self.net[0].forward(x)
    for i in range(1, len(self.net)):
        out = self.net[i].forward(out)
        if i in self.skip and i < len(self.net) - 2:
            out = torch.cat([out, x], dim=1)
    return out


def voxel(self, cfg):
    if cfg.type != "regression":
        raise AssertionError("regression only")
    w = torch.rand((cfg.Nx, cfg.Ny, cfg.N_layers, cfg.N_freq), dtype=torch.cfloat)
    w.real *= cfg.real_max_eps - cfg.real_min_eps
    w.real += cfg.real_min_eps
    w.imag *= cfg.imag_max_eps - cfg.imag_min_eps
    w.imag += cfg.imag_min_eps
    self.weights = nn.Parameter(w)


def voxel_forward(self):
    return self.weights


def magnitude(self, x):
    return torch.abs(x)
