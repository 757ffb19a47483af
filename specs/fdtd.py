"""Reference semantics: Yee-grid time stepping, boundaries, objects, sources, detectors."""
import math
import os
import numpy
from numpy import savez
import torch

C0 = 299792458.0
PI = torch.tensor(3.14159265358979323846264338327950288)
ETA = 4e-7 * PI * C0


# ------------------------------------------------------------------ curls
def forward_curl(E):
    c = torch.zeros(E.shape)
    c[:, :-1, :, 0] += E[:, 1:, :, 2] - E[:, :-1, :, 2]
    c[:, :, :-1, 0] -= E[:, :, 1:, 1] - E[:, :, :-1, 1]
    c[:, :, :-1, 1] += E[:, :, 1:, 0] - E[:, :, :-1, 0]
    c[:-1, :, :, 1] -= E[1:, :, :, 2] - E[:-1, :, :, 2]
    c[:-1, :, :, 2] += E[1:, :, :, 1] - E[:-1, :, :, 1]
    c[:, :-1, :, 2] -= E[:, 1:, :, 0] - E[:, :-1, :, 0]
    return c


def backward_curl(H):
    c = torch.zeros(H.shape)
    c[:, 1:, :, 0] += H[:, 1:, :, 2] - H[:, :-1, :, 2]
    c[:, :, 1:, 0] -= H[:, :, 1:, 1] - H[:, :, :-1, 1]
    c[:, :, 1:, 1] += H[:, :, 1:, 0] - H[:, :, :-1, 0]
    c[1:, :, :, 1] -= H[1:, :, :, 2] - H[:-1, :, :, 2]
    c[1:, :, :, 2] += H[1:, :, :, 1] - H[:-1, :, :, 1]
    c[:, 1:, :, 2] -= H[:, 1:, :, 0] - H[:, :-1, :, 0]
    return c


# ------------------------------------------------------------------ grid
def grid_init(self, shape, grid_spacing=155e-9, permittivity=1.0, permeability=1.0, courant_number=None):
    self.grid_spacing = float(grid_spacing)
    self.Nx, self.Ny, self.Nz = self._handle_tuple(shape)
    self.D = int(self.Nx > 1) + int(self.Ny > 1) + int(self.Nz > 1)
    limit = float(self.D) ** (-0.5)
    if courant_number is None:
        self.courant_number = 0.99 * limit
    elif courant_number > limit:
        raise ValueError("courant number")
    else:
        self.courant_number = float(courant_number)
    self.time_step = self.courant_number * self.grid_spacing / C0
    n = (self.Nx, self.Ny, self.Nz, 3)
    self.E = torch.zeros(n)
    self.H = torch.zeros(n)
    self.absorption_factor = torch.zeros(n)
    if is_array(permittivity) and len(permittivity.shape) == 3:
        permittivity = permittivity[:, :, :, None]
    self.inverse_permittivity = torch.ones(n) / float(permittivity)
    if is_array(permeability) and len(permeability.shape) == 3:
        permeability = permeability[:, :, :, None]
    self.inverse_permeability = torch.ones(n) / float(permeability)
    self.time_steps_passed = 0
    self.sources = []
    self.boundaries = []
    self.detectors = []
    self.objects = []
    self.folder = None


def is_array(v):
    return isinstance(v, numpy.ndarray) or torch.is_tensor(v)


def grid_distance(self, distance):
    if isinstance(distance, int):
        return distance
    return int(float(distance) / self.grid_spacing + 0.5)


def grid_time(self, time):
    if isinstance(time, int):
        return time
    return int(float(time) / self.time_step + 0.5)


def grid_tuple(self, shape):
    if len(shape) != 3:
        raise ValueError("shape")
    return self._handle_distance(shape[0]), self._handle_distance(shape[1]), self._handle_distance(shape[2])


def grid_slice(self, s):
    a = self._handle_distance(s.start) if isinstance(s.start, float) else s.start
    b = self._handle_distance(s.stop) if isinstance(s.stop, float) else s.stop
    d = self._handle_distance(s.step) if isinstance(s.step, float) else s.step
    return slice(a, b, d)


def grid_x(self):
    return self.Nx * self.grid_spacing


def grid_y(self):
    return self.Ny * self.grid_spacing


def grid_z(self):
    return self.Nz * self.grid_spacing


def grid_shape(self):
    return (self.Nx, self.Ny, self.Nz)


def grid_passed(self):
    return self.time_steps_passed * self.time_step


def grid_run(self, total_time, progress_bar=True):
    n = total_time
    if isinstance(total_time, float):
        n = total_time / self.time_step
    for _ in range(int(n)):
        self.step()


def grid_step(self):
    self.update_E()
    self.update_H()
    self.time_steps_passed += 1


def grid_update_E(self):
    for b in self.boundaries:
        b.update_phi_E()
    c = curl_H(self.H)
    loss = self.absorption_factor
    self.E *= (1 - loss) / (1 + loss)
    self.E += self.courant_number * self.inverse_permittivity * c / (1 + loss)
    for o in self.objects:
        o.update_H(c)
    for b in self.boundaries:
        b.update_E()
    for s in self.sources:
        s.update_E()
    for d in self.detectors:
        d.detect_E()


def grid_update_H(self):
    for b in self.boundaries:
        b.update_phi_H()
    c = curl_E(self.E)
    self.H -= self.courant_number * self.inverse_permeability * c
    for o in self.objects:
        o.update_H(c)
    for b in self.boundaries:
        b.update_H()
    for s in self.sources:
        s.update_H()
    for d in self.detectors:
        d.detect_H()


def grid_reset(self):
    self.H *= 0.0
    self.E *= 0.0
    self.time_steps_passed *= 0


def grid_place(self, key, attr):
    if not isinstance(key, tuple):
        x, y, z = key, slice(None), slice(None)
    elif len(key) == 1:
        x, y, z = key[0], slice(None), slice(None)
    elif len(key) == 2:
        x, y, z = key[0], key[1], slice(None)
    elif len(key) == 3:
        x, y, z = key[0], key[1], key[2]
    else:
        raise KeyError("indices")
    attr._register_grid(grid=self, x=self._handle_single_key(x), y=self._handle_single_key(y), z=self._handle_single_key(z))


def grid_key(self, key):
    try:
        len(key)
        return [self._handle_distance(k) for k in key]
    except TypeError:
        if isinstance(key, slice):
            return self._handle_slice(key)
        return [self._handle_distance(key)]


def register_name(self, grid):
    if self.name is not None:
        if hasattr(grid, self.name):
            raise ValueError("name")
        setattr(grid, self.name, self)


# ------------------------------------------------------------------ boundaries
def boundary_init(self, name=None):
    self.grid = None
    self.name = name


def boundary_register(self, grid, x, y, z):
    self.grid = grid
    self.grid.boundaries.append(self)
    self.x = self._handle_slice(x)
    self.y = self._handle_slice(y)
    self.z = self._handle_slice(z)
    register_name(self, grid)


def boundary_slice(self, s):
    if isinstance(s, list):
        if len(s) > 1:
            raise ValueError("index")
        return s[0]
    if isinstance(s, slice):
        if s.start is not None and s.stop is not None and (s.start == s.stop or abs(s.start - s.stop) == 1):
            return s.start
        return s
    raise ValueError("index")


def nothing(self):
    pass


def periodic_register(self, grid, x, y, z):
    Boundary._register_grid(self, grid=grid, x=x, y=y, z=z)
    if self.x == 0 or self.x == -1:
        self.__class__ = _PeriodicBoundaryX
        if hasattr(grid, "_xlow_boundary") or hasattr(grid, "_xhigh_boundary"):
            raise AttributeError("taken")
        setattr(grid, "_xlow_boundary", self)
        setattr(grid, "_xhigh_boundary", self)
    elif self.y == 0 or self.y == -1:
        self.__class__ = _PeriodicBoundaryY
        if hasattr(grid, "_ylow_boundary") or hasattr(grid, "_yhigh_boundary"):
            raise AttributeError("taken")
        setattr(grid, "_ylow_boundary", self)
        setattr(grid, "_yhigh_boundary", self)
    elif self.z == 0 or self.z == -1:
        self.__class__ = _PeriodicBoundaryZ
        if hasattr(grid, "_zlow_boundary") or hasattr(grid, "_zhigh_boundary"):
            raise AttributeError("taken")
        setattr(grid, "_zlow_boundary", self)
        setattr(grid, "_zhigh_boundary", self)
    else:
        raise IndexError("place")


def px_E(self):
    self.grid.E[0, :, :, :] = self.grid.E[-1, :, :, :]


def px_H(self):
    self.grid.H[-1, :, :, :] = self.grid.H[0, :, :, :]


def py_E(self):
    self.grid.E[:, 0, :, :] = self.grid.E[:, -1, :, :]


def py_H(self):
    self.grid.H[:, -1, :, :] = self.grid.H[:, 0, :, :]


def pz_E(self):
    self.grid.E[:, :, 0, :] = self.grid.E[:, :, -1, :]


def pz_H(self):
    self.grid.H[:, :, -1, :] = self.grid.H[:, :, 0, :]


def pml_init(self, a=1e-8, name=None):
    self.grid = None
    self.name = name
    self.k = 1.0
    self.thickness = 0
    self.a = a


def pml_sigma(self, vect):
    return 40 * vect ** 3 / (self.thickness + 1) ** 4


def at_low(s):
    return (s.start is None or s.start == 0) and s.stop is not None and s.stop > 0


def at_high(s):
    return s.start is not None and s.stop is None and s.start < 0


def pml_register(self, grid, x, y, z):
    Boundary._register_grid(self, grid=grid, x=x, y=y, z=z)
    if at_low(self.x):
        self.__class__ = _PMLXlow
        if hasattr(grid, "_xlow_boundary"):
            raise AttributeError("taken")
        setattr(grid, "_xlow_boundary", self)
        self._calculate_parameters(thickness=self.x.stop)
    elif at_high(self.x):
        self.__class__ = _PMLXhigh
        if hasattr(grid, "_xhigh_boundary"):
            raise AttributeError("taken")
        setattr(grid, "_xhigh_boundary", self)
        self._calculate_parameters(thickness=-self.x.start)
    elif at_low(self.y):
        self.__class__ = _PMLYlow
        if hasattr(grid, "_ylow_boundary"):
            raise AttributeError("taken")
        setattr(grid, "_ylow_boundary", self)
        self._calculate_parameters(thickness=self.y.stop)
    elif at_high(self.y):
        self.__class__ = _PMLYhigh
        if hasattr(grid, "_yhigh_boundary"):
            raise AttributeError("taken")
        setattr(grid, "_yhigh_boundary", self)
        self._calculate_parameters(thickness=-self.y.start)
    elif at_low(self.z):
        self.__class__ = _PMLZlow
        if hasattr(grid, "_zlow_boundary"):
            raise AttributeError("taken")
        setattr(grid, "_zlow_boundary", self)
        self._calculate_parameters(thickness=self.z.stop)
    elif at_high(self.z):
        self.__class__ = _PMLZhigh
        if hasattr(grid, "_zhigh_boundary"):
            raise AttributeError("taken")
        setattr(grid, "_zhigh_boundary", self)
        self._calculate_parameters(thickness=-self.z.start)
    else:
        raise IndexError("place")


def pml_slice(self, s):
    if isinstance(s, list):
        raise ValueError("index")
    if isinstance(s, slice):
        return s
    raise ValueError("index")


def pml_parameters(self, thickness=10):
    self.thickness = thickness
    self._set_locations()
    self._set_shape()
    self._set_sigmaE()
    self._set_sigmaH()
    nx, ny, nz = self.shape
    n = (nx, ny, nz, 3)
    self.phi_E = torch.zeros(n)
    self.phi_H = torch.zeros(n)
    self.psi_Ex = torch.zeros(n)
    self.psi_Ey = torch.zeros(n)
    self.psi_Ez = torch.zeros(n)
    self.psi_Hx = torch.zeros(n)
    self.psi_Hy = torch.zeros(n)
    self.psi_Hz = torch.zeros(n)
    dt = self.grid.courant_number
    self.bE = torch.exp(-(self.sigmaE / self.k + self.a) * dt)
    self.cE = (self.bE - 1.0) * self.sigmaE / (self.sigmaE * self.k + self.a * self.k ** 2)
    self.bH = torch.exp(-(self.sigmaH / self.k + self.a) * dt)
    self.cH = (self.bH - 1.0) * self.sigmaH / (self.sigmaH * self.k + self.a * self.k ** 2)


def pml_E(self):
    self.grid.E[self.loc] += self.grid.courant_number * self.grid.inverse_permittivity[self.loc] * (self.phi_E + 1e-16)


def pml_H(self):
    self.grid.H[self.loc] -= self.grid.courant_number * self.grid.inverse_permeability[self.loc] * self.phi_H


def pml_phi_E(self):
    self.psi_Ex *= self.bE
    self.psi_Ey *= self.bE
    self.psi_Ez *= self.bE
    c = self.cE
    Hx, Hy, Hz = self.grid.H[self.locx], self.grid.H[self.locy], self.grid.H[self.locz]
    self.psi_Ex[:, 1:, :, 1] += (Hz[:, 1:, :] - Hz[:, :-1, :]) * c[:, 1:, :, 1]
    self.psi_Ex[:, :, 1:, 2] += (Hy[:, :, 1:] - Hy[:, :, :-1]) * c[:, :, 1:, 2]
    self.psi_Ey[:, :, 1:, 2] += (Hx[:, :, 1:] - Hx[:, :, :-1]) * c[:, :, 1:, 2]
    self.psi_Ey[1:, :, :, 0] += (Hz[1:, :, :] - Hz[:-1, :, :]) * c[1:, :, :, 0]
    self.psi_Ez[1:, :, :, 0] += (Hy[1:, :, :] - Hy[:-1, :, :]) * c[1:, :, :, 0]
    self.psi_Ez[:, 1:, :, 1] += (Hx[:, 1:, :] - Hx[:, :-1, :]) * c[:, 1:, :, 1]
    self.phi_E[..., 0] = self.psi_Ex[..., 1] - self.psi_Ex[..., 2]
    self.phi_E[..., 1] = self.psi_Ey[..., 2] - self.psi_Ey[..., 0]
    self.phi_E[..., 2] = self.psi_Ez[..., 0] - self.psi_Ez[..., 1]


def pml_phi_H(self):
    self.psi_Hx *= self.bH
    self.psi_Hy *= self.bH
    self.psi_Hz *= self.bH
    c = self.cH
    Ex, Ey, Ez = self.grid.E[self.locx], self.grid.E[self.locy], self.grid.E[self.locz]
    self.psi_Hx[:, :-1, :, 1] += (Ez[:, 1:, :] - Ez[:, :-1, :]) * c[:, :-1, :, 1]
    self.psi_Hx[:, :, :-1, 2] += (Ey[:, :, 1:] - Ey[:, :, :-1]) * c[:, :, :-1, 2]
    self.psi_Hy[:, :, :-1, 2] += (Ex[:, :, 1:] - Ex[:, :, :-1]) * c[:, :, :-1, 2]
    self.psi_Hy[:-1, :, :, 0] += (Ez[1:, :, :] - Ez[:-1, :, :]) * c[:-1, :, :, 0]
    self.psi_Hz[:-1, :, :, 0] += (Ey[1:, :, :] - Ey[:-1, :, :]) * c[:-1, :, :, 0]
    self.psi_Hz[:, :-1, :, 1] += (Ex[:, 1:, :] - Ex[:, :-1, :]) * c[:, :-1, :, 1]
    self.phi_H[..., 0] = self.psi_Hx[..., 1] - self.psi_Hx[..., 2]
    self.phi_H[..., 1] = self.psi_Hy[..., 2] - self.psi_Hy[..., 0]
    self.phi_H[..., 2] = self.psi_Hz[..., 0] - self.psi_Hz[..., 1]


def low_profile(self, half):
    if half:
        return self._sigma(torch.arange(self.thickness - 0.5, -0.5, -1.0))
    return self._sigma(torch.arange(self.thickness - 1.0, 0, -1.0))


def high_profile(self, half):
    if half:
        return self._sigma(torch.arange(0.5, self.thickness + 0.5, 1.0))
    return self._sigma(torch.arange(1.0, self.thickness, 1.0))


def xlow(self):
    s = slice(None, self.thickness)
    self.loc = (s, slice(None), slice(None), slice(None))
    self.locx, self.locy, self.locz = (s, slice(None), slice(None), 0), (s, slice(None), slice(None), 1), (s, slice(None), slice(None), 2)


def xhigh(self):
    s = slice(-self.thickness, None)
    self.loc = (s, slice(None), slice(None), slice(None))
    self.locx, self.locy, self.locz = (s, slice(None), slice(None), 0), (s, slice(None), slice(None), 1), (s, slice(None), slice(None), 2)


def ylow(self):
    s = slice(None, self.thickness)
    self.loc = (slice(None), s, slice(None))
    self.locx, self.locy, self.locz = (slice(None), s, slice(None), 0), (slice(None), s, slice(None), 1), (slice(None), s, slice(None), 2)


def yhigh(self):
    s = slice(-self.thickness, None)
    self.loc = (slice(None), s, slice(None), slice(None))
    self.locx, self.locy, self.locz = (slice(None), s, slice(None), 0), (slice(None), s, slice(None), 1), (slice(None), s, slice(None), 2)


def zlow(self):
    s = slice(None, self.thickness)
    self.loc = (slice(None), slice(None), s, slice(None))
    self.locx, self.locy, self.locz = (slice(None), slice(None), s, 0), (slice(None), slice(None), s, 1), (slice(None), slice(None), s, 2)


def zhigh(self):
    s = slice(-self.thickness, None)
    self.loc = (slice(None), slice(None), s, slice(None))
    self.locx, self.locy, self.locz = (slice(None), slice(None), s, 0), (slice(None), slice(None), s, 1), (slice(None), slice(None), s, 2)


def xshape(self):
    self.shape = (self.thickness, self.grid.Ny, self.grid.Nz)


def yshape(self):
    self.shape = (self.grid.Nx, self.thickness, self.grid.Nz)


def zshape(self):
    self.shape = (self.grid.Nx, self.grid.Ny, self.thickness)


def x_profile_E(self, s):
    self.sigmaE = torch.zeros((self.thickness, self.grid.Ny, self.grid.Nz, 3))
    self.sigmaE[:, :, :, 0] = s[:, None, None]


def x_profile_H(self, s):
    self.sigmaH = torch.zeros((self.thickness, self.grid.Ny, self.grid.Nz, 3))
    self.sigmaH[:-1, :, :, 0] = s[:, None, None]


def y_profile_E(self, s):
    self.sigmaE = torch.zeros((self.grid.Nx, self.thickness, self.grid.Nz, 3))
    self.sigmaE[:, :, :, 1] = s[None, :, None]


def y_profile_H(self, s):
    self.sigmaH = torch.zeros((self.grid.Nx, self.thickness, self.grid.Nz, 3))
    self.sigmaH[:, :-1, :, 1] = s[None, :, None]


def z_profile_E(self, s):
    self.sigmaE = torch.zeros((self.grid.Nx, self.grid.Ny, self.thickness, 3))
    self.sigmaE[:, :, :, 2] = s[None, None, :]


def z_profile_H(self, s):
    self.sigmaH = torch.zeros((self.grid.Nx, self.grid.Ny, self.thickness, 3))
    self.sigmaH[:, :, :-1, 2] = s[None, None, :]


def xlow_E(self):
    x_profile_E(self, low_profile(self, True))


def xlow_H(self):
    x_profile_H(self, low_profile(self, False))


def xhigh_E(self):
    x_profile_E(self, high_profile(self, True))


def xhigh_H(self):
    x_profile_H(self, high_profile(self, False))


def ylow_E(self):
    y_profile_E(self, low_profile(self, True))


def ylow_H(self):
    y_profile_H(self, low_profile(self, False))


def yhigh_E(self):
    y_profile_E(self, high_profile(self, True))


def yhigh_H(self):
    y_profile_H(self, high_profile(self, False))


def zlow_E(self):
    z_profile_E(self, low_profile(self, True))


def zlow_H(self):
    z_profile_H(self, low_profile(self, False))


def zhigh_E(self):
    z_profile_E(self, high_profile(self, True))


def zhigh_H(self):
    z_profile_H(self, high_profile(self, False))


def domain_border(grid, border_cells=5):
    if grid.Nx < border_cells * 2 or grid.Ny < border_cells * 2 or grid.Nz < border_cells * 2:
        raise IndexError("size")
    b = border_cells
    grid[:, :, 0:b] = PML()
    grid[:, :, -b:] = PML()
    grid[0:b, :, b:-b] = PML()
    grid[-b:, :, b:-b] = PML()
    grid[b:-b, 0:b, b:-b] = PML()
    grid[b:-b, -b:, b:-b] = PML()


# ------------------------------------------------------------------ objects
def object_init(self, permittivity, name=None):
    self.grid = None
    self.name = name
    self.permittivity = permittivity


def object_register(self, grid, x, y, z):
    self.grid = grid
    grid.objects.append(self)
    register_name(self, grid)
    self.x = self._handle_slice(x, max_index=grid.Nx)
    self.y = self._handle_slice(y, max_index=grid.Ny)
    self.z = self._handle_slice(z, max_index=grid.Nz)
    self.Nx = abs(self.x.stop - self.x.start)
    self.Ny = abs(self.y.stop - self.y.start)
    self.Nz = abs(self.z.stop - self.z.start)
    if is_array(self.permittivity) and len(self.permittivity.shape) == 3:
        self.permittivity = self.permittivity[:, :, :, None]
    inv = torch.ones((self.Nx, self.Ny, self.Nz, 3)) / self.permittivity
    # the outermost cell of each axis keeps the background value of that component
    if self.Nx > 1:
        inv[-1, :, :, 0] = grid.inverse_permittivity[-1, self.y, self.z, 0]
    if self.Ny > 1:
        inv[:, -1, :, 1] = grid.inverse_permittivity[self.x, -1, self.z, 1]
    if self.Nz > 1:
        inv[:, :, -1, 2] = grid.inverse_permittivity[self.x, self.y, -1, 2]
    self.inverse_permittivity = inv
    grid.inverse_permittivity[self.x, self.y, self.z] = inv


def object_slice(self, s, max_index=None):
    if isinstance(s, list):
        if len(s) != 1:
            raise IndexError("single index")
        return slice(s[0], s[0] + 1, None)
    if not isinstance(s, slice):
        raise ValueError("index")
    if s.step is not None and s.step != 1:
        raise IndexError("step")
    a = 0 if s.start is None else s.start
    if a < 0:
        a = max_index + a
    b = max_index if s.stop is None else s.stop
    if b < 0:
        b = max_index + b
    return slice(a, b, None)


def object_E(self, curl_H):
    at = (self.x, self.y, self.z)
    self.grid.E[at] += self.grid.courant_number * self.inverse_permittivity * curl_H[at]


def absorbing_init(self, permittivity, conductivity, name=None):
    self.grid = None
    self.name = name
    self.permittivity = permittivity
    self.conductivity = conductivity


def absorbing_register(self, grid, x=None, y=None, z=None):
    Object._register_grid(self, grid=grid, x=x, y=y, z=z)
    c = torch.as_tensor(self.conductivity)
    while c.ndim < self.inverse_permittivity.ndim:
        c = c[..., None]
    self.conductivity = torch.broadcast_to(c, self.inverse_permittivity.shape)
    self.absorption_factor = 0.5 * grid.courant_number * self.inverse_permittivity * self.conductivity * grid.grid_spacing * ETA
    grid.absorption_factor[x, y, z, :] = self.absorption_factor


def absorbing_register_own(self, grid, x=None, y=None, z=None):
    Object._register_grid(self, grid=grid, x=x, y=y, z=z)
    c = torch.as_tensor(self.conductivity)
    while c.ndim < self.inverse_permittivity.ndim:
        c = c[..., None]
    self.conductivity = torch.broadcast_to(c, self.inverse_permittivity.shape)
    self.absorption_factor = 0.5 * grid.courant_number * self.inverse_permittivity * self.conductivity * grid.grid_spacing * ETA
    grid.absorption_factor[self.x, self.y, self.z, :] = self.absorption_factor


def ignore(self, curl):
    pass


def refuse(self, grid, x=None, y=None, z=None):
    raise NotImplementedError("anisotropic")


# ------------------------------------------------------------------ detectors
def detector_init(self, name=None):
    self.grid = None
    self.E = []
    self.H = []
    self.name = name


def detector_register(self, grid, x, y, z):
    self.grid = grid
    grid.detectors.append(self)
    register_name(self, grid)
    self.x, self.y, self.z = self._handle_slices(x, y, z)


def axis_points(a, b, n):
    """n equidistant integer positions from a (included) to b (excluded)"""
    step = (b - a) / float(n)
    if step == 0:
        return [v.item() for v in torch.tensor([a] * n, dtype=torch.int64)]
    return [v.item() for v in torch.tensor(torch.arange(a, b, step), dtype=torch.int64)]


def widen(s):
    return slice(s[0], s[-1], None) if isinstance(s, list) else s


def bounds(s, n):
    return (0 if s.start is None else s.start), (n if s.stop is None else s.stop)


def line_positions(self, x, y, z):
    if isinstance(x, list) and isinstance(y, list) and isinstance(z, list):
        if not (len(x) == len(y) and len(y) == len(z)):
            raise IndexError("lengths")
        return x, y, z
    x0, x1 = bounds(widen(x), self.grid.Nx)
    y0, y1 = bounds(widen(y), self.grid.Ny)
    z0, z1 = bounds(widen(z), self.grid.Nz)
    n = max(abs(x1 - x0), abs(y1 - y0), abs(z1 - z0))
    return axis_points(x0, x1, n), axis_points(y0, y1, n), axis_points(z0, z1, n)


def block_positions(self, x, y, z):
    if isinstance(x, list) and isinstance(y, list) and isinstance(z, list):
        if not (len(x) == len(y) and len(y) == len(z)):
            raise IndexError("lengths")
        return x, y, z
    x0, x1 = bounds(widen(x), self.grid.Nx)
    y0, y1 = bounds(widen(y), self.grid.Ny)
    z0, z1 = bounds(widen(z), self.grid.Nz)
    return ([v.item() for v in torch.arange(x0, x1 + 1)], [v.item() for v in torch.arange(y0, y1 + 1)], [v.item() for v in torch.arange(z0, z1 + 1)])


def line_detect_E(self):
    self.E.append(self.grid.E[self.x, self.y, self.z])


def line_detect_H(self):
    self.H.append(self.grid.H[self.x, self.y, self.z])


def block_detect_E(self):
    self.E.append([[[self.grid.E[a, b, [c]][0] for c in self.z] for b in self.y] for a in self.x])


def block_detect_H(self):
    self.H.append([[[self.grid.H[a, b, [c]][0] for c in self.z] for b in self.y] for a in self.x])


def detector_values(self):
    return {"E": self.E, "H": self.H}


def current_init(self, name=None):
    self.grid = None
    self.orientation = None
    self.I = []
    self.name = name


def current_at(self, px, py, pz):
    h = self.grid.H
    upper = (h[px, py - 1, pz, 0] - h[px, py, pz, 0]) + (h[px, py, pz, 1] - h[px - 1, py, pz, 1])
    lower = (h[px, py - 1, pz - 1, 0] - h[px, py, pz - 1, 0]) + (h[px, py, pz - 1, 1] - h[px - 1, py, pz - 1, 1])
    return self.grid.grid_spacing * (upper + lower) / 2.0


def current_detect(self):
    self.I.append([[[self.single_point_current(a, b, c) for c in self.z] for b in self.y] for a in self.x])


def current_values(self):
    return {"I": self.I}


# ------------------------------------------------------------------ sources
def source_init(self, period=15, amplitude=1.0, phase_shift=0.0, name=None, pulse=False, cycle=5, hanning_dt=10.0, signal_type="continuous"):
    self.grid = None
    self.period = period
    self.amplitude = amplitude
    self.phase_shift = phase_shift
    self.name = name
    self.pulse = pulse
    self.cycle = cycle
    self.frequency = 1.0 / period
    self.hanning_dt = 0.5 / self.frequency if hanning_dt is None else hanning_dt
    self.wavelength = C0 / self.frequency
    self.signal_type = signal_type


def plane_init(self, period=15, amplitude=1.0, phase_shift=0.0, name=None, polarization="z"):
    self.grid = None
    self.period = period
    self.amplitude = amplitude
    self.phase_shift = phase_shift
    self.name = name
    self.polarization = polarization


def point_register(self, grid, x, y, z):
    self.grid = grid
    grid.sources.append(self)
    register_name(self, grid)
    try:
        (x,), (y,), (z,) = x, y, z
    except (TypeError, ValueError):
        raise ValueError("single cell")
    self.x, self.y, self.z = grid._handle_tuple((x, y, z))
    self.period = grid._handle_time(self.period)
    self.courant = grid.courant_number
    self.grid_points_per_wavelength = self.wavelength / grid.grid_spacing


def ricker(q, grid_points_per_wavelength, offset, courant):
    v = (PI * (q * courant / grid_points_per_wavelength - offset)) ** 2
    return (1 - 2 * v) * torch.exp(-v)


def hann(f, t, n):
    return 0.5 * (1 - math.cos(f * t / n)) * math.sin(f * t)


def waveform(self, q):
    """normalised signal at time step q"""
    if self.signal_type == "hanning":
        if q < int(2 * math.pi / (self.frequency * self.hanning_dt / self.cycle)):
            return hann(self.frequency, q * self.hanning_dt, self.cycle)
        return 0
    if self.signal_type == "ricker":
        if q < 6 * self.grid_points_per_wavelength:
            return ricker(q, self.grid_points_per_wavelength, 1, self.courant)
        return 0
    return math.sin(2 * math.pi * q / self.period + self.phase_shift)


def point_E(self):
    self.grid.E[self.x, self.y, self.z, 2] += self.amplitude * waveform(self, self.grid.time_steps_passed)


def line_register(self, grid, x, y, z):
    self.grid = grid
    grid.sources.append(self)
    register_name(self, grid)
    self.x, self.y, self.z = self._handle_slices(x, y, z)
    self.period = grid._handle_time(self.period)
    mid = len(self.x) // 2
    d = (torch.tensor(self.x) - self.x[mid]) ** 2 + (torch.tensor(self.y) - self.y[mid]) ** 2 + (torch.tensor(self.z) - self.z[mid]) ** 2
    d = torch.tensor(d, dtype=torch.float32)
    p = torch.exp(-(d ** 2) / (2 * (0.5 * d.max()) ** 2))
    self.profile = self.amplitude * (p / p.sum())
    self.courant = grid.courant_number
    self.grid_points_per_wavelength = self.wavelength / grid.grid_spacing


def cells(grid, s):
    return slice(grid._handle_distance(s[0]), grid._handle_distance(s[-1]), None) if isinstance(s, list) else s


def cell_bounds(grid, s, n):
    return grid._handle_distance(0 if s.start is None else s.start), grid._handle_distance(n if s.stop is None else s.stop)


def line_cells(self, x, y, z):
    g = self.grid
    if isinstance(x, list) and isinstance(y, list) and isinstance(z, list):
        if not (len(x) == len(y) and len(y) == len(z)):
            raise IndexError("lengths")
        return [g._handle_distance(v) for v in x], [g._handle_distance(v) for v in y], [g._handle_distance(v) for v in z]
    x0, x1 = cell_bounds(g, cells(g, x), g.Nx)
    y0, y1 = cell_bounds(g, cells(g, y), g.Ny)
    z0, z1 = cell_bounds(g, cells(g, z), g.Nz)
    n = max(abs(x1 - x0), abs(y1 - y0), abs(z1 - z0))
    if n < 2:
        raise ValueError("two points")
    return axis_points(x0, x1, n), axis_points(y0, y1, n), axis_points(z0, z1, n)


def line_E(self):
    v = self.profile * waveform(self, self.grid.time_steps_passed)
    for a, b, c, e in zip(self.x, self.y, self.z, v):
        self.grid.E[a, b, c, 2] += e


def plane_E(self):
    self.grid.E[self.x, self.y, self.z, self._Epol] = self.profile * math.sin(2 * math.pi * self.grid.time_steps_passed / self.period + self.phase_shift)


def plane_H(self):
    self.grid.H[self.x, self.y, self.z, self._Hpol] = self.profile * math.sin(2 * math.pi * self.grid.time_steps_passed / self.period + self.phase_shift)


def plane_register(self, grid, x, y, z):
    self.grid = grid
    grid.sources.append(self)
    register_name(self, grid)
    self.x, self.y, self.z = self._handle_slices(x, y, z)
    self.period = grid._handle_time(self.period)
    a, b, c = [torch.arange(s.start, s.stop, 1) - (s.start + s.stop) // 2 for s in (self.x, self.y, self.z)]
    cube = torch.broadcast_tensors(a[:, None, None], b[None, :, None], c[None, None, :])
    self.profile = self.amplitude * torch.ones(torch.tensor(cube[0], dtype=float).shape)


def one_cell(grid, s):
    if isinstance(s, slice):
        return s
    if isinstance(s, list):
        (s,) = s
    return slice(grid._handle_distance(s), grid._handle_distance(s) + 1, None)


def ordered(lo, hi):
    if lo < hi:
        return slice(lo, hi)
    if lo > hi:
        return slice(hi, lo)
    return slice(lo, lo + 1)


def plane_cells(self, x, y, z):
    x, y, z = one_cell(self.grid, x), one_cell(self.grid, y), one_cell(self.grid, z)
    x = ordered(*cell_bounds(self.grid, x, self.grid.Nx))
    y = ordered(*cell_bounds(self.grid, y, self.grid.Ny))
    z = ordered(*cell_bounds(self.grid, z, self.grid.Nz))
    n = [x.stop - x.start, y.stop - y.start, z.stop - z.start]
    if n.count(0) > 0:
        raise ValueError("empty")
    if n.count(1) == 0:
        raise ValueError("no plane")
    if n.count(1) > 1:
        raise ValueError("no plane")
    self._Epol = "xyz".index(self.polarization)
    if (n[0] == 1 and self.polarization == "x") or (n[1] == 1 and self.polarization == "y") or (n[2] == 1 and self.polarization == "z"):
        raise ValueError("longitudinal")
    flat, first, second = [(z, 1, 2), (z, 0, 2), (y, 0, 1)][self._Epol]
    self._Hpol = first if flat.stop - flat.start == 1 else second
    return x, y, z


def soft_register(self, grid, x, y, z):
    self.grid = grid
    grid.sources.append(self)
    register_name(self, grid)
    try:
        (x,), (y,), (z,) = x, y, z
    except (TypeError, ValueError):
        raise ValueError("one cell")
    self.x, self.y, self.z = grid._handle_tuple((x, y, z))
    self.current_detector = CurrentDetector(name=None if self.name is None else self.name + "_I")
    grid[x, y, z] = self.current_detector


def soft_init(self, waveform_array, name=None, impedance=0.0):
    self.grid = None
    self.name = name
    self.current_detector = None
    self.waveform_array = waveform_array
    self.impedance = impedance
    self.input_voltage = []
    self.source_voltage = []


def soft_E(self):
    t = self.grid.time_steps_passed
    v = self.waveform_array[t] if t < self.waveform_array.shape[0] else 0.0
    i = self.current_detector.I[-1][0][0][0] if t > 0 else 0.0
    u = v + self.impedance * i if self.impedance > 0 else v
    self.grid.E[self.x, self.y, self.z, 2] += u / self.grid.grid_spacing
    self.input_voltage.append([[[v]]])
    self.source_voltage.append([[[u]]])


WIDTH = 2.0 * math.sqrt(2.0 * math.log(2))


def gaussian(x, fwhm, center=0.0):
    s = fwhm / WIDTH
    return numpy.exp(-((x - center) ** 2.0) / (2.0 * s ** 2.0))


def gaussian_derivative(x, fwhm, center=0.0):
    s = fwhm / WIDTH
    return math.exp(0.5 - (x - center) ** 2.0 / (2.0 * s ** 2.0)) * (x - center) / s


E0 = 8.8541878128 * 10 ** (-12)
M0 = 4e-7 * PI


def e_out(input):
    return input / math.sqrt(E0)


def e_in(input):
    return input * math.sqrt(E0)


def h_out(input):
    return input / math.sqrt(M0)


def h_in(input):
    return input * math.sqrt(M0)


def grid_save_data(self):
    if self.folder is None:
        raise Exception
    readings = {}
    for detector in self.detectors:
        readings[detector.name + " (E)"] = [x for x in detector.detector_values()["E"]]
        readings[detector.name + " (H)"] = [x for x in detector.detector_values()["H"]]
    savez(os.path.join(self.folder, "detector_readings"), **readings)
