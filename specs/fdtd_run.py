"""Reference semantics: time-domain scene construction and spectrum extraction."""
import torch
from . import fdtd

C0 = 299792458.0
UNIT = 10 ** (-6)
PI = torch.tensor(3.14159265358979323846264338327950288)
E0 = 8.8541878128 * 10 ** (-12)


def scaling(cfg):
    """grid points per unit length: ten per shortest wavelength, never fewer than configured"""
    return torch.maximum(torch.tensor(UNIT / (cfg.physical_wavelength_range[0] * 0.1)), torch.tensor(cfg.FDTD_min_gridpoints_per_unit_magnitude))


def scene(cfg, include_object, wavelength, permittivity):
    set_backend("torch")
    k = cfg.FDTD_grid_scaling
    total = torch.sum(torch.tensor(cfg.PER_LAYER_THICKNESS))
    front = cfg.FDTD_pml_thickness + cfg.FDTD_free_space_distance
    size = (k * (2 * cfg.FDTD_pml_thickness + 2 * cfg.FDTD_free_space_distance + total)).int()
    grid = Grid((size.item(), 3, 1), grid_spacing=UNIT / k, permittivity=1.0, permeability=1.0)
    grid = boundaries(grid, int(cfg.FDTD_pml_thickness * k))
    behind = (front + total) * k + cfg.FDTD_gridpoints_from_material_to_detector
    before = torch.tensor(front) * k - cfg.FDTD_gridpoints_from_material_to_detector
    grid, t, r = detectors(grid, behind.int().item(), before.int().item())
    sx = (cfg.FDTD_source_position[0] * k).int()
    sy = (cfg.FDTD_source_position[1] * k).int()
    grid = source(grid, sx.item(), sy.item(), wavelength / C0, cfg.FDTD_pulse_type, cfg.FDTD_source_type)
    if include_object:
        a = torch.tensor(front)
        b = a + cfg.PER_LAYER_THICKNESS[0]
        n = permittivity.shape[2]
        for i in range(n):
            grid = layer(grid, (k * a).int(), (k * b).int(), permittivity[0][0][i], C0 / wavelength)
            if i < n - 1:
                a += cfg.PER_LAYER_THICKNESS[i]
                b += cfg.PER_LAYER_THICKNESS[i + 1]
            else:
                break
    return grid, t, r


def boundaries(grid, pml_thickness):
    grid[0:pml_thickness, :, :] = PML(name="pml_xlow")
    grid[-pml_thickness:, :, :] = PML(name="pml_xhigh")
    grid[:, 0, :] = PeriodicBoundary(name="ybounds")
    return grid


def source(grid, source_x, source_y, period, signal_type, source_type):
    assert signal_type in ["continuous", "hanning", "ricker"]
    if source_type == "point":
        grid[source_x, source_y, 0] = PointSource(period=period, name="pointsource", signal_type=signal_type, cycle=5, hanning_dt=1e-15)
    elif source_type == "line":
        grid[source_x, :, 0] = LineSource(period=period, name="linesource", signal_type=signal_type, cycle=5, hanning_dt=1e-15)
    else:
        raise ValueError("source")
    return grid


def detectors(grid, transmission_detector_x, reflection_detector_x):
    t = LineDetector(name="t_detector")
    r = LineDetector(name="r_detector")
    grid[transmission_detector_x, :, 0] = t
    grid[reflection_detector_x, :, 0] = r
    return grid, t, r


def layer(grid, object_start_x, object_end_x, permittivity, frequency):
    grid[object_start_x:object_end_x, :, :] = AbsorbingObject(permittivity=permittivity.real, conductivity=permittivity.imag * frequency * 2 * PI * E0)
    return grid


def spectrum(permittivity, cfg):
    R, T = [], []
    lam, _ = get_frequency_points(cfg)
    if len(cfg.PER_LAYER_THICKNESS) == 1 and cfg.N_layers > 1:
        cfg.PER_LAYER_THICKNESS = cfg.PER_LAYER_THICKNESS * cfg.N_layers
    cfg.FDTD_grid_scaling = _compute_fdtd_grid_scaling(cfg)
    for i in range(len(lam)):
        g, td, rd = init_fdtd(cfg, False, lam[i], None)
        g.run(cfg.FDTD_niter, progress_bar=False)
        t0, r0 = _get_detector_values(td, rd)
        g, td, rd = init_fdtd(cfg, True, lam[i], permittivity[:, :, :, i])
        g.run(cfg.FDTD_niter, progress_bar=False)
        t1, r1 = _get_detector_values(td, rd)
        t, r = calculate_transmission_reflection_coefficients([t0, t1], [r0, r1], lam[i], cfg)
        T.append(t)
        R.append(r)
    return R, T


def values(transmission_detector, reflection_detector):
    return _get_abs_value_from_3D_signal(transmission_detector.detector_values()["E"]), _get_abs_value_from_3D_signal(reflection_detector.detector_values()["E"])


def signal_of(signal):
    return _average_along_detector(signal)[:, 2]


def average(signal):
    out = torch.zeros([len(signal), 3])
    for i in range(len(signal)):
        s = torch.zeros(3)
        for p in signal[i]:
            s[0] += p[0] / len(signal[i])
            s[1] += p[1] / len(signal[i])
            s[2] += p[2] / len(signal[i])
        out[i] = s
    return out


def average_mean(signal):
    return torch.stack([torch.mean(points, dim=0) for points in signal])


def average_rows(signal):
    out = torch.zeros([len(signal), 3])
    for i in range(len(signal)):
        out[i] = torch.mean(signal[i], dim=0)
    return out


def average_cells(signal):
    out = torch.zeros([len(signal), 3])
    for i in range(len(signal)):
        for c in range(3):
            out[i, c] = sum(p[c] for p in signal[i]) / len(signal[i])
    return out


# ------------------------------------------------------------------ coefficients
def power(x):
    return torch.sum(torch.square(x)) / len(x)


def coefficients(transmission_signals, reflection_signals, wavelength, cfg):
    reflected = reflection_signals[1] - reflection_signals[0]
    if power(transmission_signals[0]) <= 1e-15 or power(reflection_signals[0]) <= 1e-15:
        raise ValueError("no signal")
    t0 = _eliminate_transient_part(transmission_signals[0], wavelength, cfg, True)
    t1 = _eliminate_transient_part(transmission_signals[1], wavelength, cfg, False)
    r0 = _eliminate_transient_part(reflection_signals[0], wavelength, cfg, True)
    reflected = _eliminate_transient_part(reflected, wavelength, cfg, False)
    R, T = _peak_based_coefficient_computation([t0, t1], r0, reflected)
    return _check_and_normalize_coefficients(T, R)


def normalise(transmission_coefficient, reflection_coefficient):
    s = transmission_coefficient + reflection_coefficient
    if s > 1 and s < 1.05:
        return transmission_coefficient / s, reflection_coefficient / s
    return transmission_coefficient, reflection_coefficient


def mean_power(x):
    """mean square between the first and the last peak"""
    p = _torch_find_peaks(x)
    if len(p) > 1:
        return power(x[p[0].item():p[-1].item()])
    return max(x) ** 2 / 2


def peak_coefficients(transmission_signals, reflection_signal, true_reflection):
    return mean_power(true_reflection) / mean_power(reflection_signal), mean_power(transmission_signals[1]) / mean_power(transmission_signals[0])


def peaks(signal):
    left = signal[1:-1] - signal[:-2]
    right = signal[1:-1] - signal[2:]
    rising = torch.where(left > 0, left * 0 + 1, left * 0)
    top = torch.where(right > 0, rising, right * 0)
    return torch.nonzero(top, out=None) + 1


def steady(signal, wavelength, cfg, is_freespace=False, plot=False):
    threshold = 0.5 if is_freespace else 0.1
    window = int(3 * cfg.FDTD_min_gridpoints_per_unit_magnitude * (wavelength / UNIT))
    first = 0
    for i in range(len(signal)):
        if abs(signal[i]) > 1e-8:
            first = i
            break
    signal = signal[first:]
    if len(signal) <= 2 * window:
        return signal
    chunks = list(torch.split(signal, window))
    chunks[-2] = torch.cat((chunks[-1], chunks[-2]))
    chunks = chunks[:-1]
    ranges = torch.tensor([c.max() - c.min() for c in chunks])
    change = (ranges[0:-1] - ranges[1:]).abs()
    relative = change / change.max()
    last = len(relative) - 1
    while relative[last] < threshold:
        last -= 1
        if last < 0:
            raise (logger.error("never steady"))
    return signal[(last + 1) * window:]
