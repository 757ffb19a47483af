"""Reference semantics: RCWA solver (S-matrix formulation of Liu & Fan, S4)."""
import numpy as np
import torch

PI = torch.tensor(3.14159265358979323846264338327950288)


# ------------------------------------------------------------------ small helpers
def zeros(shape, dtype):
    if dtype == complex:
        return torch.complex(torch.zeros(shape), torch.zeros(shape))
    return torch.zeros(shape, dtype=dtype)


def eye(size, dtype=None):
    if dtype == complex:
        return torch.complex(torch.eye(size), torch.zeros([size, size]))
    return torch.eye(size, dtype=dtype)


def reverse_axes(n_dimensional_tensor):
    d = len(n_dimensional_tensor.shape)
    return n_dimensional_tensor.permute([d - 1 - k for k in range(d)])


def dot(a, b):
    if a.dtype != b.dtype:
        if a.dtype == torch.cfloat or a.dtype == torch.cdouble:
            b = b.type(a.dtype)
        elif b.dtype == torch.cfloat or b.dtype == torch.cdouble:
            a = a.type(b.dtype)
    if len(a.shape) == 2 and len(b.shape) == 1:
        return torch.mv(a, b)
    if len(a.shape) > 1:
        return torch.mm(a, b)
    return torch.dot(a, b)


# ------------------------------------------------------------------ lattice
def reciprocal(L1, L2):
    assert type(L1) == list and type(L2) == list
    assert len(L1) == 2
    assert len(L2) == 2
    area = L1[0] * L2[1] - L1[1] * L2[0]
    return torch.tensor([L2[1] / area, -L2[0] / area]), torch.tensor([-L1[1] / area, L1[0] / area])


def orders(nG, Lk1, Lk2, method=0):
    assert type(nG) == int
    if method == 0:
        return circular(nG, Lk1, Lk2)
    if method == 1:
        return rectangular(nG, Lk1, Lk2)
    raise Exception("method")


def wavevectors(G, kx0, ky0, Lk1, Lk2):
    kx = kx0 + 2 * PI * (G[:, 0] * Lk1[0] + G[:, 1] * Lk2[0])
    ky = ky0 + 2 * PI * (G[:, 0] * Lk1[1] + G[:, 1] * Lk2[1])
    return kx, ky


def rectangular(nG, Lk1, Lk2):
    a, b, ab = torch.norm(Lk1), torch.norm(Lk2), torch.dot(Lk1, Lk2)
    n = int(np.sqrt(nG))
    if n % 2 == 0:
        n = n - 1
    h = n // 2
    k = torch.tensor(range(-h, n - h))
    G1, G2 = torch.meshgrid(k, k, indexing="ij")
    G1, G2 = G1.flatten(), G2.flatten()
    s = torch.argsort((a * G1) ** 2 + (b * G2) ** 2 + 2 * ab * G1 * G2)
    total = n * n
    G = torch.zeros((total, 2), dtype=int)
    G[:, 0] = G1[s][:total]
    G[:, 1] = G2[s][:total]
    return G, total


def circular(nG, Lk1, Lk2):
    a, b, ab = torch.norm(Lk1), torch.norm(Lk2), torch.dot(Lk1, Lk2)
    cross = Lk1[0] * Lk2[1] - Lk1[1] * Lk2[0]
    radius = torch.sqrt(nG * torch.abs(cross) / PI) + a + b
    sin = torch.sqrt(1.0 - ab ** 2 / (a * b) ** 2)
    na = 1 + int(radius / (a * sin))
    nb = 1 + int(radius / (b * sin))
    G1, G2 = torch.meshgrid(torch.tensor(range(-na, na + 1)), torch.tensor(range(-nb, nb + 1)))
    G1, G2 = G1.flatten(), G2.flatten()
    length = (a * G1) ** 2 + (b * G2) ** 2 + 2 * ab * G1 * G2
    s = np.argsort(length.cpu().numpy())
    G1, G2, length = G1[s], G2[s], length[s]
    top = (2 * na + 1) * (2 * nb + 1)
    if nG < top:
        top = nG
    tol = 1e-10 * max(a ** 2, b ** 2)
    for i in range(top - 1, -1, -1):
        if torch.abs(length[i] - length[i - 1]) > tol:
            break
    G = torch.zeros((i, 2), dtype=int)
    G[:, 0] = G1[:i]
    G[:, 1] = G2[:i]
    return G, i


# ------------------------------------------------------------------ Fourier factorisation
def convolution(dN, s_in, G):
    n, _ = G.shape
    f = dN * torch.fft.fft2(s_in)
    ii, jj = torch.meshgrid(torch.tensor(range(n)), torch.tensor(range(n)))
    return f[G[ii, 0] - G[jj, 0], G[ii, 1] - G[jj, 1]]


def transform(dN, s_in, G):
    return (dN * torch.fft.fft2(s_in))[G[:, 0], G[:, 1]]


def reconstruct(Nx, Ny, s_in, G):
    n, _ = G.shape
    acc = torch.zeros((Nx, Ny), dtype=complex)
    for k in range(n):
        one = torch.zeros((Nx, Ny), dtype=complex)
        one[G[k, 0], G[k, 1]] = 1.0
        acc = acc + s_in[k] * one
    return torch.fft.ifft2(acc) * Nx * Ny


def permittivity(dN, eps_grid, G):
    if len(eps_grid) == 3 and eps_grid[0].ndim == 2:
        ex = get_conv(dN, eps_grid[0], G)
        ey = get_conv(dN, eps_grid[1], G)
        inv = torch.inverse(get_conv(dN, eps_grid[2], G))
    elif eps_grid[0].ndim == 1:
        ex = get_conv(dN, eps_grid, G)
        ey = ex
        inv = torch.inverse(ex)
    else:
        raise ValueError("shape")
    o = torch.zeros_like(ex)
    eps2 = torch.hstack((torch.vstack((ex, o)), torch.vstack((o, ey))))
    for i in range(eps2.shape[0]):
        for j in range(eps2.shape[1]):
            if eps2[i][j].real.abs() < 1e-14 and eps2[i][j].imag.abs() < 1e-14:
                eps2[i][j] = 0 + 0j
    return inv, eps2


# ------------------------------------------------------------------ layer modes
def kp_matrix(omega, layer_type, epinv, kx, ky):
    J = torch.vstack((torch.diag(-ky), torch.diag(kx)))
    n = len(kx)
    if layer_type == 0:
        return omega ** 2 * torch.eye(2 * n) - epinv * (J @ J.T)
    return omega ** 2 * torch.eye(2 * n) - J @ epinv @ J.T


def modes_uniform(omega, kx, ky, epsilon):
    q = torch.sqrt(epsilon * omega ** 2 - kx ** 2 - ky ** 2)
    q = torch.where(torch.imag(q) < 0.0, -q, q)
    return torch.cat((q, q)), torch.eye(2 * len(kx))


def modes(omega, kx, ky, kp, ep2):
    k = torch.vstack((torch.diag(kx), torch.diag(ky)))
    w, v = torch.linalg.eig(ep2 @ kp - k @ k.T)
    q = torch.sqrt(w)
    return torch.where(torch.imag(q) < 0.0, -q, q), v


# ------------------------------------------------------------------ scattering matrix
def smatrix(indi, indj, q_list, phi_list, kp_list, thickness_list):
    n = len(q_list[0])
    S11, S12, S21, S22 = torch.eye(n), torch.zeros((n, n)), torch.zeros((n, n)), torch.eye(n)
    if indi == indj:
        return S11, S12, S21, S22
    if indi > indj:
        raise Exception("order")
    for l in range(indi, indj):
        m = l + 1
        Q = torch.inverse(phi_list[l]) @ phi_list[m]
        P = torch.diag(q_list[l]) @ torch.inverse(kp_list[l] @ phi_list[l]) @ kp_list[m] @ phi_list[m] @ torch.diag(1.0 / q_list[m])
        T11, T12 = (Q + P) / 2, (Q - P) / 2
        here = torch.diag(torch.exp(1j * q_list[l] * thickness_list[l]))
        there = torch.diag(torch.exp(1j * q_list[m] * thickness_list[m]))
        W = torch.inverse(T11 - here @ S12 @ T12)
        N11 = W @ here @ S11
        N12 = W @ (here @ S12 @ T11 - T12) @ there
        N21 = S21 + S22 @ T12 @ N11
        N22 = S22 @ T12 @ N12 + S22 @ T11 @ there
        S11, S12, S21, S22 = N11, N12, N21, N22
    return S11, S12, S21, S22


def exterior(a0, bN, q_list, phi_list, kp_list, thickness_list):
    S11, S12, S21, S22 = GetSMatrix(0, len(thickness_list) - 1, q_list, phi_list, kp_list, thickness_list)
    return S11 @ a0 + S12 @ bN, S21 @ a0 + S22 @ bN


def interior(which_layer, a0, bN, q_list, phi_list, kp_list, thickness_list):
    S11, S12, S21, S22 = GetSMatrix(0, which_layer, q_list, phi_list, kp_list, thickness_list)
    R11, R12, R21, R22 = GetSMatrix(which_layer, len(thickness_list) - 1, q_list, phi_list, kp_list, thickness_list)
    ai = torch.inverse(torch.eye(len(q_list[0])) - S12 @ R21) @ (S11 @ a0 + S12 @ R22 @ bN)
    return ai, R21 @ ai + R22 @ bN


def translate(q, thickness, dz, ai, bi):
    return ai * torch.exp(1j * q * dz), bi * torch.exp(1j * q * (thickness - dz))


def flux(ai, bi, omega, kp, phi, q, byorder=0):
    n = int(len(ai) / 2)
    A = kp @ phi @ torch.diag(1.0 / omega / q)
    pa, pb, Aa, Ab = phi @ ai, phi @ bi, A @ ai, A @ bi
    d = 0.5 * (torch.conj(pb) * Aa - torch.conj(Ab) * pa)
    f = torch.real(torch.conj(Aa) * pa) + d
    b = torch.conj(d) - torch.real(torch.conj(Ab) * pb)
    f = f[:n] + f[n:]
    b = b[:n] + b[n:]
    if byorder == 0:
        return torch.sum(f), torch.sum(b)
    return f, b


def zintegral(q, thickness, shift=1e-12):
    qi, qj = Gmeshgrid(q)
    d = qj - torch.conj(qi) + shift * torch.eye(len(q))
    aa = (torch.exp(1j * d * thickness) - 1) / 1j / d
    ab = (torch.exp(1j * qj * thickness) - torch.exp(-1j * torch.conj(qi) * thickness)) / 1j / (qj + torch.conj(qi))
    return torch.hstack((torch.vstack((aa, ab)), torch.vstack((ab, aa))))


def meshgrid(x):
    g = torch.stack([x for _ in range(len(x))])
    return g.T, g


# ------------------------------------------------------------------ solver object
def init(self, nG, L1, L2, freq, theta, phi, verbose=1):
    self.freq = freq
    self.omega = 2 * PI * freq + 0.0j
    self.L1 = L1
    self.L2 = L2
    self.phi = torch.tensor(phi)
    self.theta = torch.tensor(theta)
    self.nG = nG
    self.verbose = verbose
    self.Layer_N = 0
    self.thickness_list = []
    self.id_list = []
    self.kp_list = []
    self.q_list = []
    self.phi_list = []
    self.Uniform_ep_list = []
    self.Uniform_N = 0
    self.Patterned_N = 0
    self.Patterned_epinv_list = []
    self.Patterned_ep2_list = []
    self.GridLayer_N = 0
    self.GridLayer_Nxy_list = []
    self.FourierLayer_N = 0
    self.FourierLayer_params = []


def add_uniform(self, thickness, epsilon):
    self.id_list.append([0, self.Layer_N, self.Uniform_N])
    self.thickness_list.append(torch.tensor(thickness))
    self.Uniform_ep_list.append(epsilon)
    self.Layer_N = self.Layer_N + 1
    self.Uniform_N = self.Uniform_N + 1


def add_grid(self, thickness, Nx, Ny):
    self.id_list.append([1, self.Layer_N, self.Patterned_N, self.GridLayer_N])
    self.thickness_list.append(thickness)
    self.GridLayer_Nxy_list.append([Nx, Ny])
    self.Layer_N = self.Layer_N + 1
    self.GridLayer_N = self.GridLayer_N + 1
    self.Patterned_N = self.Patterned_N + 1


def add_fourier(self, thickness, params):
    self.id_list.append([2, self.Layer_N, self.Patterned_N, self.FourierLayer_N])
    self.thickness_list.append(thickness)
    self.FourierLayer_params.append(params)
    self.Layer_N = self.Layer_N + 1
    self.Patterned_N = self.Patterned_N + 1
    self.FourierLayer_N = self.FourierLayer_N + 1


def setup(self, Pscale=1.0, Gmethod=0):
    n0 = torch.sqrt(self.Uniform_ep_list[0])
    k = self.omega * torch.sin(self.theta) * n0
    kx0, ky0 = k * torch.cos(self.phi), k * torch.sin(self.phi)
    g1, g2 = Lattice_Reciprocate(self.L1, self.L2)
    self.G, self.nG = Lattice_getG(self.nG, g1, g2, method=Gmethod)
    self.Lk1 = g1 / Pscale
    self.Lk2 = g2 / Pscale
    self.kx, self.ky = Lattice_SetKs(self.G, kx0, ky0, self.Lk1, self.Lk2)
    self.normalization = n0 / torch.cos(self.theta)
    self.Patterned_ep2_list = [None] * self.Patterned_N
    self.Patterned_epinv_list = [None] * self.Patterned_N
    for i in range(self.Layer_N):
        if self.id_list[i][0] == 0:
            ep = self.Uniform_ep_list[self.id_list[i][2]]
            self.kp_list.append(MakeKPMatrix(self.omega, 0, 1.0 / ep, self.kx, self.ky))
            q, phi = SolveLayerEigensystem_uniform(self.omega, self.kx, self.ky, ep)
            self.q_list.append(q)
            self.phi_list.append(phi)
        else:
            self.kp_list.append(None)
            self.q_list.append(None)
            self.phi_list.append(None)


def excite(self, p_amp, p_phase, s_amp, s_phase, order=0, direction="forward"):
    self.direction = direction
    p = p_amp * torch.exp(torch.tensor(1j * p_phase))
    s = s_amp * torch.exp(torch.tensor(1j * s_phase))
    vx = torch.zeros(2 * self.nG)
    vx[order] = 1.0
    vy = torch.zeros(2 * self.nG)
    vy[order + self.nG] = 1.0
    w = vx * (-s * torch.cos(self.theta) * torch.cos(self.phi) - p * torch.sin(self.phi)) + vy * (
        -s * torch.cos(self.theta) * torch.sin(self.phi) + p * torch.cos(self.phi))
    self.a0 = torch.zeros(2 * self.nG)
    self.bN = torch.zeros(2 * self.nG)
    if direction == "forward":
        self.a0 = self.a0 + w
    elif direction == "backward":
        self.bN = self.bN + w


def grid_eps(self, ep_all):
    ptr = 0
    m = 0
    for i in range(self.Layer_N):
        if self.id_list[i][0] == 1:
            Nx, Ny = self.GridLayer_Nxy_list[m][0], self.GridLayer_Nxy_list[m][1]
            if torch.is_tensor(ep_all) and ep_all.ndim == 3:
                layer = ep_all[:, :, i - 1]
            elif len(ep_all) == 3 and ep_all[0].ndim > 0:
                layer = [
                    torch.reshape(ep_all[0][ptr:ptr + Nx * Ny], [Nx, Ny]),
                    torch.reshape(ep_all[1][ptr:ptr + Nx * Ny], [Nx, Ny]),
                    torch.reshape(ep_all[2][ptr:ptr + Nx * Ny], [Nx, Ny]),
                ]
            else:
                layer = torch.reshape(torch.tensor(ep_all[ptr:ptr + Nx * Ny]), [Nx, Ny])
            inv, ep2 = Epsilon_fft(1.0 / Nx / Ny, layer, self.G)
            self.Patterned_epinv_list[self.id_list[i][2]] = inv
            self.Patterned_ep2_list[self.id_list[i][2]] = ep2
            kp = MakeKPMatrix(self.omega, 1, inv, self.kx, self.ky)
            self.kp_list[self.id_list[i][1]] = kp
            q, phi = SolveLayerEigensystem(self.omega, self.kx, self.ky, kp, ep2)
            self.q_list[self.id_list[i][1]] = q
            self.phi_list[self.id_list[i][1]] = phi
            ptr = ptr + Nx * Ny
            m = m + 1


def return_eps(self, which_layer, Nx, Ny, component="xx"):
    kind = self.id_list[which_layer][0]
    pos = self.id_list[which_layer][2]
    if kind == 0:
        return torch.ones((Nx, Ny)) * self.Uniform_ep_list[pos]
    if kind == 1:
        n = self.nG
        if component == "zz":
            m = torch.inverse(self.Patterned_epinv_list[pos])
        elif component == "xx":
            m = self.Patterned_ep2_list[pos][:n, :n]
        elif component == "xy":
            m = self.Patterned_ep2_list[pos][:n, n:]
        elif component == "yx":
            m = self.Patterned_ep2_list[pos][n:, :n]
        elif component == "yy":
            m = self.Patterned_ep2_list[pos][n:, n:]
        return get_ifft(Nx, Ny, m[0, :], self.G)


def solve_rt(self, normalize=0, byorder=0):
    aN, b0 = SolveExterior(self.a0, self.bN, self.q_list, self.phi_list, self.kp_list, self.thickness_list)
    fi, bi = GetZPoyntingFlux(self.a0, b0, self.omega, self.kp_list[0], self.phi_list[0], self.q_list[0], byorder=byorder)
    fe, be = GetZPoyntingFlux(aN, self.bN, self.omega, self.kp_list[-1], self.phi_list[-1], self.q_list[-1], byorder=byorder)
    if self.direction == "forward":
        R, T = -torch.real(bi), torch.real(fe)
    elif self.direction == "backward":
        R, T = torch.real(fe), -torch.real(bi)
    if normalize == 1:
        R, T = R * self.normalization, T * self.normalization
    return R, T


def amplitudes(self, which_layer):
    if which_layer == 0 or which_layer == self.Layer_N - 1:
        aN, b0 = SolveExterior(self.a0, self.bN, self.q_list, self.phi_list, self.kp_list, self.thickness_list)
        if which_layer == 0:
            return self.a0, b0
        return aN, self.bN
    return SolveInterior(which_layer, self.a0, self.bN, self.q_list, self.phi_list, self.kp_list, self.thickness_list)


def amplitudes_at(self, which_layer, z_offset):
    a, b = amplitudes(self, which_layer)
    return TranslateAmplitudes(self.q_list[which_layer], self.thickness_list[which_layer], z_offset, a, b)


def field_fourier(self, which_layer, z_offset):
    a0, b0 = amplitudes(self, which_layer)
    if isinstance(z_offset, float) or isinstance(z_offset, int):
        zs = [z_offset]
    else:
        zs = z_offset
    out = []
    q, phi, kp = self.q_list[which_layer], self.phi_list[which_layer], self.kp_list[which_layer]
    n = self.nG
    for z in zs:
        a, b = TranslateAmplitudes(q, self.thickness_list[which_layer], z, a0, b0)
        h = phi @ (a + b)
        e = kp @ phi @ ((a - b) / self.omega / q)
        hx, hy = h[:n], h[n:]
        ex, ey = e[n:], -e[:n]
        hz = (self.kx * ey - self.ky * ex) / self.omega
        ez = (self.ky * hx - self.kx * hy) / self.omega
        if self.id_list[which_layer][0] == 0:
            ez = ez / self.Uniform_ep_list[self.id_list[which_layer][2]]
        else:
            ez = self.Patterned_epinv_list[self.id_list[which_layer][2]] @ ez
        out.append([[ex, ey, ez], [hx, hy, hz]])
    return out


def field_grid(self, which_layer, z_offset, Nxy=None):
    if Nxy is None:
        Nxy = self.GridLayer_Nxy_list[self.id_list[which_layer][3]]
    out = []
    for f in self.Solve_FieldFourier(which_layer, z_offset):
        E = [get_ifft(Nxy[0], Nxy[1], f[0][0], self.G), get_ifft(Nxy[0], Nxy[1], f[0][1], self.G), get_ifft(Nxy[0], Nxy[1], f[0][2], self.G)]
        H = [get_ifft(Nxy[0], Nxy[1], f[1][0], self.G), get_ifft(Nxy[0], Nxy[1], f[1][1], self.G), get_ifft(Nxy[0], Nxy[1], f[1][2], self.G)]
        out.append([E, H])
    if isinstance(z_offset, float) or isinstance(z_offset, int):
        return out[0]
    return out


def volume(self, which_layer, Mx, My, Mz, normalize=0):
    kp, q, phi = self.kp_list[which_layer], self.q_list[which_layer], self.phi_list[which_layer]
    if self.id_list[which_layer][0] == 0:
        inv = 1.0 / self.Uniform_ep_list[self.id_list[which_layer][2]]
    else:
        inv = self.Patterned_epinv_list[self.id_list[which_layer][2]]
    a, b = SolveInterior(which_layer, self.a0, self.bN, self.q_list, self.phi_list, self.kp_list, self.thickness_list)
    ab = torch.hstack((a, b))
    M = torch.outer(ab, torch.conj(ab)) * Matrix_zintegral(q, self.thickness_list[which_layer])
    xy = kp @ phi @ torch.diag(1.0 / self.omega / q)
    z = torch.hstack((1.0 / self.omega * (inv @ torch.diag(self.ky)), -1.0 / self.omega * (inv @ torch.diag(self.kx)))) @ phi
    F = torch.hstack((torch.vstack((xy, z)), torch.vstack((-xy, z))))
    o = torch.zeros_like(Mx)
    W = torch.vstack((torch.hstack((Mx, o, o)), torch.hstack((o, My, o)), torch.hstack((o, o, Mz))))
    val = torch.trace(M @ torch.conj(F.T) @ W @ F)
    if normalize == 1:
        val = val * self.normalization
    return val


def stress(self, which_layer):
    f = self.Solve_FieldFourier(which_layer, 0.0)
    ex, ey, ez = f[0][0][0], f[0][0][1], f[0][0][2]
    hx, hy, hz = f[0][1][0], f[0][1][1], f[0][1][2]
    dz = (self.ky * hx - self.kx * hy) / self.omega
    if self.id_list[which_layer][0] == 0:
        ep = self.Uniform_ep_list[self.id_list[which_layer][2]]
        dx, dy = ex * ep, ey * ep
    else:
        d = self.Patterned_ep2_list[self.id_list[which_layer][2]] @ torch.hstack((-ey, ex))
        dx, dy = d[self.nG:], -d[:self.nG]
    Tx = torch.sum(ex * torch.conj(dz) + hx * torch.conj(hz))
    Ty = torch.sum(ey * torch.conj(dz) + hy * torch.conj(hz))
    Tz = 0.5 * torch.sum(ez * torch.conj(dz) + hz * torch.conj(hz) - ey * torch.conj(dy) - ex * torch.conj(dx) - torch.abs(hx) ** 2 - torch.abs(hy) ** 2)
    return torch.real(Tx), torch.real(Ty), torch.real(Tz)


# ------------------------------------------------------------------ scene
def scene(eps_grid, target_frequency, run_cfg):
    nx, ny, n = eps_grid.shape[0], eps_grid.shape[1], eps_grid.shape[2]
    solver = TRCWA(run_cfg.TRCWA_NG, run_cfg.TRCWA_L_grid[0], run_cfg.TRCWA_L_grid[1], target_frequency * (1 + 1j / (2.0 * 1e5)), 0.0, 0.0, verbose=0)
    solver.Add_LayerUniform(1.0, torch.tensor(run_cfg.TRCWA_TOP_LAYER_EPS))
    for k in range(n):
        if len(run_cfg.PER_LAYER_THICKNESS) == 1:
            d = run_cfg.PER_LAYER_THICKNESS[0]
        else:
            d = run_cfg.PER_LAYER_THICKNESS[k]
        if nx > 1 or ny > 1:
            solver.Add_LayerGrid(d, nx, ny)
        elif nx == 1 and ny == 1:
            solver.Add_LayerUniform(d, eps_grid.squeeze(0).squeeze(0)[k])
        else:
            solver.Add_LayerUniform(d, eps_grid[k])
    solver.Add_LayerUniform(1.0, torch.tensor(run_cfg.TRCWA_BOTTOM_LAYER_EPS))
    solver.Init_Setup()
    solver.MakeExcitationPlanewave(0, 0, 1, 0, order=0)
    if nx > 1 or ny > 1:
        solver.GridLayer_geteps(eps_grid)
    return solver


def spectrum(eps_grid, run_cfg):
    if torch.any(torch.isnan(eps_grid)):
        raise ValueError("nan")
    assert "target_frequencies" in run_cfg
    assert len(run_cfg.target_frequencies) == run_cfg.N_freq
    assert eps_grid.shape[0] == run_cfg.Nx
    assert eps_grid.shape[1] == run_cfg.Ny
    assert eps_grid.shape[2] == run_cfg.N_layers
    assert eps_grid.shape[3] == run_cfg.N_freq
    R, T = [], []
    for k, f in enumerate(run_cfg.target_frequencies):
        solver = _init_trcwa(eps_grid[:, :, :, k], f, run_cfg)
        r, t = solver.RT_Solve(normalize=1)
        R.append(r)
        T.append(t)
    return R, T
