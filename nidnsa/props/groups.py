"""Obligation groups: each function generates the obligations of one part of the system."""
from ..core import *

TM = {
    "torch_dot": lambda a, b: app("matmul", [a, b]),
    "torch_eye": lambda size, dtype: app("eye", [size]),
    "torch_zeros": lambda shape, dtype: app("zeros", [shape if shape.op == "tuple" else mk("tuple", None, shape.args if shape.op == "list" else (shape,))]),
    "torch_transpose": lambda x: app("transpose", [x]),
}
K, F, HLP = "nidn.trcwa.utils.kbloch.", "nidn.trcwa.utils.fft_funs.", "nidn.trcwa.utils.torch_functions."
M = "nidn.trcwa.trcwa."
C = M + "TRCWA."
FUN = ("Lattice_Reciprocate", "Lattice_getG", "Lattice_SetKs", "Epsilon_fft", "get_ifft", "get_conv", "MakeKPMatrix", "SolveLayerEigensystem_uniform", "SolveLayerEigensystem",
       "GetSMatrix", "SolveExterior", "SolveInterior", "TranslateAmplitudes", "GetZPoyntingFlux", "Matrix_zintegral", "Gmeshgrid", "Solve_FieldFourier")


# ------------------------------------------------------------------ units, frequencies, losses
def units(c):
    for n, s in (("freq_to_wl", "inverse_freq"), ("wl_to_phys_wl", "to_phys"), ("phys_freq_to_phys_wl", "phys_inverse")):
        c.equiv(n, c.public(n), "basics." + s)
    c.equiv("phys_wl_to_wl", c.private("nidn.utils.convert_units.phys_wl_to_wl"), "basics.to_norm")


def frequencies(c):
    c.equiv("target frequencies", c.public("compute_target_frequencies"), "basics.target_frequencies")
    c.equiv("frequency points", c.public("get_frequency_points"), "basics.frequency_points", obs=("value", "raises", "cfg.target_frequencies", "cfgkeys"))


def spectrum_loss(c):
    c.equiv("spectrum loss", c.private("nidn.training.losses.spectrum_loss._spectrum_loss_fn"), "basics.spectrum_loss",
            obs=("value", "raises", "mut:produced_R_spectrum", "mut:produced_T_spectrum", "mut:target_R_spectrum", "mut:target_T_spectrum"))


def reg_loss(c):
    c.equiv("regularisation loss", c.private("nidn.training.losses.likelihood_regularization_loss._likelihood_regularization_loss_fn"), "basics.likelihood_loss",
            obs=("value", "raises", "mut:material_predictions"))


def closest(c):
    c.equiv("closest material", c.private("nidn.materials.find_closest_material._find_closest_material"), "basics.closest_material",
            obs=("value", "raises", "mut:eps", "cfgkeys"))


# ------------------------------------------------------------------ configuration
def validator(c):
    v = c.private("nidn.utils.validate_config._validate_config")
    c.equiv("validator", v, "config.validate", obs=("raises", "cfgkeys"))


def dispatch(c):
    c.equiv("dispatch", c.public("compute_spectrum"), "config.dispatch", cuts=("_validate_config", "compute_spectrum_fdtd", "compute_spectrum_trcwa"),
            obs=("value", "raises", "cfgkeys", ("events", "_validate_config", "compute_spectrum_fdtd", "compute_spectrum_trcwa")))


# ------------------------------------------------------------------ model grid
def model_grid(c, types=("regression", "classification")):
    f = c.public("model_to_eps_grid")
    for ty in types:
        for mt in ("siren", "nerf", "voxel"):
            if (ty, mt) == ("classification", "voxel"):
                continue
            for fd in ("linear", "log"):
                for noise in (True, False):
                    for az in (True, False):
                        c.equiv("%s/%s/%s/noise=%s/avoid_zero=%s" % (ty, mt, fd, noise, az), f, "model.grid", obs=("value", "raises", "cfgkeys", ("events", "randn_like")),
                                cfg={"type": ty, "model_type": mt, "freq_distribution": fd, "add_noise": noise, "avoid_zero_eps": az})
    c.equiv("any configuration", f, "model.grid")


# ------------------------------------------------------------------ training
TCUTS = ("_validate_config", "compute_target_frequencies", "MaterialCollection", "fix_random_seeds", "init_network", "model_to_eps_grid", "compute_spectrum",
         "_spectrum_loss_fn", "_likelihood_regularization_loss_fn")
TOBS = ("value", "raises", "cfgkeys", "cfg.results", "cfg.best_model_state_dict", "cfg.model", "cfg.target_frequencies", "cfg.out_features", "cfg.N_materials",
        "cfg.material_collection", "state:W", "state:O", ("events", "_validate_config", "init_network", "fix_random_seeds"), ("events", "torch.set_default_tensor_type"))


def training(c):
    f = c.public("run_training")
    for ty in ("regression", "classification"):
        c.equiv("training (%s)" % ty, f, "training.train", cuts=TCUTS, cfg={"type": ty}, obs=TOBS)


# ------------------------------------------------------------------ TRCWA
def helpers(c):
    for f, s in (("torch_zeros", "zeros"), ("torch_eye", "eye"), ("torch_transpose", "reverse_axes"), ("torch_dot", "dot")):
        c.equiv(f, c.private(HLP + f), "trcwa." + s)


def lattice(c):
    c.models = TM
    c.equiv("reciprocal lattice", c.private(K + "Lattice_Reciprocate"), "trcwa.reciprocal")
    c.equiv("order selection", c.private(K + "Lattice_getG"), "trcwa.orders")
    c.equiv("wave vectors", c.private(K + "Lattice_SetKs"), "trcwa.wavevectors")
    c.equiv("convolution matrix", c.private(F + "get_conv"), "trcwa.convolution")
    c.equiv("fourier components", c.private(F + "get_fft"), "trcwa.transform")
    c.equiv("reconstruction", c.private(F + "get_ifft"), "trcwa.reconstruct")
    c.equiv("permittivity matrices", c.private(F + "Epsilon_fft"), "trcwa.permittivity", cuts=("get_conv",))
    c.models = {}


def fun(c, names):
    c.models = TM
    for f, s in names:
        c.equiv(f, c.private(M + f), "trcwa." + s, cuts=[x for x in FUN if x != f])
    c.models = {}


def method(c, names, obs=("value", "raises")):
    """Layer_N is the number of recorded layers: established by the constructor, kept by the Add_* methods (both compared field by field)"""
    c.models = TM
    ids, n = sym("self.id_list"), sym("self.Layer_N")
    inv = {mk_len(ids): n, mk_idx(ids, mk_slice(NONE, n)): ids}
    for f, s in names:
        where = None if f == "__init__" or f.startswith("Add_") else [("consistent layer count", inv)]
        if f == "Return_eps":
            where = [("component " + q, {**inv, sym("component"): const(q)}) for q in ("xx", "xy", "yx", "yy", "zz")]
        c.equiv(f, c.private(C + f), "trcwa." + s, cuts=[x for x in FUN if x != f], obs=obs, where=where)
    c.models = {}


FIELDS = ["self." + x for x in ("id_list", "thickness_list", "Uniform_ep_list", "GridLayer_Nxy_list", "FourierLayer_params", "Layer_N", "Uniform_N", "Patterned_N", "GridLayer_N", "FourierLayer_N",
          "omega", "theta", "phi", "nG", "L1", "L2", "kp_list", "q_list", "phi_list", "a0", "bN", "direction", "kx", "ky", "G", "Lk1", "Lk2", "normalization", "Patterned_epinv_list", "Patterned_ep2_list")]


def modes(c):
    fun(c, (("MakeKPMatrix", "kp_matrix"), ("SolveLayerEigensystem_uniform", "modes_uniform"), ("SolveLayerEigensystem", "modes")))


def smatrix(c):
    fun(c, (("GetSMatrix", "smatrix"), ("SolveExterior", "exterior"), ("GetZPoyntingFlux", "flux")))
    method(c, (("RT_Solve", "solve_rt"),))


def interior(c):
    fun(c, (("SolveInterior", "interior"), ("TranslateAmplitudes", "translate"), ("Matrix_zintegral", "zintegral"), ("Gmeshgrid", "meshgrid"), ("GetZPoyntingFlux", "flux"), ("GetSMatrix", "smatrix")))
    method(c, (("GetAmplitudes_noTranslate", "amplitudes"), ("GetAmplitudes", "amplitudes_at"), ("Solve_FieldFourier", "field_fourier"),
               ("Solve_FieldOnGrid", "field_grid"), ("Volume_integral", "volume"), ("Solve_ZStressTensorIntegral", "stress"), ("Return_eps", "return_eps")))


def stack(c):
    method(c, (("__init__", "init"), ("Add_LayerUniform", "add_uniform"), ("Add_LayerGrid", "add_grid"), ("Add_LayerFourier", "add_fourier"), ("Init_Setup", "setup"),
               ("MakeExcitationPlanewave", "excite"), ("GridLayer_geteps", "grid_eps")), obs=["value", "raises"] + FIELDS)


def setup(c):
    method(c, (("Init_Setup", "setup"),), obs=["value", "raises"] + FIELDS)


def reconstruction(c):
    c.models = TM
    c.equiv("reconstruction", c.private(F + "get_ifft"), "trcwa.reconstruct")
    c.models = {}


def trcwa_cases():
    """all grid shapes Nx, Ny >= 1 and both forms of the thickness list"""
    e = sym("eps_grid")
    nx, ny, nl = mk_len(e), mk_idx(app("shape", [e]), const(1)), mk_idx(app("shape", [e]), const(2))
    P = mk_len(sym("cfg.PER_LAYER_THICKNESS"))
    one = const(1)
    s0 = app("squeeze", [e, const(0)])
    f0 = mk_idx(e, const(0))
    f00 = mk_idx(e, mk("tuple", None, (const(0), const(0))))
    uni = {nx: one, ny: one, app("squeeze", [s0, const(0)]): f00, s0: f0, app("squeeze", [f0, const(0)]): f00}
    big = lambda n: {lt0(sub(one, n)): TRUE, le0(sub(n, one)): FALSE, eq0(sub(n, one)): FALSE}
    shapes = [("Nx=Ny=1", uni), ("Nx>1, Ny>1", {**big(nx), **big(ny)}), ("Nx>1, Ny=1", {**big(nx), ny: one}), ("Nx=1, Ny>1", {**big(ny), nx: one})]
    thick = [("one thickness", {P: one}), ("thickness per layer", {P: nl, **big(nl)})]
    return [(a + ", " + b, {**x, **y}) for a, x in shapes for b, y in thick]


def scene(c):
    c.models = TM
    cuts = ("Init_Setup", "MakeExcitationPlanewave", "GridLayer_geteps", "Add_LayerUniform", "Add_LayerGrid")
    c.equiv("scene", c.private("nidn.trcwa.init_trcwa._init_trcwa"), "trcwa.scene", cuts=cuts,
            obs=("raises", "cfgkeys", ("events",) + tuple("TRCWA." + x for x in cuts), ("events", "construct:TRCWA")), where=trcwa_cases())
    c.models = {}


def trcwa_spectrum(c):
    c.models = TM
    c.equiv("spectrum (TRCWA)", c.private("nidn.trcwa.compute_spectrum_trcwa.compute_spectrum_trcwa"), "trcwa.spectrum", cuts=("_init_trcwa",), obs=("value", "raises", "cfgkeys"))
    c.models = {}
