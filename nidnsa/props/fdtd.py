"""Obligation groups of the time-domain solver."""
from ..core import *

G = "nidn.fdtd.grid."
B = "nidn.fdtd.boundaries."
HC = ("_handle_tuple", "_handle_distance", "_handle_time", "_handle_slice", "_handle_single_key", "update_E", "update_H", "update_phi_E", "update_phi_H", "detect_E", "detect_H", "step",
      "_register_grid", "curl_E", "curl_H", "_calculate_parameters", "_set_locations", "_set_shape", "_set_sigmaE", "_set_sigmaH", "_sigma")
GF = ["self." + x for x in ("grid_spacing Nx Ny Nz D courant_number time_step E H absorption_factor inverse_permittivity inverse_permeability time_steps_passed "
                            "sources boundaries detectors objects folder").split()]
BF = ["self." + x for x in ("__class__ grid name x y z thickness k a shape loc locx locy locz sigmaE sigmaH phi_E phi_H psi_Ex psi_Ey psi_Ez psi_Hx psi_Hy psi_Hz bE cE bH cH").split()]


PURE = ("_handle_tuple", "_handle_distance", "_handle_time", "_handle_slice", "_handle_slices", "_handle_single_key", "curl_E", "curl_H", "_sigma", "single_point_current")


def ev(cls, names=HC):
    names = [x for x in names if x not in PURE]
    return ("events",) + tuple(names) + tuple(cls + "." + x for x in names) + tuple("." + x for x in names) + ("Boundary._register_grid",)


TYPES = {"grid": G + "Grid", "boundaries": "list", "sources": "list", "objects": "list", "detectors": "list"}
SNAP = {".update_phi_E": ("H",), ".update_phi_H": ("E",), ".update_E": ("E", "H"), ".update_H": ("E", "H"), ".detect_E": ("E",), ".detect_H": ("H",)}


def grid(c):
    c.snap = SNAP
    c.types = TYPES
    c.equiv("curl_E", c.private(G + "curl_E"), "fdtd.forward_curl")
    c.equiv("curl_H", c.private(G + "curl_H"), "fdtd.backward_curl")
    for f, s in (("__init__", "grid_init"), ("run", "grid_run"), ("step", "grid_step"), ("update_E", "grid_update_E"), ("update_H", "grid_update_H"), ("reset", "grid_reset"),
                 ("time_passed", "grid_passed")):
        c.equiv("Grid." + f, c.private(G + "Grid." + f), "fdtd." + s, cuts=[x for x in HC if x != f], obs=["value", "raises"] + GF + [ev("Grid")])
    c.snap = {}
    c.types = {}


def placement(c):
    def m(f, s, case="", **kw):
        c.equiv("Grid." + f + case, c.private(G + "Grid." + f), "fdtd." + s, cuts=[x for x in HC if x != f], obs=["value", "raises"] + GF + [ev("Grid")], **kw)
    for f, s in (("_handle_distance", "grid_distance"), ("_handle_slice", "grid_slice"),
                 ("x", "grid_x"), ("y", "grid_y"), ("z", "grid_z"), ("shape", "grid_shape")):
        m(f, s)
    tup = lambda p, n: mk("tuple", None, [sym("%s%d" % (p, i)) for i in range(n)])
    for n in (2, 3, 4):
        m("_handle_tuple", "grid_tuple", " (%d entries)" % n, args={first(c, "_handle_tuple"): tup("n", n)})
    for n in range(1, 5):
        m("__setitem__", "grid_place", " (%d indices)" % n, args={first(c, "__setitem__"): tup("k", n)})
    key = sym("key")
    isi = lambda k: app("isinstance", [key, mk("ext", "builtins." + k, ())])
    m("__setitem__", "grid_place", " (one index)", args={first(c, "__setitem__"): key}, where=[("not a tuple", {isi("tuple"): FALSE})])
    sized = lambda v: {app("hasattr", [key, const("__len__")]): v}
    m("_handle_single_key", "grid_key", "", args={first(c, "_handle_single_key"): key}, where=[
        ("list of cells", {isi("slice"): FALSE, isi("list"): TRUE, isi("tuple"): FALSE, isi("int"): FALSE, isi("float"): FALSE, "throws": FALSE, **sized(TRUE)}),
        ("slice", {isi("slice"): TRUE, isi("list"): FALSE, isi("tuple"): FALSE, isi("int"): FALSE, isi("float"): FALSE, "throws": TRUE, **sized(FALSE)}),
        ("distance", {isi("slice"): FALSE, isi("list"): FALSE, isi("tuple"): FALSE, isi("int"): FALSE, isi("float"): TRUE, "throws": TRUE, **sized(FALSE)}),
        ("cell", {isi("slice"): FALSE, isi("list"): FALSE, isi("tuple"): FALSE, isi("int"): TRUE, isi("float"): FALSE, "throws": TRUE, **sized(FALSE)})])


def times(c):
    for f, s in (("_handle_time", "grid_time"), ("time_passed", "grid_passed")):
        c.equiv("Grid." + f, c.private(G + "Grid." + f), "fdtd." + s, cuts=[x for x in HC if x != f], obs=["value", "raises"] + GF + [ev("Grid")])


def first(c, f):
    n = [x for x in c.names(G + "Grid." + f) if x != "self"]
    return n[0] if n else "key"


def boundaries(c):
    c.types = TYPES
    def m(cls, f, s):
        c.equiv("%s.%s" % (cls, f), c.private(B + cls + "." + f), "fdtd." + s, cuts=[x for x in HC if x != "_register_grid"], obs=["value", "raises", "mut:grid"] + BF + ["self.grid." + x for x in ("E", "H", "boundaries")] + [ev(cls)])
    for f, s in (("__init__", "boundary_init"), ("_register_grid", "boundary_register"), ("_handle_slice", "boundary_slice"), ("update_phi_E", "nothing"), ("update_phi_H", "nothing"),
                 ("update_E", "nothing"), ("update_H", "nothing")):
        m("Boundary", f, s)
    m("PeriodicBoundary", "_register_grid", "periodic_register")
    for a in "XYZ":
        m("_PeriodicBoundary" + a, "update_E", "p%s_E" % a.lower())
        m("_PeriodicBoundary" + a, "update_H", "p%s_H" % a.lower())
        for b in ("low", "high"):
            for f, s in (("_set_locations", ""), ("_set_sigmaE", "_E"), ("_set_sigmaH", "_H")):
                m("_PML" + a + b, f, a.lower() + b + s)
            m("_PML" + a + b, "_set_shape", a.lower() + "shape")
    for f, s in (("__init__", "pml_init"), ("_sigma", "pml_sigma"), ("_register_grid", "pml_register"), ("_handle_slice", "pml_slice"), ("_calculate_parameters", "pml_parameters"),
                 ("update_E", "pml_E"), ("update_H", "pml_H"), ("update_phi_E", "pml_phi_E"), ("update_phi_H", "pml_phi_H")):
        m("PML", f, s)
    c.equiv("border", c.private(B + "DomainBorderPML"), "fdtd.domain_border", cuts=("__setitem__",), obs=("raises", ("events", "__setitem__", "Grid.__setitem__", "setitem")))
    c.types = {}


PC = HC + ("_handle_slices", "single_point_current", "__setitem__", "__init__")
OBS_GRID = ["self.grid." + x for x in ("E", "H", "inverse_permittivity", "absorption_factor", "objects", "sources", "detectors")]


def part(c, mod, cls, rows, fields, base=(), lists=()):
    c.types = dict(TYPES, **{"self." + x: "list" for x in lists})
    fields = ["self." + x for x in fields.split()]
    for f, s in rows:
        cuts = [x for x in PC if x != f]
        where = None
        if f == "_handle_slices":
            # a list of cells holds cells, a slice has its bounds or None
            where = [("", {eq(mk_idx(sym(a), const(i)), NONE): FALSE for a in "xyz" for i in (0, -1)})]
        s = tuple("fdtd." + x for x in s) if isinstance(s, tuple) else "fdtd." + s
        c.equiv("%s.%s" % (cls, f), c.private("nidn.fdtd.%s.%s.%s" % (mod, cls, f)), s, cuts=cuts, where=where,
                obs=["value", "raises", "mut:grid"] + fields + OBS_GRID + [ev(cls, PC) + tuple(b + "." + x for b in base + ("Grid",) for x in PC if x not in PURE)])
    c.types = {}


def objects(c):
    F = "grid name permittivity x y z Nx Ny Nz inverse_permittivity conductivity absorption_factor"
    part(c, "objects", "Object", (("__init__", "object_init"), ("_register_grid", "object_register"), ("_handle_slice", "object_slice"), ("update_E", "object_E"), ("update_H", "ignore")), F)
    part(c, "objects", "AbsorbingObject", (("__init__", "absorbing_init"), ("_register_grid", ("absorbing_register", "absorbing_register_own")), ("update_E", "ignore"), ("update_H", "ignore")), F, ("Object",))
    part(c, "objects", "AnisotropicObject", (("_register_grid", "refuse"),), F)


def detectors(c):
    F = "grid name x y z E H I orientation"
    L = ("E", "H", "I")
    part(c, "detectors", "LineDetector", (("__init__", "detector_init"), ("_register_grid", "detector_register"), ("_handle_slices", "line_positions"), ("detect_E", "line_detect_E"),
                                          ("detect_H", "line_detect_H"), ("detector_values", "detector_values")), F, lists=L)
    part(c, "detectors", "BlockDetector", (("__init__", "detector_init"), ("_register_grid", "detector_register"), ("_handle_slices", "block_positions"), ("detect_E", "block_detect_E"),
                                           ("detect_H", "block_detect_H"), ("detector_values", "detector_values")), F, lists=L)
    part(c, "detectors", "CurrentDetector", (("__init__", "current_init"), ("_register_grid", "detector_register"), ("_handle_slices", "block_positions"), ("detect_E", "nothing"),
                                             ("single_point_current", "current_at"), ("detect_H", "current_detect"), ("detector_values", "current_values")), F, lists=L)


def readings(c):
    """what save_data writes: every record of every detector under the detector's name"""
    c.types = TYPES
    c.equiv("Grid.save_data", c.private(G + "Grid.save_data"), "fdtd.grid_save_data", cuts=("detector_values",), obs=["raises", "self.detectors"], post=archive)
    c.types = {}


def archive(r):
    def named(t):
        idx = {}
        for x in subterms(t):
            if x.op == "sym" and str(x.val).startswith("%i"):
                idx[x] = sym("each detector")
        return subst(t, idx) if t.op == "dict" else mk("unknown", "archive contents built another way")
    ev = [Event("store", (e.args[0], named(r.it.data(r.st, e.kws.get("**", NONE)))), {k: v for k, v in e.kws.items() if k != "**"}, e.guard, e.loc, e.loops, e.result, e.seq, e.fn)
          for e in r.it.events if e.name.split(".")[-1] in ("savez", "savez_compressed")]
    if not ev and any("save" in e.name.split(".")[-1] for e in r.it.events):
        return {"what is stored where": mk("unknown", "another archive function")}
    return {"what is stored where": events_term(r, ("store",), events=ev)}


def sources(c):
    F = "grid name x y z period amplitude phase_shift pulse cycle frequency hanning_dt wavelength signal_type profile courant grid_points_per_wavelength polarization _Epol _Hpol"
    part(c, "sources", "PointSource", (("__init__", "source_init"), ("_register_grid", "point_register"), ("update_E", "point_E"), ("update_H", "nothing")), F)
    part(c, "sources", "LineSource", (("__init__", "source_init"), ("_register_grid", "line_register"), ("_handle_slices", "line_cells"), ("update_E", "line_E"), ("update_H", "nothing")), F)
    part(c, "sources", "PlaneSource", (("__init__", "plane_init"), ("_register_grid", "plane_register"), ("_handle_slices", "plane_cells"), ("update_E", "plane_E"), ("update_H", "plane_H")), F)
    part(c, "sources", "SoftArbitraryPointSource", (("__init__", "soft_init"), ("_register_grid", "soft_register"), ("update_E", "soft_E"), ("update_H", "nothing")), F + " input_voltage source_voltage waveform_array impedance current_detector",
         lists=("input_voltage", "source_voltage"), base=("CurrentDetector",))
    c.equiv("ricker", c.private("nidn.fdtd.sources._ricker"), "fdtd.ricker")
    for f, s in (("hanning", "hann"), ("normalized_gaussian_pulse", "gaussian"), ("normalized_gaussian_derivative_pulse", "gaussian_derivative")):
        c.equiv(f, c.private("nidn.fdtd.waveforms." + f), "fdtd." + s)
    for f, s in (("simE_to_worldE", "e_out"), ("worldE_to_simE", "e_in"), ("simH_to_worldH", "h_out"), ("worldH_to_simH", "h_in")):
        c.equiv(f, c.private("nidn.fdtd.conversions." + f), "fdtd." + s)


I = "nidn.fdtd_integration."
KINDS = {"PML": "boundary", "PeriodicBoundary": "boundary", "PointSource": "source", "LineSource": "source", "PlaneSource": "source", "SoftArbitraryPointSource": "source", "LineDetector": "detector",
         "BlockDetector": "detector", "CurrentDetector": "detector", "AbsorbingObject": "object", "Object": "object", "AnisotropicObject": "object"}
PARTS = tuple(KINDS)


def fdtd_scene(c):
    c.equiv("grid scaling", c.private(I + "compute_fdtd_grid_scaling._compute_fdtd_grid_scaling"), "fdtd_run.scaling", obs=("value", "raises", "cfgkeys"))
    c.equiv("scene (FDTD)", c.private(I + "init_fdtd.init_fdtd"), "fdtd_run.scene", cuts=PARTS + ("Grid", "set_backend"),
            obs=("value", "raises", "cfgkeys", "mut:permittivity", ("events", "set_backend", "new:Grid"), ("placed", KINDS)))


def fdtd_spectrum(c):
    cuts = ("get_frequency_points", "_compute_fdtd_grid_scaling", "_check_if_enough_timesteps", "init_fdtd", "_get_detector_values", "calculate_transmission_reflection_coefficients")
    c.equiv("spectrum (FDTD)", c.private(I + "compute_spectrum_fdtd.compute_spectrum_fdtd"), "fdtd_run.spectrum", cuts=cuts,
            obs=("value", "raises", "cfgkeys", "cfg.PER_LAYER_THICKNESS", "cfg.FDTD_grid_scaling", "mut:permittivity", ("events", "init_fdtd", ".run", "_get_detector_values")))


def coefficients(c):
    S, K = I + "compute_spectrum_fdtd.", I + "calculate_transmission_reflection_coefficients."
    cuts = ("_get_abs_value_from_3D_signal", "_average_along_detector", "_eliminate_transient_part", "_peak_based_coefficient_computation", "_check_and_normalize_coefficients", "_torch_find_peaks")
    for m, f, s in ((S, "_get_detector_values", "values"), (S, "_get_abs_value_from_3D_signal", "signal_of"), (S, "_average_along_detector", ("average", "average_mean", "average_rows", "average_cells")),
                    (K, "calculate_transmission_reflection_coefficients", "coefficients"), (K, "_check_and_normalize_coefficients", "normalise"), (K, "_mean_square", "power"),
                    (K, "_peak_based_coefficient_computation", "peak_coefficients"), (K, "_torch_find_peaks", "peaks")):
        args = None
        s = tuple("fdtd_run." + x for x in s) if isinstance(s, tuple) else "fdtd_run." + s
        if "transmission_signals" in c.argnames(c.spec(s if isinstance(s, str) else s[0])):
            pair = lambda n: mk("list", None, [sym(n + "0"), sym(n + "1")])
            args = {k: pair(k) for k in ("transmission_signals", "reflection_signals")}
        c.equiv(f, c.private(m + f), s, cuts=[x for x in cuts if x != f], obs=("value", "raises", "cfgkeys"), args=args)
    c.equiv("_eliminate_transient_part", c.private(K + "_eliminate_transient_part"), "fdtd_run.steady", cuts=cuts[:3], args={"plot": FALSE}, obs=("value", "raises", "cfgkeys"))
