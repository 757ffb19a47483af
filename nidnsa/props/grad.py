"""Differentiability: nothing on the way from a design to its loss cuts the gradient."""
import ast
from ..core import *
from ..vg import children
from .fdtd import TYPES, PC, HC, I, PARTS
from .groups import FUN, TM, M, C, F, TCUTS

# operations whose operand only steers control or addressing: no gradient is expected through them
STEER = {"shape", "len", "ndim", "argmax", "argmin", "argsort", "nonzero", "any", "all", "isnan", "isinf", "isfinite", "eq", "truthy", "is", "in", "has", "range", "numel", "dim", "_torch_find_peaks"}
FLAT = {"round", "floor", "ceil", "trunc", "int", "floordiv"}
INTS = {"int32", "int64", "int16", "int8", "uint8", "bool", "long"}


def value_args(t):
    """operands a derivative passes through"""
    if t.op == "cfgsnap":
        return ()
    if t.op == "ite":
        return t.args[1:]
    if t.op in ("eq", "lt0", "le0", "eq0", "ne0", "ne", "is", "in", "has", "truthy", "slice"):
        return ()
    if t.op == "idx":
        return t.args[:1]
    if t.op == "store":
        return (t.args[0], t.args[2])
    if t.op == "map":
        return t.args[1:]
    if t.op == "app":
        if t.val in STEER:
            return ()
        if t.val == "where" and len(t.args) == 3:
            return t.args[1:]
        if t.val in ("zeros", "ones", "zeros_like", "ones_like", "eye", "linspace", "arange", "randn_like", "rand_like"):
            return ()
    if t.op in ("loop", "while"):
        return t.args[1:]
    return children(t)


def kills(t):
    """(node, operand) where the derivative of the operand is dropped"""
    if t.op == "app" and t.val == "gradkill":
        return t.args[1]
    if t.op == "app" and t.val in FLAT and t.args:
        return t.args[0]
    if t.op == "app" and t.val == "cast" and len(t.args) == 2 and t.args[1].op == "dtype" and t.args[1].val in INTS:
        return t.args[0]
    return None


def reaches(t, src, memo):
    if t in memo:
        return memo[t]
    memo[t] = False
    r = src(t) or any(reaches(a, src, memo) for a in value_args(t))
    memo[t] = r
    return r


def cut_points(t, src):
    memo, seen, out = {}, set(), []

    def walk(x):
        if x in seen:
            return
        seen.add(x)
        if src(x):
            return
        k = kills(x)
        if k is not None:
            if reaches(k, src, memo):
                out.append(x)
            return
        for a in value_args(x):
            walk(a)
    walk(t)
    return out, memo


def live(t, src):
    """some path without a cut leads to the source"""
    seen = set()

    def walk(x):
        if x in seen:
            return False
        seen.add(x)
        if src(x):
            return True
        if kills(x) is not None:
            return False
        return any(walk(a) for a in value_args(x))
    return walk(t)


def from_names(names):
    def src(t):
        return t.op == "sym" and isinstance(t.val, str) and any(t.val == n or t.val.startswith(n + ".") or (t.val.startswith(n) and t.val[len(n):].isdigit()) for n in names)
    return src


def anything(t):
    return t.op == "sym" and isinstance(t.val, str) and not t.val.startswith(("cfg", "%", "state:"))


def path(c, label, func, sources, sink, cuts=(), cfg=None, args=None, must=True, types=None, models=None):
    if func is None:
        c.unsure(label, "anchor function not found")
        return
    if sources and not callable(sources):
        # renamed parameters: fall back to all inputs
        have = set(func.params()) | {"self", "cfg"} if hasattr(func, "params") else {a.arg for a in func.node.args.args} | {"cfg"}
        if not all(s.split(".")[0] in have for s in sources):
            sources = None
    src = sources if callable(sources) else from_names(sources) if sources else anything

    def body():
        c.types, c.models = types or {}, models or {}
        try:
            r = c.run(func, args, cfg, cuts, grad=True)
        finally:
            c.types, c.models = {}, {}
        for name, t in sink(r).items():
            lab = "%s: gradient through %s" % (label, name)
            if t is None:
                c.unsure(lab, "not found")
                continue
            bad, _ = cut_points(t, src)
            if bad:
                loc = next((r.it.locs[b] for b in bad if r.it.locs.get(b)), None) or (func.mod.path, func.node.lineno, func.qual)
                c.bad(lab, loc, "the derivative is dropped at %s" % show(bad[0], 4)[:300])
            elif must and not live(t, src):
                if r.it.unknown:
                    c.unsure(lab, "unsupported construct %s" % r.it.unknown[0][0])
                else:
                    c.bad(lab, (func.mod.path, func.node.lineno, func.qual), "no differentiable path from %s" % (", ".join(sources) if sources and not callable(sources) else "the inputs"))
            else:
                c.ok(lab)
    c.attempt(label, body)


def value(r):
    return {"the result": r.value}


def fields(*names):
    def sink(r):
        p = r.params["self"]
        out = {}
        for n in names:
            if "." in n:
                a, b = n.split(".")
                q = r.st.heap[p].data.get(a)
                out[n] = r.field(q, b) if q is not None else None
            else:
                out[n] = r.field(p, n)
        return out
    return sink


def eventargs(*names):
    def sink(r):
        ts = [a for e in r.it.events if e.name in names for a in list(e.args) + list(e.kws.values())]
        return {" and ".join(names): mk("tuple", None, ts) if ts else None}
    return sink


def gradients(c):
    # model -> permittivity
    for ty, mt in (("regression", "siren"), ("regression", "nerf"), ("regression", "voxel"), ("classification", "siren"), ("classification", "nerf")):
        for noise in (True, False):
            path(c, "permittivity from model (%s, %s, noise=%s)" % (ty, mt, noise), c.public("model_to_eps_grid"), ["cfg.model", "model"], value,
                 cfg={"type": ty, "model_type": mt, "add_noise": noise})
    # permittivity -> spectrum
    path(c, "solver dispatch", c.public("compute_spectrum"), None, value, cuts=("_validate_config", "compute_spectrum_fdtd", "compute_spectrum_trcwa"))
    path(c, "RCWA spectrum", c.private("nidn.trcwa.compute_spectrum_trcwa.compute_spectrum_trcwa"), None, value, cuts=("_init_trcwa",), models=TM)
    cuts = ("Init_Setup", "MakeExcitationPlanewave", "GridLayer_geteps", "Add_LayerUniform", "Add_LayerGrid")
    path(c, "RCWA scene", c.private("nidn.trcwa.init_trcwa._init_trcwa"), ["eps_grid"], eventargs("TRCWA.Add_LayerUniform", "TRCWA.GridLayer_geteps"), cuts=cuts, models=TM)
    path(c, "Add_LayerUniform", c.private(C + "Add_LayerUniform"), ["epsilon"], fields("Uniform_ep_list"), types={"self.Uniform_ep_list": "list", "self.id_list": "list", "self.thickness_list": "list"})
    for f, s in (("GridLayer_geteps", ("Patterned_epinv_list", "Patterned_ep2_list", "kp_list", "q_list", "phi_list")), ("Init_Setup", ("kp_list", "q_list", "phi_list"))):
        path(c, f, c.private(C + f), ["ep_all"] if f == "GridLayer_geteps" else ["self.Uniform_ep_list"], fields(*s), cuts=FUN, models=TM, must=f != "Init_Setup")
    for f in ("torch_dot", "torch_transpose"):
        path(c, f, c.private("nidn.trcwa.utils.torch_functions." + f), None, value)
    for f, s in (("get_conv", ["s_in"]), ("Epsilon_fft", ["eps_grid"])):
        path(c, f, c.private(F + f), s, value, cuts=[x for x in FUN if x != f], models=TM)
    for f in ("MakeKPMatrix", "SolveLayerEigensystem_uniform", "SolveLayerEigensystem", "GetSMatrix", "SolveExterior", "GetZPoyntingFlux"):
        path(c, f, c.private(M + f), None, value, cuts=[x for x in FUN if x != f], models=TM)
    path(c, "RT_Solve", c.private(C + "RT_Solve"), None, value, cuts=FUN, models=TM)
    # permittivity -> spectrum, time domain
    cuts = ("get_frequency_points", "_compute_fdtd_grid_scaling", "_check_if_enough_timesteps", "init_fdtd", "_get_detector_values", "calculate_transmission_reflection_coefficients")
    path(c, "FDTD spectrum", c.private(I + "compute_spectrum_fdtd.compute_spectrum_fdtd"), ["permittivity"], value, cuts=cuts)
    path(c, "FDTD scene", c.private(I + "init_fdtd.init_fdtd"), ["permittivity"], eventargs("new:AbsorbingObject"), cuts=PARTS + ("Grid", "set_backend"))
    O = "nidn.fdtd.objects."
    path(c, "Object._register_grid", c.private(O + "Object._register_grid"), ["self.permittivity"], fields("grid.inverse_permittivity"), cuts=[x for x in PC if x != "_register_grid"], types=TYPES)
    path(c, "AbsorbingObject._register_grid", c.private(O + "AbsorbingObject._register_grid"), ["self.permittivity", "self.conductivity", "self.inverse_permittivity"], fields("grid.absorption_factor"),
         cuts=[x for x in PC if x != "_register_grid"], types=TYPES)
    for f, s in (("update_E", ("E",)), ("update_H", ("H",))):
        path(c, "Grid." + f, c.private("nidn.fdtd.grid.Grid." + f), None, fields(*s), cuts=[x for x in HC if x != f])
    for f in ("curl_E", "curl_H"):
        path(c, f, c.private("nidn.fdtd.grid." + f), None, value)
    for f, s in (("update_E", "grid.E"), ("update_H", "grid.H"), ("update_phi_E", "phi_E"), ("update_phi_H", "phi_H")):
        path(c, "PML." + f, c.private("nidn.fdtd.boundaries.PML." + f), None, fields(s), cuts=[x for x in HC if x != f], types=TYPES)
    path(c, "LineDetector.detect_E", c.private("nidn.fdtd.detectors.LineDetector.detect_E"), ["self.grid.E"], fields("E"), cuts=PC, types=dict(TYPES, **{"self.E": "list"}))
    path(c, "LineDetector.detector_values", c.private("nidn.fdtd.detectors.LineDetector.detector_values"), ["self.E"], value, types=dict(TYPES, **{"self.E": "list"}))
    for f, p in (("LineSource.update_E", "LineSource"), ("PointSource.update_E", "PointSource")):
        path(c, f, c.private("nidn.fdtd.sources." + f), ["self.grid.E"], fields("grid.E"), cuts=PC, types=TYPES)
    S, K = I + "compute_spectrum_fdtd.", I + "calculate_transmission_reflection_coefficients."
    helpers = ("_get_abs_value_from_3D_signal", "_average_along_detector", "_eliminate_transient_part", "_peak_based_coefficient_computation", "_check_and_normalize_coefficients", "_torch_find_peaks")
    for m, f, s in ((S, "_get_detector_values", None), (S, "_get_abs_value_from_3D_signal", None), (S, "_average_along_detector", None),
                    (K, "calculate_transmission_reflection_coefficients", ["transmission_signals", "reflection_signals"]), (K, "_check_and_normalize_coefficients", None),
                    (K, "_peak_based_coefficient_computation", None), (K, "_eliminate_transient_part", ["signal"])):
        args = {}
        if "transmission_signals" in c.names(m + f):
            args = {k: mk("list", None, [sym(k + "0"), sym(k + "1")]) for k in ("transmission_signals", "reflection_signals")}
        if "plot" in c.names(m + f):
            args["plot"] = FALSE
        path(c, f, c.private(m + f), s, value, cuts=[x for x in helpers if x != f], args=args)
    # spectrum -> loss -> step
    path(c, "spectrum loss", c.private("nidn.training.losses.spectrum_loss._spectrum_loss_fn"), ["produced_R_spectrum", "produced_T_spectrum"], lambda r: {"the loss": mk_idx(r.value, const(0))})
    path(c, "regularisation loss", c.private("nidn.training.losses.likelihood_regularization_loss._likelihood_regularization_loss_fn"), ["material_predictions"], value)
    for ty in ("regression", "classification"):
        def loss(r):
            ev = [e for e in r.it.events if e.name == "backward"]
            return {"the optimised loss": mk("tuple", None, [a for e in ev for a in e.args]) if ev else None}
        path(c, "training (%s)" % ty, c.public("run_training"), lambda t: t.op == "app" and t.val == "model_to_eps_grid", loss, cuts=TCUTS, cfg={"type": ty})
    # parameters -> network output
    for f, src in (("siren.SineLayer.forward", "self.linear"), ("siren.Siren.forward", "self.net"), ("nerf.NERFLayer.forward", "self.linear"), ("nerf.NERF.forward", "self.net"), ("voxel.Voxel.forward", "self.weights")):
        path(c, f, c.private("nidn.training.utils." + f), [src], value)
    frozen(c)
    tape(c)


SAVES = {"clip", "clamp", "abs", "absolute", "pow", "square", "sin", "cos", "tan", "log", "log10", "log2", "log1p", "norm", "std", "var", "prod", "atan", "asin", "acos", "sinc", "erf", "hypot", "clamp_min", "clamp_max"}
TAPED = ("nidn.training.", "nidn.trcwa.trcwa", "nidn.trcwa.init_trcwa", "nidn.trcwa.compute_spectrum_trcwa", "nidn.trcwa.utils.fft_funs", "nidn.fdtd_integration.", "nidn.fdtd.grid", "nidn.fdtd.objects", "nidn.fdtd.boundaries", "nidn.fdtd.detectors")


def _part(e):
    """name of the tensor a part (x.real, x[...]) of which the expression is, else None"""
    part = False
    while isinstance(e, ast.Subscript) or isinstance(e, ast.Attribute) and e.attr in ("real", "imag", "data", "T"):
        part = True
        e = e.value
    return ast.unparse(e) if part and isinstance(e, (ast.Name, ast.Attribute)) else None


def tape(c):
    """an operation that keeps its operand for the backward pass is not applied to a part of a tensor that is changed in place afterwards"""
    changed_params = {}
    for m in c.proj.modules.values():
        for f in ast.walk(m.tree):
            if isinstance(f, ast.FunctionDef):
                ps = [a.arg for a in f.args.args]
                hit = {_part(t) for x in ast.walk(f) if isinstance(x, (ast.Assign, ast.AugAssign)) for t in (x.targets if isinstance(x, ast.Assign) else [x.target])}
                bound = {t.id for x in ast.walk(f) if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
                for k, a in enumerate(ps):
                    if a in hit and a not in bound:
                        changed_params.setdefault(f.name, set()).add(k)
    n = 0
    for m in c.proj.modules.values():
        if not m.name.startswith(TAPED):
            continue
        for f in ast.walk(m.tree):
            if not isinstance(f, ast.FunctionDef) or f.name.startswith(("__init__", "init_")):
                continue
            loops = [x for x in ast.walk(f) if isinstance(x, (ast.For, ast.While))]
            off = [x for x in ast.walk(f) if isinstance(x, ast.With) and any("no_grad" in ast.unparse(i.context_expr) for i in x.items)]
            inside = lambda x, y: y.lineno <= x.lineno and x.end_lineno <= y.end_lineno
            alias, kept, changes, rebinds = {}, [], [], []
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, (ast.Attribute, ast.Subscript)) and _part(x.value) and not _advanced(x.value):
                    alias[x.targets[0].id] = _part(x.value)
            for x in ast.walk(f):
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        if _part(t):
                            changes.append((alias.get(_part(t), _part(t)), x))
                        elif isinstance(t, ast.Name):
                            rebinds.append((t.id, x))
                    for y in ast.walk(x.value):
                        op = None
                        if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in SAVES:
                            lib = isinstance(y.func.value, ast.Name) and y.func.value.id in ("torch", "bd", "np")
                            op = y.args[0] if lib and y.args else y.func.value
                        elif isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "abs" and y.args:
                            op = y.args[0]
                        elif isinstance(y, ast.BinOp) and isinstance(y.op, ast.Pow):
                            op = y.left
                        if op is not None and not _advanced(op):
                            v = _part(op) or (alias.get(op.id) if isinstance(op, ast.Name) else None)
                            if v:
                                n += 1
                                if not any(inside(x, w) for w in off) and not _under(x.value, y, (ast.Compare,)):
                                    kept.append((v, x, y))
                elif isinstance(x, ast.Call):
                    fn = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
                    for k in changed_params.get(fn, ()):
                        if k < len(x.args) and isinstance(x.args[k], (ast.Name, ast.Attribute)):
                            changes.append((ast.unparse(x.args[k]), x))
                    if isinstance(x.func, ast.Attribute) and fn.endswith("_") and not fn.startswith("_"):
                        changes.append((_part(x.func.value) or ast.unparse(x.func.value), x))
            for v, s, y in kept:
                for w, ch in changes:
                    if v != w or not (ch is s or ch.lineno > s.end_lineno or any(inside(ch, l) and inside(s, l) for l in loops)):
                        continue
                    if any(r == v and (s.lineno <= x.lineno <= ch.lineno or any(inside(x, l) and inside(s, l) and inside(ch, l) for l in loops)) for r, x in rebinds):
                        continue
                    c.bad("no value kept for the backward pass is overwritten", _loc(c, m, y), "%s keeps %s for the gradient, and line %d changes it in place" % (ast.unparse(y)[:80], v, ch.lineno))
                    break
    c.ok("no value kept for the backward pass is overwritten", n)


def _loc(c, m, node):
    import os
    fn = [f for f in ast.walk(m.tree) if isinstance(f, ast.FunctionDef) and f.lineno <= node.lineno <= f.end_lineno]
    return "%s:%d (%s)" % (os.path.relpath(m.path, c.proj.root), node.lineno, ".".join([m.name] + [f.name for f in fn[-1:]]))


def _advanced(e):
    """an index that copies"""
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        if isinstance(e, ast.Subscript):
            for p in e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]:
                if not isinstance(p, (ast.Slice, ast.Constant, ast.UnaryOp)) and not (isinstance(p, ast.Name) and len(p.id) <= 3):
                    return True
        e = e.value
    return False


def _under(top, node, kinds):
    for x in ast.walk(top):
        if isinstance(x, kinds) and any(z is node for z in ast.walk(x)):
            return True
    return False


def frozen(c):
    """no statement of the package takes a parameter off the tape or turns the tape off"""
    n = 0
    for m in c.proj.modules.values():
        if ".tests" in m.name:
            continue
        for x in ast.walk(m.tree):
            off = None
            if isinstance(x, ast.Assign):
                n += 1
                if any(isinstance(t, ast.Attribute) and t.attr == "requires_grad" for t in x.targets) and isinstance(x.value, ast.Constant) and x.value.value is False:
                    off = "requires_grad is set to False"
            elif isinstance(x, ast.Call):
                n += 1
                f = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
                no = [a for a in x.args if isinstance(a, ast.Constant) and a.value is False] + [k.value for k in x.keywords if isinstance(k.value, ast.Constant) and k.value.value is False and k.arg in ("requires_grad", "mode")]
                if f in ("requires_grad_", "set_grad_enabled") and no and not _in_with(m.tree, x):
                    off = "%s(False)" % f
                elif f == "Parameter" and (no or len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value is False):
                    off = "a parameter is created without gradient"
            if off:
                c.bad("no parameter is frozen and the tape stays on", _loc(c, m, x), off)
    c.ok("no parameter is frozen and the tape stays on", n)


def _in_with(tree, call):
    return any(i.context_expr is call for w in ast.walk(tree) if isinstance(w, ast.With) for i in w.items)
