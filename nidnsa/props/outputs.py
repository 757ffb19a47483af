"""Stored runs, seeds and plots."""
from ..core import *
from ..interp import Event
from ..vg import subterms

DRAW = {"plot": 2, "scatter": 3, "semilogy": 1, "legend": 1, "savefig": 1, "show": 0}
FREE = {"semilogy": (), "plot": (), "legend": (), "savefig": (), "show": (), "scatter": ("c", "vmin", "vmax")}


def bare(t):
    """point lists: the layout of the coordinate arrays is irrelevant"""
    while t.op == "app" and t.val in ("reshape", "flatten", "ravel", "listof", "asarray") and t.args:
        t = t.args[0]
    return t


ANN = {"set_title": ("title", 0), "title": ("title", 0), "set_xlabel": ("x label", 0), "xlabel": ("x label", 0), "set_ylabel": ("y label", 0), "ylabel": ("y label", 0),
       "set_ylim": ("y limits", 0), "ylim": ("y limits", 0), "text": ("text", 2), "set_ticklabels": ("tick labels", 0), "set_zticklabels": ("layer labels", 0)}


def annotated(r):
    """titles, labels, limits and texts, each with the curves of its axes"""
    curves, notes = {}, []
    for e in r.it.events:
        n = e.name.split(".")[-1]
        if not (e.name.startswith(".") or "pyplot" in e.name):
            continue
        args, home = list(e.args), None
        if e.name.startswith("."):
            home, args = args[0], args[1:]
        if n in CURVES:
            curves.setdefault(home, []).append(Event(n, tuple(bare(a) for a in args[:DRAW[n]]), {}, e.guard, e.loc, e.loops, e.result, e.seq, e.fn))
        elif n in ANN and len(args) > ANN[n][1]:
            k, i = ANN[n]
            notes.append((home, Event(k, (args[i],), {}, e.guard, e.loc, e.loops, e.result, e.seq, e.fn)))
    groups = {}
    for home, e in notes:
        es = curves.get(home, [])
        on = mk("list", None, [mk("tuple", None, (const(x.name),) + x.args) for x in es]) if es and not e.loops and not any(x.loops for x in es) else NONE
        groups.setdefault((e.name, on), []).append(e)
    rows = {}
    for (k, on), es in groups.items():
        rows.setdefault("shown as " + k, []).extend(mk("tuple", None, (on, row)) for row in events_term(r, (k,), events=es).args)
    return {k: mk("list", None, tuple(sorted(v, key=lambda x: x.id))) for k, v in rows.items()}


CURVES = ("plot", "scatter", "semilogy")


def drawn(r, names=tuple(DRAW)):
    """what is drawn, per set of axes in drawing order (labels are positional); which axes is free"""
    ev, axes = [], {}
    for e in r.it.events:
        n = e.name.split(".")[-1]
        if n not in names or not (e.name.startswith(".") or "pyplot" in e.name):
            continue
        args, home = list(e.args), None
        if e.name.startswith("."):
            home, args = args[0], args[1:]
        k = DRAW[n]
        e2 = Event(n, tuple(bare(a) for a in args[:k]), {x: bare(v) for x, v in e.kws.items() if x in FREE[n]}, e.guard, e.loc, e.loops, e.result, e.seq, e.fn)
        if n in CURVES or n == "legend":
            axes.setdefault(home, []).append(e2)
        else:
            ev.append(e2)
    labels, rest = [], []
    for home, es in axes.items():
        lab = events_term(r, ("legend",), events=es)
        if lab.args and "legend" in names:
            labels.append(mk("tuple", None, (events_term(r, CURVES, events=es), lab)))
        else:
            rest += es
    rest.sort(key=lambda e: e.seq)
    rows = events_term(r, CURVES, events=rest).args
    out = {"curves and points drawn": mk("list", None, tuple(sorted(rows, key=lambda x: x.id))),
           "labelled curves": mk("list", None, tuple(sorted(labels, key=lambda x: x.id)))}
    for n in ("savefig", "show"):
        if n in names:
            out[SHOWN[n]] = events_term(r, (n,), events=ev)
    out.update(annotated(r))
    return out


SHOWN = {"savefig": "image file written", "show": "shown on screen"}


def stored(r):
    """folder, file and content, in order"""
    ev = []
    for e in r.it.events:
        n = e.name.split(".")[-1]
        if n in ("mkdir", "makedirs"):
            a = e.args[0]
            p = a.args[0] if a.op == "app" and a.val == "pathlib.Path" and len(a.args) == 1 else a
            flags = [e.kws.get("exist_ok", FALSE), TRUE if n == "makedirs" else e.kws.get("parents", FALSE)]
            ev.append(Event("folder", (trim(p), *flags), {}, e.guard, e.loc, e.loops, e.result, e.seq, e.fn))
        elif n == "open" and len(e.args) >= 2:
            ev.append(Event("open", (e.args[0], e.args[1]), {}, e.guard, e.loc, e.loops, e.result, e.seq, e.fn))
        elif n == "dump" and "pickle" in e.name:
            ev.append(Event("store", tuple(e.args[:2]), {}, e.guard, e.loc, e.loops, e.result, e.seq, e.fn))
        elif n in ("unlink", "remove", "rmtree", "rename", "truncate"):
            ev.append(Event(n, e.args, {}, e.guard, e.loc, e.loops, e.result, e.seq, e.fn))
    return {"what is stored where": events_term(r, ("folder", "open", "store", "unlink", "remove", "rmtree", "rename", "truncate"), events=ev)}


def trim(p):
    """a path without trailing slash"""
    if p.op == "app" and p.val == "strcat" and is_str(p.args[-1]):
        s = pyconst(p.args[-1]).rstrip("/")
        return app("strcat", list(p.args[:-1]) + [const(s)])
    return p


def changed(r):
    """changes made to the loaded object"""
    ev = [e for e in r.it.events if (e.name in ("setattr", "setitem", "del") or e.name in (".pop", ".update", ".clear", ".setdefault", ".load_state_dict", ".popitem"))
          and e.args and any(x.op == "app" and str(x.val).endswith(".load") for x in subterms(e.args[0]))]
    return {"changes to what was loaded": events_term(r, tuple({e.name for e in ev}), events=ev)}


def runs(c):
    c.equiv("save_run", c.public("save_run"), "runs.save", obs=("raises", "cfgkeys"), post=stored)
    c.equiv("load_run", c.public("load_run"), "runs.load", obs=("value", "raises"), post=changed)


PC = ("model_to_eps_grid", "compute_spectrum", "MaterialCollection", "_find_closest_material", "compute_target_frequencies")


def plots(c):
    for f, s in (("plot_losses", "losses"), ("plot_epsilon_grid", "epsilon_grid"), ("plot_model_grid", "model_grid"), ("plot_model_grid_per_freq", "model_grid_per_freq"),
                 ("plot_material_grid", "material_grid"), ("plot_spectra", "spectra"), ("plot_spectrum", "spectrum"), ("plot_eps_per_point", "eps_per_point")):
        c.equiv(f, c.public(f), "plots." + s, cuts=PC, obs=("raises", "cfgkeys"),
                post=drawn)
    names = ("plot_spectra", "plot_losses", "plot_model_grid", "plot_model_grid_per_freq", "plot_material_grid", "plot_eps_per_point")
    c.equiv("save_all_plots", c.public("save_all_plots"), "plots.everything", cuts=names, obs=("raises", "cfgkeys") + tuple(("events", n) for n in names), post=stored)
