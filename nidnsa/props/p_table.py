"""Which obligation groups decide which property."""
from . import prop
from . import groups as g
from . import fdtd as f
from . import grad as gr
from . import material as m
from . import network as nw
from . import outputs as o
from . import lints as li

EQ = "value-graph equality with the reference semantics: "


def define(pid, rule, *fns, method=EQ):
    def run(c):
        for f in fns:
            f(c)
    prop(pid, method + rule)(run)


define("C01", "solver dispatch, validation, shape and order of the result", g.dispatch, g.trcwa_spectrum, f.fdtd_spectrum, g.frequencies)
define("C02", "RCWA scene built from configuration and permittivity grid", g.scene, g.trcwa_spectrum, g.stack, g.lattice)
define("C03", "lattice, diffraction orders, Fourier factorisation", g.helpers, g.lattice, g.setup)
define("C04", "layer modes, S-matrix recursion, reflected and transmitted flux", g.modes, g.smatrix, g.helpers, g.stack)
define("C05", "interior amplitudes, fields, volume and stress integrals", g.interior, g.reconstruction)
define("C14", "regression permittivity grid", lambda c: g.model_grid(c, ("regression",)))
define("C15", "classification material mixture", lambda c: g.model_grid(c, ("classification",)))
define("C16", "network sampling coordinates, grid shape and oversampling", g.model_grid)
define("C17", "training loop state, snapshots and recovery", g.training)
define("C19", "accepted and rejected configurations", g.validator)
define("C21", "unit conversions and target frequencies", g.units, g.frequencies)
define("C24", "closest-material assignment", g.closest)
define("C25", "spectrum loss", g.spectrum_loss)
define("C26", "regularisation loss", g.reg_loss)
define("C08", "staggered-grid updates, curls, stability limit, time stepping", f.grid)
define("C06", "time-domain scene built from the configuration", f.fdtd_scene, f.fdtd_spectrum)
define("C13", "placement on the grid", f.placement, f.times)
define("C09", "absorbing and periodic boundaries", f.boundaries)
define("C10", "sources and waveforms", f.sources, f.times)
define("C11", "detectors", f.detectors, f.readings)
define("C12", "material objects", f.objects)
define("C07", "transmission and reflection coefficients from detector signals", f.coefficients, f.fdtd_spectrum)
define("C18", "no detachment, integer cast or disabled-gradient region on the value path from design to loss", gr.gradients, method="gradient-flow (taint) analysis over the value graph: ")
define("C22", "material collection", m.collection)
define("C23", "layer builder", m.builder)
define("C30", "networks: layers, widths, activations and initial weight ranges", nw.networks)
define("C27", "stored runs", o.runs)
define("C28", "plots: curves, points, labels and files", o.plots)
define("C29", "seeding, entropy, clock and directory order, module-level and shared mutable state", li.state, method="effect analysis over the syntax tree and call graph: ")
define("C20", "configuration entries read, written and defaulted", li.config, method="configuration-key dataflow over the whole package: ")
define("C31", "names, imports, call signatures, library attributes, object attributes, locals", li.names, method="resolution of every reference against its definition: ")
