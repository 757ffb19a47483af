"""Materials and layer builder."""
from ..core import *

MC = "nidn.materials.material_collection.MaterialCollection."
LB = "nidn.materials.layer_builder.LayerBuilder."
T = {"self.material_collection": "nidn.materials.material_collection.MaterialCollection"}


def collection(c):
    c.equiv("material collection", c.private(MC + "__init__"), "materials.collection",
            obs=("raises", "self.epsilon_matrix", "self.material_names", "self.N_materials", "self.target_frequencies"))
    c.equiv("stand-alone material table", c.private("nidn.trcwa.load_material_data._load_material_data"), "materials.table", obs=("value", "raises"))
    c.equiv("material by name", c.private(MC + "__getitem__"), "materials.by_name", obs=("value", "raises", "self.epsilon_matrix", "self.material_names"))


def builder(c):
    c.equiv("layer builder", c.private(LB + "__init__"), "materials.builder", cuts=("MaterialCollection",), obs=("self.run_cfg", "self.material_collection", "cfgkeys"))
    for f, s in (("build_uniform_layer", "uniform"), ("build_squared_layer", "square"), ("build_circle_layer", "circle")):
        c.equiv(f, c.private(LB + f), "materials." + s, obs=("value", "raises"))
