"""Networks."""
from ..core import *

U = "nidn.training.utils."
CLS = ("NERF", "Siren", "Voxel")


def networks(c):
    c.equiv("init_network", c.private("nidn.training.model.init_network.init_network"), "networks.create", cuts=CLS, obs=("value", "raises", "cfgkeys"))
    S, N, V = U + "siren.", U + "nerf.", U + "voxel."
    c.equiv("SineLayer.__init__", c.private(S + "SineLayer.__init__"), "networks.sine_layer", obs=("raises", "self.omega_0", "self.linear", ("events", "init range")))
    c.equiv("SineLayer.forward", c.private(S + "SineLayer.forward"), "networks.sine_forward")
    c.equiv("SineLayer.forward_with_intermediate", c.private(S + "SineLayer.forward_with_intermediate"), "networks.sine_intermediate")
    c.equiv("Siren.__init__", c.private(S + "Siren.__init__"), "networks.siren", cuts=("SineLayer",), obs=("raises", "self.net", ("events", "init range")))
    c.equiv("Siren.forward", c.private(S + "Siren.forward"), "networks.siren_forward")
    c.equiv("NERFLayer.__init__", c.private(N + "NERFLayer.__init__"), "networks.nerf_layer",
            obs=("raises", "self.linear", "self.activation", ("events", "torch.nn.init.xavier_uniform_", "init range")))
    c.equiv("NERFLayer.forward", c.private(N + "NERFLayer.forward"), "networks.nerf_layer_forward")
    c.equiv("NERF.__init__", c.private(N + "NERF.__init__"), "networks.nerf", cuts=("NERFLayer",), obs=("raises", "self.net", "self.skip"))
    c.equiv("NERF.forward", c.private(N + "NERF.forward"), "networks.nerf_forward")
    c.equiv("Voxel.__init__", c.private(V + "Voxel.__init__"), "networks.voxel", obs=("raises", "self.weights", "cfgkeys"))
    c.equiv("Voxel.forward", c.private(V + "Voxel.forward"), "networks.voxel_forward")
    c.equiv("AbsLayer.forward", c.private(U + "abs_layer.AbsLayer.forward"), "networks.magnitude")
