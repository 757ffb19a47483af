import importlib
import os

for f in sorted(os.listdir(os.path.dirname(__file__))):
    if f.startswith("p_") and f.endswith(".py"):
        importlib.import_module("nidnsa.props." + f[:-3])
