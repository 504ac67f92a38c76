"""One module per subsystem; each registers its checks in CHECKS."""
import importlib, os
CHECKS = {}
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if f.endswith(".py") and f != "__init__.py":
        CHECKS.update(importlib.import_module("groups." + f[:-3]).CHECKS)
