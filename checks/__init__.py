"""One function per property."""
import importlib, os
REGISTRY = {}
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if f.endswith('.py') and f != '__init__.py':
        REGISTRY.update(importlib.import_module('checks.' + f[:-3]).CHECKS)
