import importlib
import os

for _f in sorted(os.listdir(os.path.dirname(__file__))):
    if _f.endswith('.py') and _f != '__init__.py':
        importlib.import_module(f"props.{_f[:-3]}")
