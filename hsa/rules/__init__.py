"""One module per area; importing it registers its rules."""

import importlib
import pkgutil

for _, _name, _ in sorted(pkgutil.iter_modules(__path__), key=lambda m: m[1]):
    importlib.import_module(f'{__name__}.{_name}')
