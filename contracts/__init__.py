"""The contracts, one module per property."""
import importlib
import os
import pkgutil

_only = os.environ.get("VERIF_ONLY_PROPERTY")
for _m in sorted(m.name for m in pkgutil.iter_modules(__path__)):
    if _m.startswith("c") and _m[1:3].isdigit():
        if _only and not _m.startswith(_only.lower()):
            continue
    importlib.import_module(f"{__name__}.{_m}")
