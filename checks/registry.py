import importlib, glob, os
MODULES = [importlib.import_module(os.path.basename(p)[:-3]) for p in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "*_checks.py")))]
CHECKS = {k: f for m in MODULES for k, f in vars(m).items() if len(k) == 3 and k[0].isupper() and k[1:].isdigit()}
