import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
prop = sys.argv[1]
try:
    mod = importlib.import_module(prop.lower())
except Exception:
    import traceback
    traceback.print_exc()
    sys.exit(2)
core.main(prop, mod.check)
