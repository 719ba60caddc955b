import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import common
def run(ctx):
    mod = importlib.import_module("checks." + ctx.prop.lower())
    mod.run(ctx)
if __name__ == "__main__":
    common.main(run)
