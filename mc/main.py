import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core  # noqa: E402
import importlib  # noqa: E402


def find(prop):
    for f in sorted(os.listdir(core.HERE)):
        if f.startswith(prop.lower() + "_") and f.endswith(".py"):
            return importlib.import_module(f[:-3])
    raise SystemExit(f"no check for {prop}")


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(core.replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(core.main(find(sys.argv[1]), tier))
