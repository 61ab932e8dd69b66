import os
import sys

from pbt import core

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(core.replay(sys.argv[2]))
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        rc = core.run_property(prop, tier, seed)
    except SystemExit:
        raise
    except BaseException:  # noqa
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
