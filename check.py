#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide a property (see DESIGN.md)."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True

import vf  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = (sys.argv[2:] or [os.environ.get('VERIF_TIER', 'quick')])[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module(pid.lower())
    c = vf.Check(pid, tier, seed)
    try:
        mod.run(c)
        rc = c.finish(getattr(mod, 'LEVEL', 'model_checking'))
    except (vf.CheckError, vf._build.BuildError) as e:
        print(f'ERROR {pid}: {e}', flush=True)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        c.close()
    sys.stdout.flush()
    os._exit(rc)


main()
