"""one law in one process: worker.py PROP LAW TIER SEED OUT"""
import importlib
import json
import os
import sys
import traceback

from vpbt import core


def main():
    prop, lawname, tier, seed, out = sys.argv[1:6]
    res = None
    try:
        importlib.import_module(f'vpbt.laws.{prop.lower()}')
        law = [x for x in core.REGISTRY[prop] if x.name == lawname][0]
        res = core.run_law(law, tier, int(seed))
    except MemoryError as e:
        res = dict(law=lawname, error=f'MemoryError {e}')
    except Exception:  # noqa
        res = dict(law=lawname, error=traceback.format_exc())
    with open(out + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(res, f, default=str)
    os.replace(out + '.tmp', out)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
