#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's current working tree. check.py --setup builds the engine."""
import os
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
import specs


def main():
    if sys.argv[1] == '--setup':
        driver.setup()
        return 0
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    return driver.Check(pid, tier, specs.SPECS[pid]).main()


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
