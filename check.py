#!/usr/bin/env python3
"""Entry point of every check: check.py <property id>."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import common  # noqa: E402


def main():
    pid = sys.argv[1]
    from harness import registry
    try:
        return registry.CHECKS[pid]()
    except common.CheckError as e:
        print("CHECK ERROR property=%s: %s" % (pid, e), flush=True)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    finally:
        common.cleanup()


if __name__ == "__main__":
    sys.exit(main())
