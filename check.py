"""Run the check of one property: python check.py C03 [--replay FILE]."""
import sys

from vlib import env  # noqa: F401  (process set-up, must come first)
from vlib.runner import main

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
