#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current working tree.

1. every contract listed for the property is proved again from the current source (vc/);
2. the property's driver (drivers/) is built from the current source and run: it replays failed
   obligations against the real code, and stands in (bounded) for what the verifier cannot reach.
Exit 0: held.  Exit 1 with a VIOLATION line: broken.
"""
import os, sys
if 'python3-vt' not in sys.executable and '/opt/veriftools/pyvenv' not in sys.prefix:
    os.execvp('python3-vt', ['python3-vt'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc.runner import main
if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
