#!/usr/bin/env python3
"""check.py <ID>: decide one property of /repo by bounded exhaustive exploration. See DESIGN.md."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import runner
sys.exit(runner.main(sys.argv[1:]))
