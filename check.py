#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's working tree."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
import checks  # noqa: E402
sys.exit(checks.run(sys.argv[1]))
