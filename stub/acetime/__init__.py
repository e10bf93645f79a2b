"""Stand-in for the acetimepy package, which is not installed in the sandbox.

Only what acetimetools.bufestimator and acetimetools.tzcompiler import.
The zone processor is scripted: see zone_processor.py.
"""
