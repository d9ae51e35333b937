"""pytest plugin: run pyuvdata's own tests on the instrumented code (concrete values).

Validates the numpy/Python model of symx against the repository's tests.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symx import hook  # noqa

hook.install()
