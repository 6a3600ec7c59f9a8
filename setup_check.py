"""setup_cmd: nothing to build (the checks read /repo's working tree) - make sure that what they import is there"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from hv import core  # pylint: disable=wrong-import-position

core.setup_path()
import z3  # pylint: disable=wrong-import-position,unused-import
os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
print('ready')
