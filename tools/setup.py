"""setup_cmd: checks that the offline toolchain is there (each check provisions itself)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.core import setup_path
setup_path()
import hypothesis, psygnal
print("hypothesis", hypothesis.__version__, "psygnal", psygnal.__file__)
