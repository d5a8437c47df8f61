"""setup: nothing to build; confirms that the solver and the code under test can be imported"""
import sys
sys.dont_write_bytecode = True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, z3  # noqa
print('python', sys.version.split()[0], 'numpy', numpy.__version__, 'scipy', scipy.__version__, 'z3', z3.get_version_string())
