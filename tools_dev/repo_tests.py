"""Run the repository's own tests with the native stand-in installed (development aid)."""
import os, sys, unittest
sys.path.insert(0, '/verif')
from bbv import pyload, paths
pyload.load(True)
os.chdir(paths.REPO)
sys.path.insert(0, str(paths.REPO))
unittest.main(module=None, argv=['x', '-v'] + sys.argv[1:])
