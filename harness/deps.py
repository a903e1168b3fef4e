"""Makes `import hypothesis` work in the repository's own virtual environment.

Hypothesis is not installed next to jax, and there is no network.  It is loaded
from the pre-installed tooling venv (or, if that is missing, from the offline
wheelhouse), and nothing but Hypothesis and its dependencies comes from there,
so the numpy/scipy/jax used by the code under test are never shadowed.
"""
import importlib.abc
import importlib.machinery
import glob
import os
import sys

_NAMES = {
    'hypothesis', 'sortedcontainers', 'attr', 'attrs', '_hypothesis_globals',
    '_hypothesis_ftz_detector', '_hypothesis_pytestplugin'}
_VENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_WHEELS = '/opt/veriftools/wheels'


class _Finder(importlib.abc.MetaPathFinder):

  def __init__(self, path):
    self.path = path

  def find_spec(self, name, path=None, target=None):
    if path is None and name in _NAMES:
      return importlib.machinery.PathFinder.find_spec(name, [self.path])
    return None


def install():
  try:
    import hypothesis  # pylint: disable=unused-import
    return
  except ImportError:
    pass
  where = _VENV
  if not os.path.isdir(os.path.join(_VENV, 'hypothesis')):
    import tempfile, zipfile, atexit, shutil
    where = tempfile.mkdtemp(prefix='verif_hyp_')
    atexit.register(shutil.rmtree, where, True)
    for pattern in ('hypothesis-*cp312*.whl', 'sortedcontainers-*.whl',
                    'attrs-*.whl'):
      for wheel in sorted(glob.glob(os.path.join(_WHEELS, pattern)))[-1:]:
        zipfile.ZipFile(wheel).extractall(where)
  sys.meta_path.insert(0, _Finder(where))
  import hypothesis  # pylint: disable=unused-import
