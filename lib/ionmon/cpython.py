"""Lets the library be imported by the CPython 3.12 of the tool environment, where its JSON encoder runs (PyPy refuses it).

Only the surroundings are supplied: names that left the standard library, a stand-in for pkg_resources, and the package
jsonconversion (pure Python) from the environment of the tests.
"""
import collections
import collections.abc
import glob
import importlib.util
import os
import sys
import types

for _n in dir(collections.abc):
    if _n[0].isupper() and not hasattr(collections, _n):
        setattr(collections, _n, getattr(collections.abc, _n))


def _stub():
    m = types.ModuleType('pkg_resources')

    class DistributionNotFound(Exception):
        pass

    class Distribution(object):
        version = '0'
    m.DistributionNotFound = DistributionNotFound
    m.get_distribution = lambda name: Distribution()
    m.declare_namespace = lambda name: None
    return m


def _borrow(name):
    """Imports a package from the environment of the tests when this one has none."""
    if name in sys.modules or importlib.util.find_spec(name) is not None:
        return
    for d in sorted(glob.glob('/opt/venv/lib/*/site-packages')):
        for f in (os.path.join(d, name, '__init__.py'), os.path.join(d, name + '.py')):
            if os.path.exists(f):
                spec = importlib.util.spec_from_file_location(name, f)
                m = importlib.util.module_from_spec(spec)
                sys.modules[name] = m
                spec.loader.exec_module(m)
                return


if not hasattr(sys, 'pypy_version_info'):
    if importlib.util.find_spec('pkg_resources') is None:
        sys.modules['pkg_resources'] = _stub()
    for _n in ('six', 'jsonconversion'):
        _borrow(_n)
