"""Bring-up of the real stack inside a worker."""
import gc
import importlib
import os
import pkgutil
import sys
import warnings


def third_party():
    import numpy      # noqa: F401
    import pandas     # noqa: F401
    import xarray     # noqa: F401
    import numexpr    # noqa: F401
    import pytz       # noqa: F401
    import dateutil.tz, dateutil.parser   # noqa: F401,E401
    import zoneinfo   # noqa: F401
    import loguru     # noqa: F401
    import tabulate   # noqa: F401
    import typer      # noqa: F401
    import urllib3    # noqa: F401


OPTIONAL = ('sunwhere._cli', 'sunwhere._cli.benchmark', 'sunwhere._cli.solar_chart')


def import_package(cli=True):
    """Import sunwhere and every module of it that can be imported."""
    import sunwhere
    root = os.path.dirname(os.path.abspath(sunwhere.__file__))
    src = os.environ.get('DST_REPO_SRC', '/repo/src')
    if not root.startswith(os.path.realpath(src)) and not root.startswith(src):
        raise RuntimeError(f'sunwhere was imported from {root}, not from {src}')
    for m in pkgutil.walk_packages([root], 'sunwhere.'):
        if m.name in ('sunwhere._cli.benchmark', 'sunwhere._cli.solar_chart', 'sunwhere._cli.main'):
            continue
        if m.name.startswith('sunwhere._cli') and not cli:
            continue
        try:
            importlib.import_module(m.name)
        except ImportError:
            pass
    return sunwhere


def bring_up(locks=True, cli=True):
    warnings.simplefilter('ignore')
    third_party()
    from . import sched
    if locks:
        sched.patch_locks()
    import_package(cli)
    sched.discover()
    sys.setswitchinterval(1000)
    gc.collect()
    gc.freeze()
