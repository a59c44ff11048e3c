"""Process set-up shared by all checks: environment, shim, seams, imports.

Importing this module (once, in the main process) puts every source of
nondeterminism the properties depend on behind a seam *before* naima is
imported, then imports naima from /repo/src.
"""
import os
import sys
import types
import warnings

REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")


def build_shim():
    """Compile the libc fault shim; return its path."""
    import subprocess
    import tempfile

    src = os.path.join(VERIF, "csrc", "shim.c")
    out = os.path.join(BUILD, "shim.so")
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=BUILD, suffix=".so")
    os.close(fd)
    subprocess.run(
        ["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", tmp, src, "-ldl"], check=True
    )
    os.replace(tmp, out)
    return out


def reexec_with_shim():
    """Restart this interpreter with the shim preloaded (once)."""
    if os.environ.get("SIM_SHIM"):
        return
    so = build_shim()
    env = dict(os.environ, LD_PRELOAD=so, SIM_SHIM=so)
    os.execve(
        sys.executable,
        [sys.executable, "-X", "faulthandler", "-m", "simlib.main"] + sys.argv[1:],
        env,
    )


def import_naima(sherpa=False):
    """Install the seams and import naima from the working tree of /repo."""
    warnings.simplefilter("ignore")
    sys.path.insert(0, SRC)
    if not os.path.exists(os.path.join(SRC, "naima", "version.py")):
        # generated by the build and not tracked
        mod = types.ModuleType("naima.version")
        mod.version = mod.__version__ = "0"
        sys.modules["naima.version"] = mod

    from . import simpool

    simpool.install()

    import logging

    logging.disable(logging.CRITICAL)
    import astropy

    astropy.log.setLevel("CRITICAL")
    try:
        from astropy.utils import iers

        iers.conf.auto_download = False
    except Exception:
        pass

    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot  # noqa
    import matplotlib.backends.backend_pdf  # noqa
    import matplotlib.widgets  # noqa
    import scipy.integrate  # noqa
    import scipy.interpolate  # noqa
    import scipy.special  # noqa
    import scipy.stats  # noqa
    import yaml  # noqa
    import h5py  # noqa
    import corner  # noqa
    import astropy.io.misc.hdf5  # noqa
    import astropy.io.ascii  # noqa
    import naima  # noqa
    import naima.models  # noqa
    import naima.analysis  # noqa
    import naima.model_fitter  # noqa
    import naima.extern.minimize  # noqa

    if not os.path.abspath(naima.__file__).startswith(os.path.abspath(SRC)):
        raise RuntimeError("naima was imported from " + naima.__file__)
    if sherpa:
        import sherpa.models.model  # noqa
        import naima.sherpa_models  # noqa
    return naima
