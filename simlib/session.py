"""Session-wide settings of the process around every call into naima.

`install` puts a bracket around the public entry points; every outermost call
in the main thread is recorded with the settings it changed.
"""
import decimal
import functools
import gc
import hashlib
import inspect
import locale
import logging
import os
import random
import signal
import socket
import sys
import tempfile
import threading
import time
import warnings

import numpy as np

RECORDS = []
COUNT = {}
STATES = set()
_depth = [0]
_main = threading.main_thread

# calls documented or expected to draw random numbers
DRAWS = {"get_sampler", "run_sampler", "plot_fit", "plot_blob", "plot_corner", "save_diagnostic_plots", "plot_chain",
         "save_results_table"}


def rng_state():
    s = np.random.get_state()
    return s[1].copy(), s[2], s[3], s[4]


def same_rng(a, b):
    return a[1:] == b[1:] and np.array_equal(a[0], b[0])


def drawn_from(a, b, blocks=400):
    """Is state b reached from a by drawing numbers?"""
    if np.array_equal(a[0], b[0]):
        return b[1] >= a[1]
    bg = np.random.MT19937()
    bg.state = {"bit_generator": "MT19937", "state": {"key": a[0], "pos": a[1]}}
    for _ in range(blocks):
        bg.random_raw(624)
        if np.array_equal(bg.state["state"]["key"], b[0]):
            return True
    return False


def loggers():
    r = {}
    for n in [None, "astropy", "naima", "matplotlib", "h5py"] + sorted(
            x for x in logging.root.manager.loggerDict if x.startswith("naima")):
        lg = logging.getLogger(n)
        r["logger %s" % (n or "root")] = (lg.level, lg.propagate, lg.disabled, tuple(map(id, lg.handlers)), len(lg.filters))
    r["logging.disable"] = logging.root.manager.disable
    return r


def snapshot():
    """Settings as a dict of comparable values"""
    s = {
        "warnings.filters": list(warnings.filters),
        "warnings.showwarning": id(warnings.showwarning),
        "warnings.defaultaction": getattr(warnings, "defaultaction", None),
        "numpy error handling": tuple(sorted(np.geterr().items())),
        "numpy error callback": id(np.geterrcall()),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "random module state": hashlib.sha256(repr(random.getstate()).encode()).hexdigest(),
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "signal handlers": [signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGALRM,
                                                          signal.SIGPIPE, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2)],
        "pending timers": signal.getitimer(signal.ITIMER_REAL),
        "standard streams": [id(x) for x in (sys.stdin, sys.stdout, sys.stderr)],
        "exception hook": (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)),
        "recursion limit": sys.getrecursionlimit(),
        "module search path": list(sys.path),
        "locale": locale.setlocale(locale.LC_ALL),
        "time zone": time.tzname,
        "decimal context": (decimal.getcontext().prec, decimal.getcontext().rounding),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "socket timeout": socket.getdefaulttimeout(),
        "temporary directory": tempfile.tempdir,
    }
    m = os.umask(0o22)
    os.umask(m)
    s["umask"] = m
    s.update(loggers())
    ast = sys.modules.get("astropy.units")
    if ast is not None:
        reg = ast.get_current_unit_registry()
        s["astropy unit registry"] = (id(reg), len(reg.equivalencies), len(reg.all_units))
    mpl = sys.modules.get("matplotlib")
    if mpl is not None:
        for k in mpl.rcParams.keys():
            if k != "backend":
                s["matplotlib " + k] = repr(dict.__getitem__(mpl.rcParams, k))
        if "matplotlib.units" in sys.modules:
            s["matplotlib unit converters"] = sorted(map(str, sys.modules["matplotlib.units"].registry))
        if "matplotlib.pyplot" in sys.modules:
            s["matplotlib backend"] = mpl.get_backend()
    return s


def difference(a, b):
    return [k for k in a if k in b and a[k] != b[k]]


class Mine(Warning):
    """A warning of the user's own"""


def bracket(func, name, draws=False):
    @functools.wraps(func)
    def inner(*args, **kwargs):
        if _depth[0] or threading.current_thread() is not _main() or os.getpid() != PID[0]:
            return func(*args, **kwargs)
        _depth[0] += 1
        how = "returned"
        # the user's own filter comes first, so that any other one put in front of it shows
        warnings.filterwarnings("error", category=Mine)
        before, r0 = snapshot(), rng_state()
        try:
            return func(*args, **kwargs)
        except BaseException as e:
            how = "raised " + type(e).__name__
            raise
        finally:
            _depth[0] -= 1
            after, r1 = snapshot(), rng_state()
            COUNT[name] = COUNT.get(name, 0) + 1
            STATES.add((name, how))
            for k in difference(before, after):
                RECORDS.append((name, how, k, _short(before[k], after[k])))
            if not same_rng(r0, r1):
                if not draws:
                    RECORDS.append((name, how, "random state", "random numbers were drawn or the generator was set"))
                elif not drawn_from(r0, r1):
                    RECORDS.append((name, how, "random state", "not reached by drawing numbers: the generator was set"))
    return inner


def _short(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return "%s -> %s" % ([x for x in a if x not in b][:3], [x for x in b if x not in a][:3])
    if isinstance(a, dict):
        return str([(k, a.get(k), b.get(k)) for k in {**a, **b} if a.get(k) != b.get(k)][:3])
    return "%s -> %s" % (str(a)[:150], str(b)[:150])


PID = [None]


def wrap_class(cls, seen):
    for c in cls.__mro__:
        if not c.__module__.startswith("naima") or c in seen:
            continue
        seen.add(c)
        for n, v in list(vars(c).items()):
            label = "%s.%s" % (c.__name__, n)
            if n.startswith("_") and n not in ("__init__", "__call__"):
                continue
            if isinstance(v, property):
                setattr(c, n, property(v.fget and bracket(v.fget, label), v.fset and bracket(v.fset, label), v.fdel, v.__doc__))
            elif inspect.isfunction(v):
                setattr(c, n, bracket(v, label))


def install(threads=None):
    """In the process of one run only"""
    import naima
    import naima.analysis
    import naima.core
    import naima.model_fitter
    import naima.models
    import naima.plot
    import naima.radiative
    import naima.utils

    if not logging.root.handlers:
        # else the first message of a third party to the root logger adds one
        logging.root.addHandler(logging.NullHandler())
    PID[0] = os.getpid()
    RECORDS.clear()
    COUNT.clear()
    STATES.clear()
    mods = [naima.core, naima.analysis, naima.plot, naima.utils, naima.radiative, naima.models, naima.model_fitter]
    if "naima.sherpa_models" in sys.modules:
        mods.append(sys.modules["naima.sherpa_models"])
    seen = set()
    for mod in mods:
        for n, v in list(vars(mod).items()):
            if n.startswith("_") or getattr(v, "__module__", None) != mod.__name__:
                continue
            if inspect.isclass(v):
                wrap_class(v, seen)
            elif inspect.isfunction(v):
                w = bracket(v, n, n in DRAWS)
                setattr(mod, n, w)
                if getattr(naima, n, None) is v:
                    setattr(naima, n, w)
    if threads is not None:
        threads.Scheduler.run = bracket(threads.Scheduler.run, "threads")


def on_signal(*a):
    raise KeyboardInterrupt


def on_warning(*a, **k):
    pass


def on_error(*a):
    pass


def apply_settings(seed):
    """Settings a user may have chosen; none of them changes results"""
    import matplotlib
    from astropy import log

    rng = random.Random(seed)

    def maybe(p=0.4):
        return rng.random() < p

    if maybe():
        warnings.filterwarnings(rng.choice(["always", "once"]), category=DeprecationWarning)
    if maybe():
        warnings.filterwarnings("ignore", message="some text", module="mine")
    if maybe(0.3):
        warnings.showwarning = on_warning
    if maybe():
        np.seterr(**rng.choice([{"all": "ignore"}, {"divide": "ignore"}, {"under": "warn", "over": "ignore"}]))
    if maybe():
        np.set_printoptions(precision=rng.choice([3, 12]), suppress=rng.random() < 0.5, threshold=rng.choice([5, 5000]))
    if maybe():
        np.random.seed(rng.randrange(2**31))
        np.random.normal()
    if maybe():
        log.setLevel(rng.choice(["WARNING", "ERROR"]))
    if maybe():
        logging.getLogger("naima.radiative").setLevel(rng.choice(["WARNING", "ERROR"]))
    if maybe():
        os.environ[rng.choice(["OMP_NUM_THREADS", "MY_SETTING", "MPLCONFIGDIR_OLD"])] = "3"
    if maybe(0.3):
        signal.signal(signal.SIGINT, on_signal)
    if maybe(0.3):
        sys.excepthook = on_error
    if maybe(0.3):
        sys.setrecursionlimit(rng.choice([1500, 4000]))
    if maybe(0.3):
        decimal.getcontext().prec = 40
    if maybe(0.3):
        gc.set_threshold(500, 5, 5)
    if maybe(0.2):
        gc.disable()
    if maybe(0.3):
        os.umask(rng.choice([0o027, 0o077, 0o002]))
    if maybe(0.3):
        socket.setdefaulttimeout(7.0)
    rc = matplotlib.rcParams
    if maybe():
        rc["interactive"] = True
    for k, vs in (("lines.linewidth", [0.7, 3.0]), ("figure.max_open_warning", [0, 100]), ("pdf.fonttype", [42]),
                  ("font.size", [8.0]), ("savefig.dpi", [50.0]), ("axes.grid", [True]), ("figure.dpi", [72.0]),
                  ("legend.frameon", [False]), ("xtick.direction", ["in"]), ("image.cmap", ["gray"])):
        if maybe(0.25):
            rc[k] = rng.choice(vs)


def bracketed(func, args, settings=None):
    """func(*args) with the brackets in place, and what they saw"""
    from . import threads

    if settings is not None:
        apply_settings(settings)

    install(threads)
    res = func(*args)
    return res, {"records": RECORDS[:50], "count": dict(COUNT), "states": sorted(STATES)}
