"""Python side of the libc fault shim"""
import ctypes
import errno
import os

OPEN_R, OPEN_W, WRITE, READ, TRUNC, FSYNC, CLOSE, RENAME, UNLINK, LINK = (
    1, 2, 4, 8, 16, 32, 64, 128, 256, 512)
MODES = {
    "none": 0, "err": 1, "err_on": 2, "short": 3, "crash_before": 4,
    "crash_after": 5, "torn": 6, "quota": 7, "cut": 8,
}
OPNAMES = {1: "open_r", 2: "open_w", 4: "write", 8: "read", 16: "trunc",
           32: "fsync", 64: "close", 128: "rename", 256: "unlink", 512: "link"}
ALL = 1023
WRITEISH = OPEN_W | WRITE | TRUNC | FSYNC | CLOSE | RENAME | UNLINK | LINK

_lib = None


def lib():
    global _lib
    if _lib is None:
        so = os.environ.get("SIM_SHIM")
        if not so:
            raise RuntimeError("shim not loaded")
        _lib = ctypes.CDLL(so)
        for n in ("sim_count", "sim_fired", "sim_log"):
            getattr(_lib, n).restype = ctypes.c_long
    return _lib


def config(prefix):
    lib().sim_config(str(prefix).encode())


def arm(mode, at=1, err="EIO", mask=ALL, quota=0):
    e = getattr(errno, err) if isinstance(err, str) else err
    lib().sim_arm(
        MODES[mode], ctypes.c_long(at), e, ctypes.c_uint(mask), ctypes.c_long(quota)
    )


def disarm():
    lib().sim_disarm()


def off():
    lib().sim_off()


def count():
    return lib().sim_count()


def fired():
    return lib().sim_fired()


def log(n=4096):
    ops = (ctypes.c_int * n)()
    ns = (ctypes.c_long * n)()
    k = lib().sim_log(ops, ns, ctypes.c_long(n))
    return [(OPNAMES.get(ops[i], "?"), ns[i]) for i in range(k)]
