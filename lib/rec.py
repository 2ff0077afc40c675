"""Calling the library and recording outcomes."""
import signal
from decimal import Decimal

from . import pv


class CallTimeout(BaseException):
    pass


def _alarm(*_):
    raise CallTimeout()


signal.signal(signal.SIGALRM, _alarm)
LIMIT = 20


def call(f, *a, **k):
    """(outcome record of f(*a, **k) with its value, the value or None)"""
    if LIMIT:
        signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        v = f(*a, **k)
    except CallTimeout:
        return {"ok": 0, "e": ["TIMEOUT"]}, None
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not isinstance(e, Exception):
            raise
        return pv.err(e), None
    finally:
        if LIMIT:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return {"ok": 1, "v": pv.rec(v)}, v


def enc(f, *a):
    r, v = call(f, *a)
    if r["ok"]:
        if isinstance(v, (bytes, bytearray)):
            return {"ok": 1, "b": list(v), "y": type(v).__name__}, v
        return {"ok": 1, "b": [], "y": type(v).__name__}, None
    return r, None


def cps(ts):
    return [pv.cps(t) for t in ts]


class Crash(Exception):
    """The library raised where the harness makes a call that cannot fail (a lookup of a valid
    type, a stream operation, a registration in an own registry); args: class names, text"""


def crash(e):
    """e as a Crash if it comes out of the library's code, else None"""
    import os

    if isinstance(e, Crash):
        return e
    root = os.path.realpath(os.environ.get("VERIF_REPO", "/repo")) + os.sep
    tb = e.__traceback__
    where = ""
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(root):
            where = f"{f[len(root):]}:{tb.tb_lineno}"
        tb = tb.tb_next
    if not where or not isinstance(e, Exception) or type(e).__module__.startswith("hypothesis"):
        return None
    try:
        text = str(e)[:300]
    except Exception:
        text = "?"
    return Crash([c.__name__ for c in type(e).__mro__], f"{type(e).__name__} at {where}: {text}")
