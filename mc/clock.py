"""Virtual clock.

Must be imported before anything from oidcmsg / cryptojwt / oidcop.  Every source of wall-clock time Python code can
reach (time.time, datetime.now/utcnow/today, time.gmtime/localtime/strftime defaults) reads the virtual clock, so that
time only moves when an exploration step moves it.
"""
import datetime as _dt
import sys
import time as _time

assert not any(m == "oidcop" or m.startswith("oidcop.") for m in sys.modules), "clock must be imported first"

real_time = _time.time
real_monotonic = _time.monotonic
_real_gmtime = _time.gmtime
_real_localtime = _time.localtime
_real_strftime = _time.strftime
_RealDT = _dt.datetime

START = 1_700_000_000


class Clock:
    now = START


def now():
    return Clock.now


def set_now(t):
    Clock.now = t


def advance(dt):
    Clock.now += dt


def _vtime():
    return float(Clock.now)


class _Meta(type(_RealDT)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RealDT)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _RealDT)


class VDateTime(_RealDT, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        return _RealDT.fromtimestamp(Clock.now, tz)

    @classmethod
    def utcnow(cls):
        return _RealDT.fromtimestamp(Clock.now, _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return _RealDT.fromtimestamp(Clock.now)


_time.time = _vtime
_time.gmtime = lambda s=None: _real_gmtime(Clock.now if s is None else s)
_time.localtime = lambda s=None: _real_localtime(Clock.now if s is None else s)
_time.strftime = lambda f, t=None: _real_strftime(f, _real_gmtime(Clock.now) if t is None else t)
_dt.datetime = VDateTime
