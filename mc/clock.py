"""Virtual wall clock behind datetime and time, and control of the host time zone.

install() must run before psion is imported. Libraries that must keep real time are imported first.
"""
import os

import asyncio  # noqa: F401  (keep these on the real clock)
import logging  # noqa: F401
import datetime as _dtmod
import time as _timemod

_real_datetime = _dtmod.datetime
_real_date = _dtmod.date
_real = {n: getattr(_timemod, n) for n in ("time", "time_ns", "gmtime", "localtime", "strftime", "ctime", "asctime")}

BASE = 1_700_000_000.25  # 2023-11-14, with a fractional part
NOW = BASE


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_datetime)


class VDatetime(_real_datetime, metaclass=_Meta):
    @classmethod
    def fromtimestamp(cls, timestamp, tz=None):
        d = _real_datetime.fromtimestamp(timestamp, tz)  # the inherited method loses the fold in subclasses
        return cls(d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond, d.tzinfo, fold=d.fold)

    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(NOW, tz)

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(NOW)

    @classmethod
    def today(cls):
        return cls.fromtimestamp(NOW)

    def __reduce_ex__(self, proto):
        return _real_datetime.__reduce_ex__(self, proto)


VDatetime.__name__ = VDatetime.__qualname__ = "datetime"


class _DMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_date)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, _real_date)


class VDate(_real_date, metaclass=_DMeta):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(NOW)


def install():
    import cryptography  # noqa: F401
    import cryptography.hazmat.backends.openssl.backend  # noqa: F401
    import cryptography.x509  # noqa: F401
    import starlette.requests, starlette.responses  # noqa: F401,E401
    _dtmod.datetime = VDatetime
    _dtmod.date = VDate
    _timemod.time = lambda: NOW
    _timemod.time_ns = lambda: int(NOW * 1_000_000_000)
    _timemod.gmtime = lambda secs=None: _real["gmtime"](NOW if secs is None else secs)
    _timemod.localtime = lambda secs=None: _real["localtime"](NOW if secs is None else secs)


def set_now(t):
    global NOW
    NOW = t


def utc_naive(t):
    """Naive UTC datetime of an instant, as the storage records expirations."""
    return _real_datetime.utcfromtimestamp(t)


def set_tz(tz):
    os.environ["TZ"] = tz
    _timemod.tzset()


real_time = _real["time"]
