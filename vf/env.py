"""Process set-up shared by every check: import paths, the controllable clock, quiet logs.

Importing this module must happen before anything of openid is imported: several modules
bind ``time`` and ``gmtime`` at import.
"""
import os
import sys
import logging
import warnings
import datetime as _datetime
import time as _time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if HYP not in sys.path:
    sys.path.append(HYP)

real_time = _time.time
real_gmtime = _time.gmtime
real_localtime = _time.localtime
real_strftime = _time.strftime
_real_datetime = _datetime.datetime


class Clock(object):
    """Wall clock seen by the code under test."""
    now = None

    def set(self, now):
        self.now = now

    def reset(self):
        self.now = None

    def advance(self, seconds):
        self.now = (self.now if self.now is not None else real_time()) + seconds

    def time(self):
        return real_time() if self.now is None else self.now

    def gmtime(self, secs=None):
        return real_gmtime(self.time() if secs is None else secs)


clock = Clock()


def _vtime():
    return clock.time()


def _vgmtime(secs=None):
    return clock.gmtime(secs)


def _vlocaltime(secs=None):
    return real_localtime(clock.time() if secs is None else secs)


def _vstrftime(fmt, t=None):
    return real_strftime(fmt, _vlocaltime() if t is None else t)


class _Kind(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)


class _Datetime(_real_datetime, metaclass=_Kind):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(clock.time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.utcfromtimestamp(clock.time())

    @classmethod
    def today(cls):
        return cls.fromtimestamp(clock.time())


_time.time = _vtime
_time.time_ns = lambda: int(clock.time() * 10 ** 9)
_time.gmtime = _vgmtime
_time.localtime = _vlocaltime
_time.strftime = _vstrftime
_datetime.datetime = _Datetime

logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
# the clock used by the consumer, stores and servers must be ours: fail loudly otherwise
import openid  # noqa: E402
assert os.path.realpath(openid.__file__).startswith(os.path.realpath(REPO) + os.sep), openid.__file__
