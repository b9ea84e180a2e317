"""
Common ground of the drivers: imports ade from /repo under the deterministic
reactor, keeps a log of events, and guards each scenario against exceptions and
endless loops.
"""
import os, sys, signal, random, math, time, warnings

REPO = os.environ.get('ADE_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import fakereactor
from fakereactor import reactor

import numpy as np
from twisted.internet import defer
from twisted.python import log as tlog

INF = 2000000000
ODD = 1999999999        # a value that is not the integer it should be


HANGS = []              # scenarios that hung
START = time.time()


def enough():
    """Whether it's time to stop: too many scenarios hung, or there's no time left."""
    return len(HANGS) > 2 or time.time() > START + float(os.environ.get('DRIVE_SECONDS', '400'))


class Hang(BaseException):
    """A scenario ran longer than any scenario can."""


class watchdog(object):
    """
    Context in which Hang is raised (repeatedly, in case something swallows it)
    after I{seconds}. Those are of the processor, as there may be little of it to
    be had; something that merely waits gets five times as long.
    """
    def __init__(self, seconds):
        self.seconds = seconds

    def _alarm(self, *args):
        if time.process_time() > self.cpu + self.seconds or time.time() > self.wall + 5*self.seconds:
            raise Hang()

    def __enter__(self):
        self.cpu, self.wall = time.process_time(), time.time()
        signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 0.5)

    def __exit__(self, *args):
        signal.setitimer(signal.ITIMER_REAL, 0)


def toInt(x, scale=1):
    """The integer that x (times scale, rounded, if scale > 1) stands for."""
    try:
        x = float(x)
    except Exception:
        return ODD
    if math.isnan(x): return ODD
    if math.isinf(x): return INF if x > 0 else -INF
    if scale > 1: x = round(x*scale)
    n = int(round(x))
    if abs(x - n) > 1e-6 or abs(n) >= ODD: return ODD
    return n


# What one means as a fitness, and zero
UNITS = [(1.0, 0.0)]*6 + [(2.0**-40, 0.0), (2.0**60, 0.0), (2.0**900, 0.0), (2.0**-900, 0.0), (1.0, 2.0**40), (2.0**-20, 1.0)]


def real(x, unit=(1.0, 0.0)):
    """The fitness that the integer x stands for."""
    return x*unit[0] + unit[1]


def fit(i, unit=(1.0, 0.0)):
    """The fitness of an individual as an integer, Inf if invalid."""
    x = float(getattr(i, 'SSE', i))
    if math.isnan(x): return ODD
    if math.isinf(x): return INF
    return toInt((x - unit[1])/unit[0])


def vec(values, scale=1):
    return [toInt(x, scale) for x in values]


def seedAll(seed):
    random.seed(seed)
    np.random.seed(seed % (2**32))


def freshReactor():
    """Forgets everything scheduled by an earlier scenario."""
    for call in reactor.getDelayedCalls():
        call.cancel()
    reactor.live.clear()


def excText(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200])


# Nobody reads Twisted's log here
tlog.startLoggingWithObserver(lambda event: None, setStdout=False)


def quietly():
    """Silences ade's log and Twisted's unhandled-error log."""
    from ade.util import msg
    msg(None)
