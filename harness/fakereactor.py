"""
A deterministic reactor for driving ade.

Importing this module installs a memory reactor whose clock only moves when
told to, and replaces the console StandardIO with a stand-in, so that a test
driver decides every scheduling step itself.  It must be imported before
anything from twisted.internet that touches the reactor.
"""
import sys

from twisted.internet import main
from twisted.internet.testing import MemoryReactorClock


class Reactor(MemoryReactorClock):
    """
    Adds what ade needs and the stock memory reactor lacks: system event
    triggers with identities, and a 'run until nothing is due' helper.
    """
    def __init__(self):
        MemoryReactorClock.__init__(self)
        self._nextTrigger = 0
        self.live = {}

    def addSystemEventTrigger(self, phase, eventType, func, *args, **kw):
        self._nextTrigger += 1
        ID = (phase, eventType, self._nextTrigger)
        self.live[ID] = (func, args, kw)
        return ID

    def removeSystemEventTrigger(self, ID):
        del self.live[ID]

    def fireShutdown(self):
        for ID in sorted(self.live, key=lambda x: x[2]):
            if ID in self.live:
                func, args, kw = self.live[ID]
                func(*args, **kw)

    def settle(self, span=5.0, maxSteps=200000):
        """
        Advances the clock in jumps to each due call until none is due within
        I{span} seconds of the present. Returns the number of jumps made.
        """
        end = self.seconds() + span
        N = 0
        while N < maxSteps:
            calls = [c.getTime() for c in self.getDelayedCalls()]
            if not calls: break
            t = min(calls)
            if t > end: break
            self.advance(max(0.0, t - self.seconds()))
            N += 1
        return N


sys.modules.pop('twisted.internet.reactor', None)
reactor = Reactor()
main.installReactor(reactor)

from twisted.internet import stdio


class FakeTransport(object):
    disconnecting = False
    def __init__(self): self.lost = 0
    def write(self, data): pass
    def loseConnection(self): self.lost += 1


class FakeStandardIO(object):
    protocols = []
    def __init__(self, proto, *args, **kw):
        self.protocols.append(proto)
        proto.makeConnection(FakeTransport())


stdio.StandardIO = FakeStandardIO
