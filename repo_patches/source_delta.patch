From e704b7c8eb901a6b3a39b48bca855e8622fb7c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:53:53 +0000
Subject: [PATCH 01/43] fix: compare the best individual with goalSSE

The goal was compared with the bound method, which raised TypeError.
---
 ade/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index ed8b67e..748fec5 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -608,7 +608,7 @@ class DifferentialEvolution(object):
                 if result is None:
                     self.shutdown()
             if not self.running: break
-            if self.goalSSE and self.p.best < self.goalSSE:
+            if self.goalSSE and self.p.best() < self.goalSSE:
                 msg(-1,
                     "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
                 break
-- 
2.43.0


From ad9ae9dbc0ae940bf735c8c55c6c62c2f20f52b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:23 +0000
Subject: [PATCH 02/43] fix: never reuse an allocated row for a new history
 record

After records were purged, kkr could pick a row that was still in use
(or one past the end of the array) and overwrite the record there.
---
 ade/history.py | 53 +++++++-------------------------------------------
 1 file changed, 7 insertions(+), 46 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index e5255e3..fc7e6ce 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -951,56 +951,17 @@ class History(object):
 
         First, index I{k} is obtained, by seeing where the I{K}
         list points to a record with an SSE closest but above the
-        new one. Then each row index in the I{K} list is examined
-        to see if the previous row of my I{X} array is
-        unallocated. If so, that is the row index for the new
-        record. Otherwise, is the next row of my I{X} array is
-        unallocated, that is used instead. If both adjacent rows
-        of I{X} are already allocated, the next row index in the
-        I{K} list is examined.
-
-        If there are no row indices in I{K} that point to a row of
-        I{X} with an unallocated adjacent row, the row index is
-        determined to be the current length of I{k}.
-
-        B{Note}: With the original for-loop Python, the search for an
-        unallocated row was very CPU intensive when you get a big
-        history accumulated:::
-
-            # Pick a row index for the new record
-            for kr in self.K:
-                if kr > 0 and kr-1 not in self.K:
-                    return k, kr-1
-                if kr < N-1 and kr+1 not in self.K:
-                    return k, kr+1
-            return k, N
-
-        The reason is that the list was being searched for an item
-        with every iteration, twice!
-        
-        The optimized version does this same thing with much more
-        efficiently, by creating a local (array) copy of I{K} and
-        sorting it in place. Then only adjacent elements needs to be
-        inspected with each iteration. (It may be just as fast with a
-        local sorted list instead of a Numpy array.)
+        new one. The row index I{kr} is that of the lowest-numbered
+        row of my I{X} array that is unallocated, i.e., whose index
+        does not appear in the I{K} list. With no gaps left by purged
+        records, that is the current length of I{K}.
         """
-        K = np.array(self.K)
+        K = np.array(self.K, dtype=int)
         # Find the index in K of the row index for the closest
         # recorded SSE above i.SSE
         k = np.searchsorted(self.X[K,0], SSE)
-        #--- Pick a row index for the new record ------------------------------
-        # Sort local array version of K in place
-        K.sort()
-        for kk, kr in enumerate(K[1:-1]):
-            if kr == 0: continue
-            if kr == N-1: break
-            if K[kk] != kr-1:
-                return k, kr-1
-            if K[kk+2] != kr+1:
-                return k, kr+1
-        if K[0] > 0:
-            return k, K[0]-1
-        return k, min([N, K[-1]+1])
+        # Pick a row index for the new record
+        return k, np.setdiff1d(np.arange(N+1), K)[0]
 
     @defer.inlineCallbacks
     def add(self, i, neverInPop=False):
-- 
2.43.0


From 57b1a8a5e12d4c8169c2ce0f4c8c29616a10ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:23 +0000
Subject: [PATCH 03/43] fix: ignore individuals too big for the history's
 float32 records

A finite SSE or parameter value beyond the float32 range raised an
exception while the history lock was held, so the run stopped or hung.
---
 ade/history.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index fc7e6ce..0129b04 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1007,7 +1007,9 @@ class History(object):
                 self.kr[hash(i)] = kr
 
         SSE = i.SSE
-        if np.isfinite(SSE):
+        with np.errstate(over='ignore'):
+            SV = np.array([SSE] + list(i.values)).astype('f4')
+        if np.all(np.isfinite(SV)):
             yield self.dLock.acquire()
             N = len(self.K)
             if N == 0:
-- 
2.43.0


From 7d4e9e568ae264d9e2a63fd0d3e9d405c1c10fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:23 +0000
Subject: [PATCH 04/43] fix: treat a NaN fitness as infinite

A member whose evaluation returned NaN was kept during setup and could
never be displaced, because no comparison with NaN is true.
---
 ade/individual.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index 7ffe76d..f918962 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -115,9 +115,9 @@ class Individual(object):
         """
         Property: My SSE value, which must at least behave like a
         float. Infinite if no SSE computed yet, a fatal error occurred
-        during evaluation, or was set to C{None}.
+        during evaluation, or was set to C{None} or C{NaN}.
         """
-        if self._SSE is None or self._SSE < 0:
+        if self._SSE is None or not self._SSE >= 0:
             return float('+inf')
         return self._SSE #float(self._SSE)
     @SSE.setter
-- 
2.43.0


From 4cfc825d892b292c892eda65e3fd0dd97d43ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:23 +0000
Subject: [PATCH 05/43] fix: make an individual's hash independent of the
 process

Hashes of bytes are salted per process, so the history's map from
individuals to rows was useless after loading a saved population.
The hash also differed for equal values of zero with opposite signs and
could not be computed for an SSE beyond the float32 range.
---
 ade/individual.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index f918962..02cc486 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -31,7 +31,7 @@ L{Population} set up a population full of them, and have
 L{DifferentialEvolution} create challengers as it does its thing.
 """
 
-import random, pickle, time, struct
+import random, pickle, time
 
 import numpy as np
 from twisted.internet import defer, task
@@ -187,8 +187,7 @@ class Individual(object):
         return SSE >= 0
 
     def __hash__(self):
-        return hash(
-            struct.pack('<f', self.SSE) + np.array(self.values).tobytes())
+        return hash((float(self.SSE),) + tuple(float(x) for x in self.values))
     
     def __eq__(self, other):
         """
-- 
2.43.0


From b4f69189322a67e376f060caa7f1799c0daa1dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:23 +0000
Subject: [PATCH 06/43] fix: stop the run when its population has been aborted

Challenges waiting for locks when the population was aborted were
evaluated with None and could still replace members. After a report
callback failed, the run kept going for generation after generation.
---
 ade/de.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index 748fec5..5a51602 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -539,7 +539,8 @@ class DifferentialEvolution(object):
                     if self.xSSE:
                         yield iChallenger.evaluate(iTarget.SSE)
                     else: yield iChallenger.evaluate()
-                    if iChallenger and self.running:
+                    if iChallenger and self.running \
+                       and self.p.running is not False:
                         if iChallenger < iTarget:
                             # The challenger won the tournament, replace
                             # the target
-- 
2.43.0


From 4b1378e6e4ddf23c3168f2393228509cf3bc553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:23 +0000
Subject: [PATCH 07/43] fix: measure elapsed time in EvalTimer

The time of day was being accumulated instead of the time each call took.
---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 97c8586..638aee3 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -163,7 +163,7 @@ class EvalTimer(Picklable):
         """
         def done(result):
             ID = args[self.k]
-            self.times[ID] = self.times.get(ID, 0) + time.time()
+            self.times[ID] = self.times.get(ID, 0) + time.time() - t0
             self.Ns[ID] = self.Ns.get(ID, 0) + 1
             return result
         
-- 
2.43.0


From 3f7ffa94ad2136299595a0c584c18a49da724474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:54:23 +0000
Subject: [PATCH 08/43] fix: let msg.lineWritten notice written lines

A misspelled attribute name kept the flag from ever being set.
---
 ade/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 638aee3..745fb9b 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -231,7 +231,7 @@ class Messenger(object):
         """
         if not self.fh:
             return
-        self._lineWritten = True
+        self._lineWasWritten = True
         try:
             if self.newlineNeeded:
                 self.fh.write("\n")
-- 
2.43.0


From b37f4488ac7b4185264d5880c8c3e3e53efbd723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:26 +0000
Subject: [PATCH 09/43] fix: restore the previous best when a callback
 complains

The new best was kept as its own backup, so a complaint left the
blacklisted individual as the best one reported. The backup also has
to follow the individual whose callbacks are run when reports queue up.
---
 ade/report.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ade/report.py b/ade/report.py
index b9c0e34..589e6b4 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -156,6 +156,7 @@ class Reporter(object):
             iPrev = None
             while not aborted() and self.cbrScheduled:
                 i = self.cbrScheduled.pop()
+                iPrevBest = self.iPrevBest
                 if iPrev and i == iPrev:
                     continue
                 iPrev = i
@@ -187,6 +188,7 @@ class Reporter(object):
             self.cbrInProgress = False
 
         self.cbrScheduled(i)
+        self.iPrevBest = iPrevBest
         if self.cbrInProgress:
             return
         self.dt.put(runUntilFree())
@@ -241,6 +243,7 @@ class Reporter(object):
             # is considered equivalent.
             return not self.isEquivSSE(i, self.iLastReported)
         
+        iPrevBest = self.iBest
         if self.iBest is None or i < self.iBest:
             # Register new best, regardless of whether it gets reported
             self.iBest = i
@@ -250,8 +253,7 @@ class Reporter(object):
             if self.p.debug:
                 msg(0, "{}\n\t--->\n{}\n", self.iBest, i)
             self.iLastReported = i
-            iBackupBest = self.iBest
-            self.runCallbacks(i, iBackupBest)
+            self.runCallbacks(i, iPrevBest)
         
     def msgRatio(self, iNum, iDenom, bogus_char="!", noProgress=False):
         """
-- 
2.43.0


From c34269565642f4293e5d43d966faf381311bd500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:26 +0000
Subject: [PATCH 10/43] fix: abort when the complaint callback fails

Its failure ended the callback run without clearing the in-progress
flag, so no callbacks were ever run again.
---
 ade/report.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ade/report.py b/ade/report.py
index 589e6b4..ef50740 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -171,8 +171,12 @@ class Reporter(object):
                         break
                     if result is not None and i and not aborted():
                         if self.complaintCallback:
-                            yield defer.maybeDeferred(
+                            d = defer.maybeDeferred(
                                 self.complaintCallback, i, result)
+                            d.addErrback(failed, self.complaintCallback)
+                            result = yield d
+                            if isinstance(result, CallbackFailureToken):
+                                self.abort()
                         else:
                             text = sub(
                                 "\n\n" +\
-- 
2.43.0


From 9d28cd5394768394626047927e5388bc004c9553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:26 +0000
Subject: [PATCH 11/43] fix: keep the history's member labels right for
 duplicates

Equal individuals shared one entry in the map from individuals to rows,
so the row of one of them stayed labelled as a member forever.
Row indices from a loaded history were not recognized as integers.
---
 ade/history.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 0129b04..1458b33 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1004,7 +1004,12 @@ class History(object):
                 self.cpf.clearRow(kr)
                 # Add to the individual-row map so it can be removed
                 # from the population later
-                self.kr[hash(i)] = kr
+                key = hash(i)
+                while key in self.kr:
+                    # Equal to another member, so use the next key in
+                    # a chain of them
+                    key = hash((key,))
+                self.kr[key] = kr
 
         SSE = i.SSE
         with np.errstate(over='ignore'):
@@ -1057,15 +1062,17 @@ class History(object):
         from being considered part of the current population.
         """
         def gotLock():
-            if isinstance(x, (int, np.int64)):
+            if isinstance(x, (int, np.integer)):
                 # This was tricky to find; sometimes shows up as int,
-                # sometimes as np.int64, and Py3 distinguishes between
+                # sometimes as a Numpy integer, and Py3 distinguishes between
                 # them
                 kr = x
             else:
                 # Must be an Individual
                 key = hash(x)
                 if key not in self.kr: return
+                while hash((key,)) in self.kr:
+                    key = hash((key,))
                 kr = self.kr.pop(key)
             self.Kp.discard(kr)
             # This row is no longer a population member and is thus
-- 
2.43.0


From d9aa5515c85c7a6e5c07c0b00e785156caad7439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:26 +0000
Subject: [PATCH 12/43] fix: relabel a blacklisted member in the history

Blacklisting changes the SSE and thus the hash, so the record stayed
labelled as a population member even after the member was displaced.
---
 ade/history.py    | 4 +++-
 ade/individual.py | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 1458b33..36c892e 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1069,7 +1069,7 @@ class History(object):
                 kr = x
             else:
                 # Must be an Individual
-                key = hash(x)
+                key = xHash
                 if key not in self.kr: return
                 while hash((key,)) in self.kr:
                     key = hash((key,))
@@ -1078,6 +1078,8 @@ class History(object):
             # This row is no longer a population member and is thus
             # expendable, so have cpf start considering it
             self.cpf.setRow(kr, self.X[kr,:])
+        # The individual might change while waiting for the lock
+        xHash = hash(x)
         return self.dLock.run(gotLock)
 
     def purgePop(self):
diff --git a/ade/individual.py b/ade/individual.py
index 02cc486..851b452 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -245,6 +245,7 @@ class Individual(object):
         Sets my SSE to the worst possible value and forces my population
         to update its sorting to account for my degraded status.
         """
+        self.p.history.notInPop(self)
         self.SSE = float('+inf')
         del self.p.KS
     
-- 
2.43.0


From c51d932641893073d481e749853c74bd205fe0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:26 +0000
Subject: [PATCH 13/43] fix: bind each constraint wrapper to its own parameters

The wrappers shared one set of variables and one dict, so a wrapper
called after iteration moved on applied another constraint, or the same
constraint with parameter values left over from another.
---
 ade/constraints.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ade/constraints.py b/ade/constraints.py
index 10e3203..db4845a 100644
--- a/ade/constraints.py
+++ b/ade/constraints.py
@@ -28,6 +28,8 @@ parameter constraints. If you have any highly correlated parameters,
 an instance of L{RelationsChecker} may be helpful, too.
 """
 
+from functools import partial
+
 import numpy as np
 from ade.util import *
 
@@ -134,15 +136,16 @@ class Constraints(object):
         iteration and appending. But you can't get or set individual
         items by index.
         """
-        def wrapper(params):
+        def wrapper(func, linearParams, logParams, params):
+            newParams = {}
             if linearParams:
-                if not linearParams.issubset(params):
+                if not set(linearParams).issubset(params):
                     return True
                 for name in linearParams:
                     if name not in newParams:
                         newParams[name] = params[name]
             if logParams:
-                if not logParams.issubset(params):
+                if not set(logParams).issubset(params):
                     return True
                 for name in logParams:
                     if name not in newParams:
@@ -152,9 +155,8 @@ class Constraints(object):
                 print(sub("BOGUS: {}, {}", func.__name__, newParams))
             return result
         
-        newParams = {}
-        for func, linearParams, logParams in self.cList:
-            yield wrapper
+        for args in self.cList:
+            yield partial(wrapper, *args)
         for func in self.fList:
             yield func
 
-- 
2.43.0


From 2d3104c01bbf06e3244a8c012e59b6ad530d7c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:26 +0000
Subject: [PATCH 14/43] fix: ignore trailing comments and empty files in specs

A comment stuck to a value was read as part of it, a comment after a
dict name was read as a value, and an empty file raised an exception.
---
 ade/specs.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index 3e56f5d..2a1d820 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -217,9 +217,10 @@ class SpecsLoader(object):
         """
         dictDef = False
         dictName = None
+        k = -1
         for k, line in enumerate(fh):
-            line = line.strip()
-            if not line or line.startswith('#'):
+            line = line.partition('#')[0].strip()
+            if not line:
                 continue
             if line.startswith('--'):
                 # Start or end of a dict definition
@@ -253,9 +254,6 @@ class SpecsLoader(object):
                 tokens.pop(0)
             seq = []
             for token in tokens:
-                if token.startswith('#'):
-                    # Trailing comment
-                    break
                 seq.append(self.parseValue(token.rstrip(',')))
             if len(seq) == 1:
                 # A single value token is its own attribute, not part
-- 
2.43.0


From 8266892108be31f793e22cc7bf98755d0dcca25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:26 +0000
Subject: [PATCH 15/43] fix: have a loaded population abort with everything
 else

Only the constructor registered the abort handler, and unpickling does
not call it.
---
 ade/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/population.py b/ade/population.py
index 75a3a24..64a29ca 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -471,6 +471,7 @@ class Population(object):
             for i in p:
                 p.limit(i)
         p.reporter = Reporter(p, kw.get('complaintCallback', None))
+        abort.callOnAbort(p.abort)
         return p
         
     def __getstate__(self):
-- 
2.43.0


From 010b8d9b3b130240386b1d7827f56ab31857f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:55:26 +0000
Subject: [PATCH 16/43] fix: add nothing to the population once setup is
 aborted

After failing to generate a conforming individual, setup evaluated or
added a non-conforming one. Results arriving after an abort were also
added.
---
 ade/population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index 64a29ca..1ca82d6 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -811,13 +811,14 @@ class Population(object):
                 return
             self.reporter(i)
             isFinite = not np.isinf(float(i.SSE))
-            if isFinite and needMore(): addIndividual(i)
+            if isFinite and running() and needMore(): addIndividual(i)
 
         @defer.inlineCallbacks
         def populate():
             k = 0
             while running() and needMore():
                 i = getIndividual()
+                if not running(): break
                 if blank:
                     i.SSE = np.inf
                     addIndividual(i)
-- 
2.43.0


From b777f80c02713565069f8ebec6f848ee89f5aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:23 +0000
Subject: [PATCH 17/43] fix: record nothing when every history record is
 protected

With a full roster of current population members, looking for one to
bump raised an exception while the history lock was held.
---
 ade/history.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 36c892e..dfd9c36 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -792,6 +792,8 @@ class ClosestPairFinder(object):
         """
         # The number of active rows
         Nr = len(self.K)
+        if Nr == 0:
+            return defer.succeed(None)
         if Nr == 1:
             return defer.succeed(list(self.K)[0])
         if Np is None: Np = self.Np_max
@@ -1029,7 +1031,11 @@ class History(object):
                 # in the current population are protected and exempt)
                 # before adding
                 kr = yield self.cpf()
-                if kr is not None: self.purge(kr)
+                if kr is None:
+                    # Nobody can be bumped
+                    self.dLock.release()
+                    return
+                self.purge(kr)
                 k, kr = self.kkr(SSE, N)
             writeRecord(k, kr)
             self.dLock.release()
-- 
2.43.0


From 0c5ae1f7ffdf251d70b55aae1362a5f4a3b4d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:56:23 +0000
Subject: [PATCH 18/43] fix: relabel members whose values change on loading
 with new bounds

The hash changes along with the values, so the old record stayed
labelled as a population member forever.
---
 ade/population.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/population.py b/ade/population.py
index 1ca82d6..0d03d0c 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -469,6 +469,8 @@ class Population(object):
         if bounds:
             p.pm.setup(bounds)
             for i in p:
+                if not i.equals(p.pm.limit(i.values)):
+                    p.history.notInPop(i)
                 p.limit(i)
         p.reporter = Reporter(p, kw.get('complaintCallback', None))
         abort.callOnAbort(p.abort)
-- 
2.43.0


From b7742c12f83e87620de095cf8e33458bcfd8aa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:48 +0000
Subject: [PATCH 19/43] fix: include the best records in value_vs_SSE when
 their SSE is zero

---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index dfd9c36..37a1ef2 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -232,7 +232,7 @@ class Analysis(object):
         elif kw.get('neverInPop', False):
             K = [k for k in self.K if k in self.Kn]
         else: K = self.K
-        KK = np.flatnonzero(self.X[K,0]/SSE_best <= maxRatio)
+        KK = np.flatnonzero(self.X[K,0] <= maxRatio*SSE_best)
         K = np.array(K)[KK]
         result = [subset(0)]
         for name in names:
-- 
2.43.0


From 6a56a23182ed7a42beef42d3e1ccf171eff81218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:16:48 +0000
Subject: [PATCH 20/43] fix: allow value_vs_SSE queries of an empty history

---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 37a1ef2..fdad3ea 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -224,7 +224,7 @@ class Analysis(object):
         
         names = self.args2names(names)
         maxRatio = kw.get('maxRatio', 1000)
-        SSE_best = self.X[self.K[0],0]
+        SSE_best = self.X[self.K[0],0] if len(self.K) else 0
         if kw.get('inPop', False):
             K = [k for k in self.K if k in self.Kp]
         elif kw.get('notInPop', False):
-- 
2.43.0


From 8691a35b421f030c787429e4ebcf03f25ea22a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:57 +0000
Subject: [PATCH 21/43] fix: score only challengers that beat their targets

A challenger whose evaluation failed, or which only ties its target, has a
ratio of zero. It was added to the score as if it had won.
---
 ade/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index 0d03d0c..2811668 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -1028,7 +1028,7 @@ class Population(object):
             noProgress = True
             force = True
         ratio = self.reporter(iNew, iOld, noProgress, force)
-        if ratio is not None: self.replacement(ratio)
+        if ratio is not None and iNew < iOld: self.replacement(ratio)
         return ratio
 
     def waitForReports(self):
-- 
2.43.0


From 8a9b9c57aa0e3bbc33c7442988e64c5457092fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:39 +0000
Subject: [PATCH 22/43] fix: restore the best individual not complained about

A forced report of a best that had not been told of yet had that very
individual as its fallback, and a complaint about one best after another
lost the one before them both.
---
 ade/report.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/ade/report.py b/ade/report.py
index ef50740..361f10e 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -67,6 +67,7 @@ class Reporter(object):
         self.complaintCallback = complaintCallback
         self.pm = self.p.pm
         self.iBest = None
+        self.iFormerBests = []
         self.iLastReported = None
         self.callbacks = []
         self.cbrInProgress = False
@@ -114,7 +115,7 @@ class Reporter(object):
         ratio = float(betterSSE) / float(worseSSE)
         return abs(ratio - 1.0) < self.minDiff 
 
-    def runCallbacks(self, i, iPrevBest=None):
+    def runCallbacks(self, i):
         """
         Queues up a report for the supplied L{Individual} I{i}, calling
         each of my registered callbacks in turn.
@@ -122,7 +123,8 @@ class Reporter(object):
         If any callback complains about the report by returning a
         result (deferred or immediate) that is not C{None}, processes
         the complaint and then gives the individual a worst-possible
-        SSE.
+        SSE. The best of those I had registered before it is restored
+        to its rightful place.
 
         Default processing is to enter the debugger so the user can
         figure out what the callback was complaining about. But if my
@@ -132,10 +134,6 @@ class Reporter(object):
 
         If the callback had an error, it is logged, processing of any
         further callbacks is halted, and I get aborted.
-
-        @keyword iPrevBest: Set to the previous best individual to
-            allow for it to be restored to its rightful place if a
-            callback complains about I{i}.
         """
         def failed(failureObj, func):
             # TODO: Provide a complete func(*args, **kw).
@@ -156,7 +154,6 @@ class Reporter(object):
             iPrev = None
             while not aborted() and self.cbrScheduled:
                 i = self.cbrScheduled.pop()
-                iPrevBest = self.iPrevBest
                 if iPrev and i == iPrev:
                     continue
                 iPrev = i
@@ -186,13 +183,12 @@ class Reporter(object):
                         # Modify the individual in-place to never again be
                         # winner of a challenge or basis for new individuals
                         i.blacklist()
-                        if iPrevBest and iPrevBest < self.iBest:
-                            self.iBest = iPrevBest
+                        for iFormer in self.iFormerBests:
+                            if iFormer < self.iBest: self.iBest = iFormer
             if msg.lineWritten(): self.progressChar()
             self.cbrInProgress = False
 
         self.cbrScheduled(i)
-        self.iPrevBest = iPrevBest
         if self.cbrInProgress:
             return
         self.dt.put(runUntilFree())
@@ -247,9 +243,9 @@ class Reporter(object):
             # is considered equivalent.
             return not self.isEquivSSE(i, self.iLastReported)
         
-        iPrevBest = self.iBest
         if self.iBest is None or i < self.iBest:
             # Register new best, regardless of whether it gets reported
+            if self.iBest is not None: self.iFormerBests.append(self.iBest)
             self.iBest = i
             isBest = True
         else: isBest = False
@@ -257,7 +253,7 @@ class Reporter(object):
             if self.p.debug:
                 msg(0, "{}\n\t--->\n{}\n", self.iBest, i)
             self.iLastReported = i
-            self.runCallbacks(i, iPrevBest)
+            self.runCallbacks(i)
         
     def msgRatio(self, iNum, iDenom, bogus_char="!", noProgress=False):
         """
-- 
2.43.0


From acf6a1bafdfdb390a94bcbcc584e344c77b01993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:21 +0000
Subject: [PATCH 23/43] fix: record an individual as it was when added to the
 history

An individual blacklisted while a full history was still choosing what to
remove was recorded with an infinite SSE, and stayed labelled a member.
---
 ade/history.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index fdad3ea..02c1ee1 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -989,7 +989,6 @@ class History(object):
             array, and inserts the row index I{kr} into my I{K} list
             at position I{k}.
             """
-            SV = np.array([i.SSE] + list(i.values))
             self.X[kr,:] = SV
             self.K.insert(k, kr)
             self.N_total += 1           # Add to the lifetime total count
@@ -1006,14 +1005,16 @@ class History(object):
                 self.cpf.clearRow(kr)
                 # Add to the individual-row map so it can be removed
                 # from the population later
-                key = hash(i)
+                key = iHash
                 while key in self.kr:
                     # Equal to another member, so use the next key in
                     # a chain of them
                     key = hash((key,))
                 self.kr[key] = kr
 
+        # The individual might change while waiting for the lock
         SSE = i.SSE
+        iHash = hash(i)
         with np.errstate(over='ignore'):
             SV = np.array([SSE] + list(i.values)).astype('f4')
         if np.all(np.isfinite(SV)):
-- 
2.43.0


From 5952985c711f9b6d522c9ab13a5961ddea719e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:38 +0000
Subject: [PATCH 24/43] fix: refuse a biased sample of more indices than there
 can be

Sampling went on forever when fewer indices than requested were eligible.
---
 ade/population.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/population.py b/ade/population.py
index 2811668..75e63f4 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -1108,6 +1108,8 @@ class Population(object):
         elif rb > 1.0:
             raise ValueError(
                 "randomBase must be False, True, or between 0.0 and 1.0")
+        elif N > np.ceil(min(1.0, 2*rb)*len(K)):
+            raise ValueError("Can't have that many unique samples!")
         else:
             result = []
             while len(result) < N:
-- 
2.43.0


From 300dfd18f0bf6db986327bc53689e9e8fcb53a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:17 +0000
Subject: [PATCH 25/43] fix: acquire nothing for a refused lock request

The indices before one requested twice stayed locked forever.
---
 ade/population.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ade/population.py b/ade/population.py
index 75e63f4..4b1d194 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -1143,11 +1143,11 @@ class Population(object):
         """
         if self.running is False:
             return defer.succeed(None)
+        if len(set(indices)) < len(indices):
+            raise ValueError(
+                "Requesting the same lock twice will result in deadlock!")
         dList = []
         for k in indices:
-            if indices.count(k) > 1:
-                raise ValueError(
-                    "Requesting the same lock twice will result in deadlock!")
             if k >= len(self.dLocks):
                 # Invalid index, we must be shutting down
                 self.release()
-- 
2.43.0


From c840347c75d6174bfa957730da9dd0671bb9776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:25 +0000
Subject: [PATCH 26/43] fix: find nothing past an entry of specs that is not a
 dict

Specs.get is documented to return an empty dict for an entry that does
not exist, but returned the value it found on the way there.
---
 ade/specs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ade/specs.py b/ade/specs.py
index 2a1d820..1e33e1b 100644
--- a/ade/specs.py
+++ b/ade/specs.py
@@ -144,16 +144,17 @@ class Specs(object):
             dct = kw['dct']
             if first in dct:
                 obj = dct[first]
-                if names and isinstance(obj, dict):
+                if not names: return obj
+                if isinstance(obj, dict):
                     kw['dct'] = obj
                     return self.get(*names, **kw)
-                return obj
             return {}
         obj = getattr(self, first, {})
-        if names and isinstance(obj, dict):
+        if not names: return obj
+        if isinstance(obj, dict):
             kw['dct'] = obj
             return self.get(*names, **kw)
-        return obj
+        return {}
     
         
 class SpecsLoader(object):
-- 
2.43.0


From bcf58003a7b9d1347cae7618cbf55590acdf5c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:45 +0000
Subject: [PATCH 27/43] fix: stop logging quietly when a failing handle cannot
 be closed either

---
 ade/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ade/util.py b/ade/util.py
index 745fb9b..f953874 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -264,9 +264,12 @@ class Messenger(object):
             if fh is self.fh:
                 return fh
             fhPrev = self.fh
-            if self.fh and self.fh is not sys.stdout:
-                self.fh.close()
             self.fh = fh
+            if fhPrev and fhPrev is not sys.stdout:
+                # Closing a file handle that can't be written to can
+                # fail, too
+                try: fhPrev.close()
+                except: pass
             return fhPrev 
         
         if hasattr(arg, 'write'):
-- 
2.43.0


From aa282446fa5f8084fe8887b06d49e38ef9b46b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:08 +0000
Subject: [PATCH 28/43] fix: extract no example through a dangling link

---
 ade/scripts/examples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/scripts/examples.py b/ade/scripts/examples.py
index 379f66b..fc4411b 100644
--- a/ade/scripts/examples.py
+++ b/ade/scripts/examples.py
@@ -59,7 +59,7 @@ def extract():
         if not reFile.match(fileName):
             continue
         ePath = os.path.join(eDir, fileName)
-        if os.path.exists(ePath):
+        if os.path.lexists(ePath):
             msg("{} already exists", ePath)
         else:
             sPath = os.path.join(sDir, fileName)
-- 
2.43.0


From daadfc26eb6b5cca24df87b39313364666056284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:44 +0000
Subject: [PATCH 29/43] fix: keep fractions set in an individual made of
 integers

---
 ade/individual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/individual.py b/ade/individual.py
index 851b452..b020461 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -261,7 +261,7 @@ class Individual(object):
             raise ValueError(sub(
                 "Expected {:d} values, not {:d}", self.p.Nd, len(values)))
         if isinstance(values, (list, tuple)):
-            values = np.array(values)
+            values = np.array(values, dtype=float)
         self.values = values
     
     def evaluate(self, xSSE=None):
-- 
2.43.0


From 2764f874bd4a32441a3531077e8d90ca437eff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:57 +0000
Subject: [PATCH 30/43] fix: forget the row of a member dropped by row index

History.notInPop with a row index left the individual's entry in the map
from individuals to rows. When an equal individual was dropped later, the
stale entry was found and whatever record had since been written to that
row was no longer regarded as a current member's.
---
 ade/history.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ade/history.py b/ade/history.py
index 02c1ee1..1dcba87 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1074,6 +1074,13 @@ class History(object):
                 # sometimes as a Numpy integer, and Py3 distinguishes between
                 # them
                 kr = x
+                # An equal individual must not find the row again
+                for key in [key for key in self.kr if self.kr[key] == kr]:
+                    last = key
+                    while hash((last,)) in self.kr:
+                        last = hash((last,))
+                    self.kr[key] = self.kr[last]
+                    del self.kr[last]
             else:
                 # Must be an Individual
                 key = xHash
-- 
2.43.0


From 8ea19f1ee1f3f111452bfe839676ff4d8213cc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:36 +0000
Subject: [PATCH 31/43] fix: use the last row of each Latin hypercube in setup

The initial population was made from all rows of the hypercube but its
last, plus the first row of another one. So it was no Latin hypercube:
one slice of each parameter's range was left out and another could be
taken twice.
---
 ade/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index 4b1d194..fc4d187 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -777,7 +777,7 @@ class Population(object):
 
         def getNextIV():
             k, IV = kIV
-            if k+1 == IV.shape[0]:
+            if k == IV.shape[0]:
                 refreshIV()
                 k, IV = kIV
             kIV[0] += 1
-- 
2.43.0


From 1d1c78ebd129aa39b507833b90ae243f707e5c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:22 +0000
Subject: [PATCH 32/43] fix: make the log summary script work on current Python

The patterns for parameter values had a bad escape, which Python has
refused since version 3.7, so the script failed as soon as it was
started.
---
 ade/scripts/lgg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index 5d6b1d6..a7c0c8a 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -100,7 +100,7 @@ class RowManager(object):
         for k, name in enumerate(self.names):
             self.indices[name] = k
             self.rp[name] = re.compile(sub(
-                r'(^|\s){}\=([\+\-]?[0-9][0-9\.e\E\-\+]*)(\**)(\s|\>|$)', name))
+                r'(^|\s){}\=([\+\-]?[0-9][0-9\.eE\-\+]*)(\**)(\s|\>|$)', name))
         self.SSE = []
         self.values = []
         self.stars = []
@@ -207,7 +207,7 @@ class Grepper(object):
     reSSE = re.compile(r'SSE\=([\d\.eE\-\+]+)')
     reParam = re.compile(
         r'(^|\s)([a-zA-Z]+[_a-zA-Z0-9]*)\='+\
-        r'([\+\-]?[0-9][0-9\.e\E\-\+]*)(\**)(\s|\>|$)')
+        r'([\+\-]?[0-9][0-9\.eE\-\+]*)(\**)(\s|\>|$)')
 
     def __init__(self, filePath, args):
         self.filePath = filePath
-- 
2.43.0


From 999659bd334bc1b9611e8a9855f8297c1ad4fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:22 +0000
Subject: [PATCH 33/43] fix: compare negative parameter values in the log
 summary

The relative difference from a negative value was negative, so entries
that differ in such a parameter were taken for alike and left out.
---
 ade/scripts/lgg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index a7c0c8a..b00b927 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -177,7 +177,7 @@ class RowManager(object):
         def diffEnough(a, b):
             if b == 0:
                 return abs(a) > maxDiff
-            return abs(a-b)/b > maxDiff
+            return abs(a-b)/abs(b) > maxDiff
         
         K = np.argsort(self.SSE)
         bestSSE = np.min(self.SSE)
-- 
2.43.0


From 0eaf1d83fc7c36b8599056653751fd77d2cb2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:22 +0000
Subject: [PATCH 34/43] fix: keep the best rows when trimming the log summary

With more rows than are to be shown, the best ones were dropped.
---
 ade/scripts/lgg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index b00b927..db88dff 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -191,7 +191,7 @@ class RowManager(object):
                         break
                 else: continue
             KS.append(k)
-        KS = list(reversed(KS[-maxRows:]))
+        KS = list(reversed(KS[:maxRows]))
         self.SSE = self.SSE[KS]
         self.values = self.values[KS]
         self.stars = self.stars[KS]
-- 
2.43.0


From 3e4c463836c84dfa1accd414b106acadcef1d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:22 +0000
Subject: [PATCH 35/43] fix: show ranges of parameters in the log summary

A range such as x1-3 was only looked up as a pattern, which no name
matches, so its parameters were not shown.
---
 ade/scripts/lgg.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ade/scripts/lgg.py b/ade/scripts/lgg.py
index db88dff..82cd62d 100644
--- a/ade/scripts/lgg.py
+++ b/ade/scripts/lgg.py
@@ -317,10 +317,14 @@ class Grepper(object):
     def globNames(self, pattern):
         """
         Looks at the first SSE entry of the log file and identifies all
-        names that match the glob I{pattern}.
+        names that match the glob I{pattern}, or are in the range it
+        specifies.
         """
         for SSE, pd in self.filerator():
-            return fnmatch.filter(sorted(pd.keys()), pattern)
+            names = fnmatch.filter(sorted(pd.keys()), pattern)
+            if not names:
+                names = [x for x in RowManager([pattern]).names if x in pd]
+            return names
     
     def load(self):
         """
-- 
2.43.0


From b8242ee754f36b5214c102881e27b14cffda22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:05 +0000
Subject: [PATCH 36/43] fix: plot correlations of the named parameter with all
 others

Only pairs that the named parameter came first in were plotted.
---
 ade/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index 1dcba87..ad660be 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -523,7 +523,8 @@ class Analysis(object):
             count = 0
             for stuff in self.correlator():
                 k1, k2, R = stuff
-                if name and name != self.k2name(k1): continue
+                if name and name not in (
+                        self.k2name(k1), self.k2name(k2)): continue
                 corr = sub("R={:+.3f}", R)
                 sp.add_textBox("SE" if R > 0 else "NE", corr)
                 xName, yName, m, b = self.plotXY(k1, k2, sp)
-- 
2.43.0


From 2afffc36c7ebda0156176775341b7a01bc260fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:05 +0000
Subject: [PATCH 37/43] fix: plot parameters in the subplots supplied

The keyword sp was ignored because another name was looked up.
---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index ad660be..fa11faf 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -411,7 +411,7 @@ class Analysis(object):
         noShow = kw.pop('noShow', False)
         semilog = kw.pop('semilog', False)
         dims = kw.pop('dims', None)
-        sp = kw.pop('kw', None)
+        sp = kw.pop('sp', None)
         names = self.args2names(names)
         inPop = kw.get('inPop', False)
         kw['inPop'] = True
-- 
2.43.0


From cb4313f745ff5de04f823780ddf7e92e553d8d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:07 +0000
Subject: [PATCH 38/43] fix: show correlation plots when there are few
 parameters

The number of subplots was not an integer then, so showing them failed.
---
 ade/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/history.py b/ade/history.py
index fa11faf..f47db1a 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -515,7 +515,7 @@ class Analysis(object):
             your convenience.
         """
         Np = self.X.shape[1] - 1
-        Ncombos = Np*(Np-1)/2
+        Ncombos = Np*(Np-1)//2
         if Ncombos == 0: return
         if Ncombos < N: N = Ncombos
         pt = self.makePlotter(N, dims=dims)
-- 
2.43.0


From 1441fb8ac0ae0e46f30273c56f0aa638d01b1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:58 +0000
Subject: [PATCH 39/43] fix: keep all figures until they are shown or saved

Yampex only has weak references to its plotters, so a figure was not shown
or saved if it was collected as garbage while the following ones were made.
---
 ade/history.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ade/history.py b/ade/history.py
index f47db1a..3bfc0ba 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -106,6 +106,7 @@ class Analysis(object):
         self.K = K
         self.Kp = Kp
         self.Kn = Kn
+        self.plotters = []
         if baseFilePath: self.filePath(baseFilePath)
 
     def corr(self, k1, k2):
@@ -356,6 +357,8 @@ class Analysis(object):
         if height: kw['height'] = height
         pt = Plotter(*args, **kw)
         pt.use_grid()
+        # Yampex only has a weak reference to it for showAll
+        self.plotters.append(pt)
         return pt
     
     def plot(self, names, **kw):
-- 
2.43.0


From 30dd4a98aa0d079097b47d4e1cefb373d1cd89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:19 +0000
Subject: [PATCH 40/43] fix: set up each of the subplots supplied, not just the
 first

---
 ade/history.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 3bfc0ba..988bd32 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -431,8 +431,10 @@ class Analysis(object):
         N = len(XYp) - 1
         kList = list(range(N))
         if sp is not None:
-            setup(sp)
-            doSubplots(sp, kList)
+            # Options set in subplot context are for one subplot only
+            for k in kList:
+                setup(sp)
+                doSubplots(sp, [k])
             return
         while kList:
             N = self.pick_N(kList)
-- 
2.43.0


From 71c4adf657afef22695de3bc737fbcd5992ff71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:37 +0000
Subject: [PATCH 41/43] fix: treat arguments as empty when no positional ones
 are declared

Attributes that don't exist are None, so the length and truth of the
arguments raised an exception then.
---
 ade/args.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ade/args.py b/ade/args.py
index 0550b85..ce5926c 100644
--- a/ade/args.py
+++ b/ade/args.py
@@ -91,14 +91,14 @@ class Args(object):
         return text
 
     def __iter__(self):
-        for x in getattr(self, '_args_', []):
+        for x in self._args_ or []:
             yield x
 
     def __len__(self):
-        return len(getattr(self, '_args_', []))
+        return len(self._args_ or [])
 
     def __getitem__(self, k):
-        return getattr(self, '_args_', [])[k]
+        return (self._args_ or [])[k]
     
     def __getattr__(self, name):
         if self.args is None:
-- 
2.43.0


From f0168870c1cbd0c9f9388dc2cc26aa9ae9959a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:08 +0000
Subject: [PATCH 42/43] fix: start the image viewer with all of its options

---
 ade/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/image.py b/ade/image.py
index f21d0cd..21f83bb 100644
--- a/ade/image.py
+++ b/ade/image.py
@@ -150,7 +150,7 @@ class ImageViewer(object):
                 for arg in ex[1:]:
                     if "{}" in arg:
                         arg = arg.replace("{}", os.path.basename(fp.path))
-                        args.append(arg)
+                    args.append(arg)
                 args.append(fp.path)
                 self.transport = reactor.spawnProcess(
                     self.ivp, exPath, args, env=None)
-- 
2.43.0


From 085384221979aa0a2986503cc6f2ba2dd7a2644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:08 +0000
Subject: [PATCH 43/43] fix: start the image viewer when told of its file by
 the notifier

---
 ade/image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/image.py b/ade/image.py
index 21f83bb..e7c1bd1 100644
--- a/ade/image.py
+++ b/ade/image.py
@@ -142,6 +142,8 @@ class ImageViewer(object):
         "Returns" a C{Deferred} that fires with the PID of the spawned
         image viewer process.
         """
+        # The notifier's paths are bytes
+        fp = fp.asTextMode()
         for ex in self.exList:
             exPath = ex[0]
             if os.path.exists(exPath):
-- 
2.43.0

