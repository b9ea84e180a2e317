"""Writes spec/Trace<Module>.tla, the trace checker, for each module named."""
import sys, os
TEXT = """---- MODULE Trace{m} ----
(* Checks recorded traces of the implementation against {m}: one behaviour per
   trace, every violated clause is printed, every trace ends in DONE. *)
EXTENDS {m}, Json, IOUtils

VARIABLES tid, l, st

Traces == JsonDeserialize(IOEnv.TRACE_FILE)

TraceInit == /\\ tid \\in 1..Len(Traces)
             /\\ l = 1
             /\\ st = InitState(Traces[tid].cfg)

TraceNext ==
    LET ev == Traces[tid].ev IN
    /\\ l <= Len(ev)
    /\\ \\A c \\in Bad(st, ev[l]) : PrintT(<<"REJECT", tid, l, c>>)
    /\\ st' = Apply(st, ev[l])
    /\\ l' = l + 1
    /\\ l' > Len(ev) => PrintT(<<"DONE", tid, l>>)
    /\\ UNCHANGED tid

TraceSpec == TraceInit /\\ [][TraceNext]_<<tid, l, st>>
====
"""
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec')
for m in sys.argv[1:]:
    with open(os.path.join(here, 'Trace%s.tla' % m), 'w') as fh:
        fh.write(TEXT.format(m=m))
