----------------------------- MODULE Trace_Malin ----------------------------
(* Conformance of images from Malin's cameras with Malin.tla: they are what  *)
(* the files' bytes say by it.                                               *)
EXTENDS Malin, TraceBase
VARIABLE l

Verdict(e) ==
  IF e.obs[1].kind = "timeout" THEN {"timeout"}
  ELSE LET want == IF e.op = "msl" THEN MslImage(e.file) ELSE MocImage(e.parts)
           o == e.obs[1]
       IN  Clause("read", o.kind = "image") \cup
           (IF o.kind = "image"
            THEN Clause("shape", o.shape = want.shape) \cup
                 Clause("pixels", o.pixels = want.pixels)
            ELSE {}) \cup
           Clause("again", \A i \in 1..Len(e.obs) : e.obs[i] = o)

TraceInit == l = 1
TraceNext ==
  LET e == Trace[l] IN
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Report(e, Verdict(e))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
