----------------------------- MODULE Trace_Query ----------------------------
(* Conformance of recorded runs of pipelines with Query.tla, call by call.   *)
EXTENDS Query, TraceBase
VARIABLES l, c, s

Verdict(e) ==
  IF e.op = "case" THEN {}
  ELSE IF e.op = "call" THEN
    (IF s.end # "" THEN {"call-after-end"}
     ELSE IF e.id # Due(c, s).id THEN {"call-out-of-order"}
     ELSE Clause("arguments", Range(e.args) = Args(Due(c, s), s.known)))
  ELSE \* "end"
    IF e.obs.kind = "timeout" THEN {"timeout"}
    ELSE IF s.end = "" THEN {"call-left-out"}
    ELSE (IF s.end = "ok"
          THEN Clause("result", e.obs.kind = "ok" /\ e.obs.value = s.value)
          ELSE Clause("error", e.obs.kind = "exc" /\ e.obs.type = s.end))
         \cup Clause("tracked", \/ ~e.tracked
                                \/ e.history = Tracked(c, s.i)
                                \/ s.end # "ok" /\ e.history = Tracked(c, s.i - 1))
         \cup Clause("tracked-checks", c.real \/ e.seen = s.seen)

TraceInit == l = 1 /\ c = [x |-> 0] /\ s = [end |-> "none"]
TraceNext ==
  LET e == Trace[l] IN
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Report(e, Verdict(e))
  /\ c' = IF e.op = "case" THEN e.c ELSE c
  /\ s' = IF e.op = "case" THEN Start0(e.c)
          ELSE IF e.op = "call" /\ s.end = "" /\ e.id = Due(c, s).id
          THEN Step(c, s, IF c.real THEN e.ret ELSE Due(c, s))
          ELSE s
TraceSpec == TraceInit /\ [][TraceNext]_<<l, c, s>>
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
