---------------------------- MODULE Trace_Scale -----------------------------
(* Conformance of recorded histories of scaling requests with Scaling.tla.   *)
EXTENDS Scaling, TraceBase
VARIABLES l, c, inp        \* the product's array; scaled in place since load?

Held(cc, may, o) ==
  IF o.kind # "array" THEN {"held-kind"}
  ELSE Clause("held-unchanged", GoodRaw(cc, o) \/ (may /\ GoodInPlace(cc, o)))

Verdict(e) ==
  IF e.op = "open" THEN {}
  ELSE IF e.obs.kind = "timeout" THEN {"timeout"}
  ELSE CASE e.op = "get" ->
              (IF e.obs.kind # "array" THEN {"no-array"}
               ELSE Clause("shape", e.obs.shape = c.shape) \cup
                    (IF c.want = "C21"
                     THEN Clause("mask", e.obs.mask = MaskOf(c)) \cup
                          Clause("scaled", GoodScaled(c, e.obs))
                     ELSE Clause("scaled", GoodValues(c, e.obs))))
              \cup Held(c, inp \/ e.inplace, e.held)
         [] e.op = "item" -> Held(c, inp, e.held)
         [] e.op = "reload" -> Held(c, FALSE, e.held)
         [] e.op = "other" ->
              Clause("non-array-refused",
                     e.obs.kind = "exc" /\ e.obs.type = "TypeError")
              \cup Held(c, inp, e.held)

TraceInit == l = 1 /\ c = [x |-> 0] /\ inp = FALSE
TraceNext ==
  LET e == Trace[l] IN
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Report(e, Verdict(e))
  /\ c' = IF e.op = "open" THEN e ELSE c
  /\ inp' = IF e.op \in {"open", "reload"} THEN FALSE
            ELSE inp \/ (e.op = "get" /\ e.inplace)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, c, inp>>
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
