---------------------------- MODULE Trace_Label -----------------------------
(* Conformance of recorded label readings and metadata lookups with          *)
(* Label.tla: the first event of a session is the reading of a label, the    *)
(* others are lookups on it.                                                 *)
EXTENDS Label, TraceBase
VARIABLES l, c            \* c: the statements, and the tree they denote

Read(e) ==
  IF e.obs.t # "block" THEN {"not-read:" \o e.obs.t}
  ELSE LET es == Tree(e.xs)
       IN Clause("structure", SameShape(es, e.obs.e))
          \cup (IF ~SameShape(es, e.obs.e) THEN {}
                ELSE Clause("values", SameTree(es, e.obs.e)))
          \cup Clause("unclosed-warning", ~Complete(e.xs) => e.warned)
          \cup Clause("spurious-warning", Complete(e.xs) => ~e.warned)

LookedUp(e) ==
  LET n == Lookup(c.es, e.k)
      found == Count(c.xs, e.k) > 0 /\ n # None
  IN IF e.obs.t = "exc" THEN {"lookup-raised:" \o e.obs.v}
     ELSE IF ~found THEN
       (IF e.op = "block" THEN Clause("no-such-block", e.obs.t = "none")
        ELSE Clause("default", e.isdef))
     ELSE IF e.op = "block" THEN
       (IF n.t = "block" THEN Clause("block", SameNode(n, e.obs))
        ELSE IF e.obs.t = "map" THEN Clause("mapping", Denotes(n, e.obs))
        ELSE Clause("whole", e.obs.t = "block" /\ SameTree(c.es, e.obs.e)))
     ELSE Clause("value", SameNode(n, e.obs))

Warned(e) ==
  Clause("ambiguity-warning", e.warned = (e.loud /\ Count(c.xs, e.k) > 1))

Verdict(e) ==
  IF e.obs.t = "timeout" THEN {"timeout"}
  ELSE IF e.op = "read" THEN Read(e)
  ELSE LookedUp(e) \cup Warned(e)

TraceInit == l = 1 /\ c = [xs |-> <<>>, es |-> <<>>]
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ c' = IF Trace[l].op = "read"
          THEN [xs |-> Trace[l].xs, es |-> Tree(Trace[l].xs)] ELSE c
  /\ Report(Trace[l], Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, c>>
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
