---------------------------- MODULE Trace_Known -----------------------------
(* Conformance of objects of irregular data sets: they hold what Known says  *)
(* their files hold, however often they are loaded, and loading them leaves  *)
(* the label as it was.                                                      *)
EXTENDS Known, TraceBase
VARIABLE l

CaseOf(o) == CHOOSE c \in Cases : Object(c) = o
\* what a table has to look like
Expected(e) ==
  LET how == CaseOf(e.o).how IN
  IF how.kind = "fixed" THEN FixedTable(e.bytes, how, e.label)
  ELSE IF how.kind = "cells" THEN CellTable(e.bytes, how, e.label)
  ELSE LET n == TextNames(e.lines, how, e.label) IN
       [names |-> n, rows |-> TextRows(e.lines, how, e.label, Len(n))]
Same(obs, e) ==
  LET how == CaseOf(e.o).how IN
  IF how.kind = "image"
  THEN LET x == Samples1(e.bytes, how, e.label) IN
       Clause("form", obs.kind = "array") \cup
       (IF obs.kind = "array"
        THEN Clause("shape", obs.shape = x.shape) \cup
             Clause("contents", obs.cells = x.cells)
        ELSE {})
  ELSE Clause("form", obs.kind = "frame") \cup
       (IF obs.kind = "frame"
        THEN LET x == Expected(e) IN
             Clause("names", obs.names = x.names) \cup
             Clause("contents", obs.rows = x.rows)
        ELSE {})
Verdict(e) ==
  IF e.obs[1].kind = "timeout" THEN {"timeout"}
  ELSE Clause("listed", e.listed) \cup
       Same(e.obs[1], e) \cup
       (IF Same(e.obs[1], e) = {}
        THEN Clause("again", \A i \in 1..Len(e.obs) : e.obs[i] = e.obs[1])
        ELSE {}) \cup
       Clause("label", e.same)

TraceInit == l = 1
TraceNext ==
  LET e == Trace[l] IN
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Report(e, Verdict(e))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
