---------------------------- MODULE Trace_Parts -----------------------------
(* Conformance of labelled FITS objects with Parts.tla: each is the part of  *)
(* the file that the rules say, and brings along the header of its own HDU.  *)
EXTENDS Parts, TraceBase
VARIABLE l

Agrees(obs, e) ==
  LET w == Where(e.o, e.hdus, e.at) IN
  CASE w.part = "none" -> Clause("absent", obs.kind = "absent")
    [] w.part = "empty" -> Clause("empty", obs.kind \in {"absent", "nothing"})
    [] w.part = "header" ->
         Clause("form", obs.kind = "header") \cup
         (IF obs.kind = "header" THEN Clause("header", obs.tag = e.hdus[w.hdu].tag)
          ELSE {})
    [] w.part = "data" ->
         Clause("form", obs.kind = "data") \cup
         (IF obs.kind = "data"
          THEN Clause("contents", obs.cells = e.hdus[w.hdu].cells) \cup
               Clause("own-header", obs.own = e.hdus[w.hdu].tag)
          ELSE {})
Verdict(e) ==
  IF e.obs[1].kind = "timeout" THEN {"timeout"}
  ELSE Clause("listed", e.listed) \cup
       Agrees(e.obs[1], e) \cup
       Clause("again", \A i \in 1..Len(e.obs) : e.obs[i] = e.obs[1])

TraceInit == l = 1
TraceNext ==
  LET e == Trace[l] IN
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Report(e, Verdict(e))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
