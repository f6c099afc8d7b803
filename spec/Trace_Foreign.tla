---------------------------- MODULE Trace_Foreign ---------------------------
(* Conformance of loosely labelled products with Foreign.tla: labels' texts  *)
(* and tables' columns and cells are those in the files.                     *)
EXTENDS Foreign, TraceBase
VARIABLE l

LabelVerdict(e) ==
  LET want == Decoded(Encoding(e.file), e.bytes) IN
  Clause("read", e.obs[1].kind = "label") \cup
  (IF e.obs[1].kind = "label"
   THEN Clause("text", e.obs[1].text = want) \cup
        Clause("whole-label", e.obs[1].whole) \cup
        Clause("other-keyword", e.obs[1].count = e.count) \cup
        Clause("data", e.obs[1].cells = e.cells)
   ELSE {})
TableVerdict(e) ==
  Clause("read", e.obs[1].kind = "table") \cup
  (IF e.obs[1].kind = "table"
   THEN Clause("columns", e.obs[1].names = Columns(e)) \cup
        Clause("cells", e.obs[1].rows = e.rows) \cup
        Clause("header", e.obs[1].tag = e.tag)
   ELSE {})
Verdict(e) ==
  IF e.obs[1].kind = "timeout" THEN {"timeout"}
  ELSE (IF e.op = "label" THEN LabelVerdict(e) ELSE TableVerdict(e)) \cup
       Clause("again", \A i \in 1..Len(e.obs) : e.obs[i] = e.obs[1])

TraceInit == l = 1
TraceNext ==
  LET e == Trace[l] IN
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ Report(e, Verdict(e))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
