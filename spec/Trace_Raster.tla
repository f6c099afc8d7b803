---------------------------- MODULE Trace_Raster ----------------------------
(* Conformance of recorded image / qube reads with Raster.tla.              *)
EXTENDS Raster, TraceBase
VARIABLE l

Verdict(e) ==
  LET o == e.obs
  IN IF o.kind # "array" THEN {"loaded-as-array:" \o o.kind}
     ELSE Clause("dtype", o.dtype = DType(e.type, e.n))
          \cup Clause("shape", o.shape = Shape(e.g))
          \cup (IF o.dtype = DType(e.type, e.n) /\ o.shape = Shape(e.g)
                THEN Clause("samples",
                       o.data = RasterData(e.g, e.type, e.n, e.file, e.start))
                ELSE {})

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ Report(Trace[l], Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
