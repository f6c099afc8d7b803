---------------------------- MODULE Trace_Files -----------------------------
(* Conformance of recorded products with Files.tla and Layout.tla.           *)
EXTENDS Layout, TraceBase
F == INSTANCE Files
VARIABLE l

(* find: a name wanted in a list of directories; obs.path is the file the    *)
(* product says it read ("" if none), obs.m the marker found in the value.   *)
Find(e) ==
  LET hits == F!Resolve(e.dirs, e.cands)
  IN IF hits = {} THEN
       Clause("missing-not-reported", e.obs.warned) \cup
       Clause("found-nowhere", e.obs.m = "") \cup
       Clause("path-of-missing", e.obs.d = 0)
     ELSE Clause("value-of-file", e.obs.m \in {h.m : h \in hits}) \cup
          (IF e.what = "format" THEN {}
           ELSE Clause("path", \E h \in hits : h.d = e.obs.d /\ h.x = e.obs.x
                                               /\ h.m = e.obs.m))

\* several: a pointer naming several files
Several(e) ==
  Clause("all-files-mapped",
         /\ Len(e.obs.ms) = Len(e.wants)
         /\ \A i \in 1..Len(e.wants) :
              \E j \in 1..Len(e.obs.ms) : (e.set \/ i = j) /\
                e.obs.ms[j] \in {h.m : h \in F!Resolve(e.dirs,
                                   F!Everywhere(e.dirs, e.wants[i]))})

Opened(e) ==
  LET outs == F!Outcomes(e.dir, e.w, e.a)
      ok(o) == /\ o.std = e.obs.std
               /\ o.std # "error" => o.m = e.obs.m
  IN Clause("opened-as", \E o \in outs : ok(o)) \cup
     Clause("label-reported",
            e.obs.std \in {"PDS3", "PDS4"} => e.obs.lab = e.obs.m) \cup
     Clause("data", e.obs.std # "error" => e.obs.data = e.obs.m)

(* layout: the objects of a product *)
Layout1(e) ==
  LET nn == Numbered([i \in 1..Len(e.objs) |-> e.objs[i].name])
      One(i) ==
        LET o == e.objs[i]
            at == Start(o, o.frb, e.prodRB)
            x == Holds(o, e.files[o.file].bytes, at)
            j == CHOOSE j \in 1..Len(nn) : e.obs.names[j] = nn[i]
            g == e.obs.values[j]
        IN Clause("value-of-" \o nn[i], g = x) \cup
           Clause("path-of-" \o nn[i], e.obs.paths[j] = e.files[o.file].x)
  IN IF e.obs.kind = "exc" THEN {"not-opened"}
     ELSE IF e.obs.names # Listing(nn, [i \in 1..Len(nn) |-> e.objs[i].level])
          THEN {"names"}
     ELSE UNION {One(i) : i \in 1..Len(e.objs)}

(* attach: an attached label; obs.n is the length of the text taken for the  *)
(* label, which may include white space up to the end of the line after END  *)
Attach(e) ==
  LET n == LabelSize(e.toks)
  IN Clause("label-end", n <= e.obs.n /\ e.obs.n <= n + e.slack) \cup
     Clause("label-text", e.obs.same) \cup
     Clause("label-object", e.obs.object = e.object) \cup
     Clause("same-metadata", e.obs.meta = e.obs.metaDetached) \cup
     Clause("same-data", e.obs.data = e.obs.dataDetached) \cup
     Clause("data", e.obs.data = e.data)

Verdict(e) ==
  IF e.obs.kind = "timeout" THEN {"timeout"}
  ELSE CASE e.op = "find" -> Find(e)
         [] e.op = "several" -> Several(e)
         [] e.op = "open" -> Opened(e)
         [] e.op = "layout" -> Layout1(e)
         [] e.op = "attach" -> Attach(e)

TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Report(Trace[l], Verdict(Trace[l]))
TraceSpec == TraceInit /\ [][TraceNext]_l
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
