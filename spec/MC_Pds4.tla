------------------------------- MODULE MC_Pds4 ------------------------------
(* A writer that lays out the records of a PDS4 table by walking their       *)
(* description with a stack, one field at a time. For each field it keeps    *)
(* what it wrote in order of occurrence, both as bytes of a fixed-width      *)
(* record and as the values of a delimited one; the reader's arithmetic      *)
(* (Columns4, Values) must find the same.                                    *)
EXTENDS Pds4, Json
CONSTANTS MaxGap, MaxReps, Records

VARIABLES nodes, work, tape, vals, stamp, log
vars == <<nodes, work, tape, vals, stamp, log>>

Fld(n, at, w) == [k |-> "f", name |-> n, type |-> "UnsignedByte", loc |-> at, len |-> w]
Grp(n, r, at, len, sub) ==
  [k |-> "g", name |-> n, reps |-> r, loc |-> at, len |-> len, sub |-> sub]
End4(nd) == nd.loc - 1 + nd.len
Tail4(ns) == IF ns = <<>> THEN 0 ELSE End4(ns[Len(ns)])
Gaps == 0..MaxGap
Reps == 1..MaxReps
\* the fields of an innermost group
Inner(n) == {<<Fld(n, 1 + g, w)>> : g \in Gaps, w \in {1, 2}}
      \cup {<<Fld(n, 1, 1), Fld(n \o "2", 2 + g, 2)>> : g \in Gaps}
Group(n, at, subs) ==
  {Grp(n, r, at, r * (Tail4(s) + p), s) : r \in Reps, p \in Gaps, s \in subs}
Nested == UNION {{<<Fld("P", 1, 1)>> \o <<g>> : g \in Group("", 2, Inner("N"))}
                 \cup {<<g>> : g \in Group("H", 1 + q, Inner("N"))}
                 \cup {<<g, Fld("Q", End4(g) + 1, 1)>> : g \in Group("", 1, Inner("N"))}
                 : q \in Gaps}
Nothing == {<<>>}
Trees ==
  LET heads == {<<Fld("A", 1 + g, 1)>> : g \in Gaps}
      mids == UNION {{h \o <<g>> : g \in Group("", Tail4(h) + 1, Inner("B") \cup Nested)} : h \in heads}
      bare == {<<g>> : g \in Group("G", 1, Inner("B") \cup Nested)}
  IN heads \cup bare \cup {m \o <<Fld("Z", Tail4(m) + 1 + MaxGap, 2)>> : m \in mids}

Fs(ns) == Fields4(ns, <<>>, "")
Init ==
  /\ nodes \in Trees
  /\ work = [i \in 1..Records |-> [op |-> "record"]]
  /\ tape = <<>> /\ vals = <<>> /\ stamp = 0
  /\ log = [n \in {f.name : f \in Range(Fs(nodes))} |-> <<>>]

Task == Head(work)
Do(ops) == work' = ops \o Tail(work)
Visit(ns, b, prefix) ==
  [i \in 1..Len(ns) |-> [op |-> "node", nd |-> ns[i], base |-> b, prefix |-> prefix]]
PadTo(n) == IF Len(tape) >= n THEN tape ELSE tape \o [i \in 1..(n - Len(tape)) |-> 0]
Walk ==
  /\ work # <<>>
  /\ UNCHANGED nodes
  /\ CASE Task.op = "record" ->
            /\ Do(Visit(nodes, Len(tape), ""))
            /\ UNCHANGED <<tape, vals, stamp, log>>
       [] Task.op = "copy" ->      \* n more repetitions, each where the last one ended
            /\ Do(Visit(Task.sub, Len(tape), Task.prefix)
                  \o <<[op |-> "pad", to |-> Len(tape) + Task.each]>>
                  \o (IF Task.n > 1 THEN <<[Task EXCEPT !.n = @ - 1]>> ELSE <<>>))
            /\ UNCHANGED <<tape, vals, stamp, log>>
       [] Task.op = "pad" ->
            /\ tape' = PadTo(Task.to) /\ Do(<<>>) /\ UNCHANGED <<vals, stamp, log>>
       [] Task.op = "node" ->
            LET nd == Task.nd at == Task.base + nd.loc - 1
            IN IF nd.k = "f"
               THEN LET v == [i \in 1..nd.len |-> 1 + ((stamp + i - 1) % 200)]
                        nm == Task.prefix \o nd.name
                    IN /\ tape' = PadTo(at) \o v
                       /\ vals' = Append(vals, v)
                       /\ log' = [log EXCEPT ![nm] = Append(@, v)]
                       /\ stamp' = stamp + nd.len /\ Do(<<>>)
               ELSE /\ Do(<<[op |-> "copy", n |-> nd.reps, sub |-> nd.sub,
                             each |-> nd.len \div nd.reps,
                             prefix |-> IF nd.name = "" THEN Task.prefix
                                        ELSE Task.prefix \o nd.name \o ", "]>>)
                    /\ tape' = PadTo(at) /\ UNCHANGED <<vals, stamp, log>>
Next == Walk
Spec == Init /\ [][Next]_vars

Done == work = <<>>
\* the columns of one field in one record, in order
PlacesOf(ns, f) == LET p == Places(f.gs) IN [j \in 1..Len(p) |-> f.off + p[j]]
Fixed4 == Done => LET len == Len(tape) \div Records IN
  \A f \in Range(Fs(nodes)) :
    log[f.name] = Flat([r \in 1..Records |->
      LET p == PlacesOf(nodes, f)
      IN [j \in 1..Len(p) |-> Cut(tape, (r - 1) * len + p[j], f.w)]])
Delimited4 == Done => LET len == Len(vals) \div Records IN
  \A f \in Range(Fs(InValues(nodes))) :
    log[f.name] = Flat([r \in 1..Records |->
      LET p == PlacesOf(nodes, f)
      IN [j \in 1..Len(p) |-> vals[(r - 1) * len + p[j] + 1]]])
Whole == Done => SumSeq([i \in 1..Len(nodes) |-> Values(nodes[i])]) * Records = Len(vals)
Emit == (tape = <<>> /\ stamp = 0 /\ Len(work) = Records) =>
          PrintT("SCN " \o ToJson([nodes |-> nodes]))
=============================================================================
