----------------------------- MODULE MC_Arrays ------------------------------
(* A writer that lays out the items of a structured array by walking the     *)
(* description with a stack, one byte at a time: it knows nothing of offsets *)
(* beyond "the object I am in started there". What it writes must be what    *)
(* the reader's arithmetic (LeavesSeq, Pitch) finds.                         *)
EXTENDS Arrays, Json
CONSTANTS MaxGap, MaxN
Items == {<<1>>, <<2>>, <<2, 2>>}

VARIABLES nodes, dims, work, tape, stamp
vars == <<nodes, dims, work, tape, stamp>>

El(n, s, w) == [k |-> "el", name |-> n, start |-> s, type |-> "UNSIGNED_INTEGER", w |-> w]
Coll(s, b, sub) == [k |-> "coll", start |-> s, bytes |-> b, sub |-> sub]
Arr(s, n, sub) == [k |-> "arr", start |-> s, n |-> n, sub |-> sub]

Gaps == 0..MaxGap
Ws == {1, 2}
\* one or two elements with gaps
Pair == {<<El("X", 1 + g, w)>> : g \in Gaps, w \in Ws}
        \cup {<<El("X", 1 + g, w), El("Y", 1 + g + w + h, v)>> :
               g \in Gaps, h \in Gaps, w \in Ws, v \in Ws}
Tight(sub) == [sub EXCEPT ![1].start = 1]
\* what may follow: an element, a group, a nested array of elements or groups
Mid(at) == {<<>>}
   \cup {<<Coll(at + g, w + 1, <<El("A", 1, w), El("B", w + 1, 1)>>)>> : g \in Gaps, w \in Ws}
   \cup {<<Arr(at + g, n, <<El("A", 1, w)>>)>> : g \in Gaps, n \in 2..MaxN, w \in Ws}
   \cup {<<Arr(at + g, n, <<Coll(1, w + h + 1, <<El("A", 1, w), El("B", w + h + 1, 1)>>)>>)>> :
          g \in Gaps, h \in Gaps, n \in 2..MaxN, w \in Ws}
Trees ==
  LET heads == {<<El("X", 1 + g, w)>> : g \in Gaps, w \in Ws}
      hm == UNION {{h \o m : m \in Mid(Pitch(h) + 1)} : h \in heads}
      hmt == hm \cup {t \o <<El("Y", Pitch(t) + 1 + g, 2)>> : t \in hm, g \in Gaps}
  IN hmt

Init ==
  /\ dims \in Items
  /\ \E body \in Trees, tail \in Gaps :
       nodes = <<Coll(1, Pitch(body) + tail, body)>>
  /\ work = [i \in 1..ProdSeq(dims) |-> [op |-> "item"]]
  /\ tape = <<>> /\ stamp = 0

Do(ops) == work' = ops \o Tail(work)
Task == Head(work)
\* tasks for the nodes of an object that starts at byte b of the tape
Tasks(ns, b) == [i \in 1..Len(ns) |-> [op |-> "node", nd |-> ns[i], base |-> b]]
PadTo(n) == IF Len(tape) >= n THEN tape ELSE tape \o [i \in 1..(n - Len(tape)) |-> 0]

Walk ==
  /\ work # <<>>
  /\ UNCHANGED <<nodes, dims>>
  /\ CASE Task.op = "item" ->
            /\ Do(Tasks(nodes, Len(tape))) /\ UNCHANGED <<tape, stamp>>
       [] Task.op = "pad" -> /\ tape' = PadTo(Task.to) /\ Do(<<>>) /\ UNCHANGED stamp
       [] Task.op = "copy" ->      \* n more copies, each where the last one ended
            /\ Do(Tasks(Task.sub, Len(tape))
                  \o (IF Task.n > 1 THEN <<[Task EXCEPT !.n = @ - 1]>> ELSE <<>>))
            /\ UNCHANGED <<tape, stamp>>
       [] Task.op = "node" ->
            LET nd == Task.nd at == Task.base + nd.start - 1
            IN IF nd.k = "el"
               THEN /\ tape' = PadTo(at) \o [i \in 1..nd.w |-> 1 + ((stamp + i - 1) % 200)]
                    /\ stamp' = stamp + nd.w /\ Do(<<>>)
               ELSE IF nd.k = "coll"
               THEN /\ Do(Tasks(nd.sub, at) \o <<[op |-> "pad", to |-> at + nd.bytes]>>)
                    /\ tape' = PadTo(at) /\ UNCHANGED stamp
               ELSE /\ Do(<<[op |-> "copy", sub |-> nd.sub, n |-> nd.n]>>)
                    /\ tape' = PadTo(at) /\ UNCHANGED stamp
Next == Walk
Spec == Init /\ [][Next]_vars

Done == work = <<>>
E0 == [dims |-> dims, start |-> 0, file |-> tape]
Written ==
  LET leaves == LeavesSeq(nodes, 0) p == Pitch(nodes)
  IN Flat([i \in 1..HowMany(E0) |->
        Flat([j \in 1..Len(leaves) |-> ItemRaw(E0, leaves[j], p, i)])])
\* reading every element of every item in order gives back the stamps in order
RoundTrip == Done => Written = [i \in 1..stamp |-> 1 + ((i - 1) % 200)]
Size == Done => Len(tape) = HowMany(E0) * Pitch(nodes)
Apart == LET leaves == LeavesSeq(nodes, 0)
         IN (tape = <<>>) => \A i, j \in 1..Len(leaves) :
              i < j => leaves[i].off + leaves[i].w <= leaves[j].off
Emit == (tape = <<>> /\ stamp = 0 /\ Head(work).op = "item") =>
          PrintT("SCN " \o ToJson([nodes |-> nodes, dims |-> dims]))
=============================================================================
