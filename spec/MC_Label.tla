------------------------------ MODULE MC_Label ------------------------------
(* Bounded exploration of label statement streams and of the lookups on the  *)
(* structures they denote. Every stream of up to MaxLen statements over the  *)
(* keywords and block names, well nested or not, is a behaviour.             *)
EXTENDS Label, Json
CONSTANTS Keys, Blocks, MaxLen, MaxDepth
VARIABLES xs, st
vars == <<xs, st>>

Init == xs = <<>> /\ st = Fresh0
Do(x) == xs' = Append(xs, x) /\ st' = Step(st, x)
\* the n-th statement carries the integer n, so that every value is different
Num == [t |-> "int", x |-> ToString(Len(xs) + 1)]
Next ==
  /\ Len(xs) < MaxLen
  /\ \/ \E k \in Keys : Do([s |-> "kv", k |-> k, v |-> Num])
     \/ /\ Len(st) <= MaxDepth
        /\ \E k \in Blocks : Do([s |-> "open", k |-> k])
     \/ Do([s |-> "close"])
Spec == Init /\ [][Next]_vars

\* the entries that would result if the open blocks were closed now
RECURSIVE CloseAll(_)
CloseAll(s) == IF Len(s) = 1 THEN s[1].e ELSE CloseAll(Step(s, [s |-> "close"]))
RECURSIVE Effective(_, _, _)
\* the stream without closing delimiters that close nothing
Effective(ys, i, d) ==
  IF i > Len(ys) THEN <<>>
  ELSE IF ys[i].s = "close" THEN
         IF d = 0 THEN Effective(ys, i + 1, 0)
         ELSE <<<<"close", "">>>> \o Effective(ys, i + 1, d - 1)
  ELSE <<<<ys[i].s, ys[i].k>>>>
       \o Effective(ys, i + 1, d + IF ys[i].s = "open" THEN 1 ELSE 0)
Pad(n) == [i \in 1..n |-> <<"close", "">>]
Opened == Len(st) - 1

\* nothing is lost, reordered or moved to another level
NothingLost == Flatten(CloseAll(st)) = Effective(xs, 1, 0) \o Pad(Opened)
\* the machine is the fold of its step
IsFold == st = Final(xs)
All == Keys \cup Blocks
\* a keyword is found iff it occurs, and an outermost one hides nested ones
FoundIff == LET es == CloseAll(st)
            IN \A k \in All : (Lookup(es, k) = None) <=> (Count(xs, k) = 0)
Outermost == LET es == CloseAll(st)
             IN \A k \in All : \A i \in 1..Len(es) :
                  (es[i].k = k /\ \A j \in 1..(i - 1) : es[j].k # k)
                    => Lookup(es, k) = es[i].v
Emit == Len(xs) = MaxLen =>
          PrintT("SCN " \o ToJson([xs |-> xs, open |-> Opened]))
=============================================================================
