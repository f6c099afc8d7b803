------------------------------ MODULE MC_Edits ------------------------------
(* Bounded model of editing sessions, in the terms of an implementation that *)
(* remembers the answers to lookups and copies some keywords: whatever it    *)
(* remembers, after an announcement every lookup and load sees the edits.    *)
EXTENDS Edits, TLC, Json, FiniteSets
CONSTANTS MaxEdits, MaxOps
VARIABLES tree, since, memo, copy, held, hist, out
vars == <<tree, since, memo, copy, held, hist, out>>

int(n) == [t |-> "int", x |-> ToString(n)]
blk(es) == [t |-> "block", e |-> es]
Objs == {"A", "B"}
Keys == {"R", "L", "A"}
Tree0 == <<[k |-> "R", v |-> int(1)],
           [k |-> "A", v |-> blk(<<[k |-> "L", v |-> int(1)]>>)],
           [k |-> "B", v |-> blk(<<[k |-> "L", v |-> int(1)]>>)]>>
\* a load reads R at top level (copied at the announcement) and its block
Interp(t, r, o) == <<r, IF Has(BlockOf(t, o), "L")
                        THEN FirstOf(BlockOf(t, o), "L").x ELSE "-">>
Unknown == [t |-> "unknown"]
R(t) == IF Has(t, "R") THEN FirstOf(t, "R").x ELSE "-"
Init == /\ tree = Tree0 /\ since = {Tree0} /\ memo = [k \in Keys |-> Unknown]
        /\ copy = R(Tree0) /\ held = [o \in Objs |-> <<>>] /\ hist = <<>>
        /\ out = [op |-> "open"]
Say(op, n, a) == /\ Len(hist) < MaxOps
                 /\ hist' = Append(hist, <<op, n, a>>)
Edits == Cardinality({i \in 1..Len(hist) : hist[i][1] = "edit"})
\* blocks are reached through references, so edits of them show at once
PosOf(n) == CHOOSE i \in 1..Len(tree) : tree[i].k = n
Edit(n, k, x, a) ==
  /\ Edits < MaxEdits /\ Say("edit", n, a)
  /\ tree' = EditAt(tree, IF n = "" THEN <<>> ELSE <<PosOf(n)>>, x)
  /\ since' = since \cup {tree'}
  /\ memo' = [j \in Keys |-> IF memo[j].t = "block" /\ j = n
                                /\ memo[j] = FirstOf(tree, n)
                THEN FirstOf(tree', n) ELSE memo[j]]
  /\ out' = [op |-> "edit"] /\ UNCHANGED <<copy, held>>
AnyEdit ==
  \/ \E n \in Objs, v \in 2..3 :
       Edit(n, "L", [how |-> "set", k |-> "L", v |-> int(v)], "set")
  \/ \E n \in Objs : Edit(n, "L", [how |-> "del", k |-> "L"], "del")
  \/ \E n \in {"A"} : Edit(n, "L", [how |-> "add", k |-> "L", v |-> int(3)], "add")
  \/ Edit("", "R", [how |-> "set", k |-> "R", v |-> int(2)], "set")
  \/ \E n \in {"A"} :
       Edit("", n, [how |-> "set", k |-> n,
                    v |-> blk(<<[k |-> "L", v |-> int(4)]>>)], "swap")
  \/ Edit("", "L", [how |-> "set", k |-> "L", v |-> int(3)], "new")
Announce == /\ Say("announce", "", "") /\ since' = {tree} /\ copy' = R(tree)
            /\ memo' = [k \in Keys |-> Unknown]
            /\ out' = [op |-> "announce"] /\ UNCHANGED <<tree, held>>
Ask(k) == /\ Say("get", k, "")
          /\ LET v == IF memo[k].t # "unknown" THEN memo[k] ELSE Lookup(tree, k)
             IN out' = [op |-> "get", k |-> k, v |-> v]
                /\ memo' = [memo EXCEPT ![k] = v]
          /\ UNCHANGED <<tree, since, copy, held>>
Load(o) == /\ Say("reload", o, "")
           /\ held' = [held EXCEPT ![o] = Interp(tree, copy, o)]
           /\ out' = [op |-> "reload", o |-> o]
           /\ UNCHANGED <<tree, since, memo, copy>>
Item(o) == /\ Say("item", o, "")
           /\ held' = [held EXCEPT ![o] = IF @ # <<>> THEN @
                                          ELSE Interp(tree, copy, o)]
           /\ out' = [op |-> "item", o |-> o]
           /\ UNCHANGED <<tree, since, memo, copy>>
Next == \/ AnyEdit \/ Announce
        \/ \E k \in Keys : Ask(k)
        \/ \E o \in Objs : Load(o) \/ Item(o)
Spec == Init /\ [][Next]_vars
\* ---- properties
\* a lookup is answered from a tree there has been since the announcement
LookupOK == out.op = "get" => \E t \in since : Lookup(t, out.k) = out.v
\* with nothing unannounced, a load is the present definition's
Cold == since = {tree}
LoadOK == (out.op = "reload" /\ Cold)
            => held[out.o] = Interp(tree, R(tree), out.o)
\* what is held changes only by loading it
HeldOK == [][\A o \in Objs : held'[o] # held[o] =>
              out'.op \in {"reload", "item"} /\ out'.o = o]_vars
\* an edit of one object's block leaves the other's definition alone
OthersOK == [][(hist' # hist /\ hist'[Len(hist')][1] = "edit"
                /\ (hist'[Len(hist')][2] = "A" \/ hist'[Len(hist')][3] = "swap"))
               => BlockOf(tree', "B") = BlockOf(tree, "B")]_vars
View == <<tree, since, memo, copy, held, out, Edits, Len(hist)>>
Emit == (hist # <<>> /\ hist[Len(hist)][1] \in {"reload", "get", "item"}) =>
  PrintT("SCN " \o ToJson([hist |-> hist]))
=============================================================================
