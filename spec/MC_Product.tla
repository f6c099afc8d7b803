----------------------------- MODULE MC_Product -----------------------------
(* Bounded model of a product's life: every operation in every reachable     *)
(* state, for every assignment of faults. Tokens stand for object identity.  *)
EXTENDS Product, Json
CONSTANTS Kinds,      \* set of kind tuples
          Faults,     \* set of fault names
          Debugs,     \* set of BOOLEAN
          Ops, MaxTok
VARIABLES objs, debug, s, out, tick, hist
vars == <<objs, debug, s, out, tick, hist>>

KindsLazy == {<<"image", "table", "desc">>, <<"text", "image", "table">>,
              <<"unsup", "image", "text">>}
KindsPure == {<<"image", "table", "image">>, <<"table", "text", "table">>}
KindsFaulty == {<<"image", "table", "text">>, <<"image", "unsup", "table">>}

NameOf(k, i) == CASE k = "image" -> <<"A_IMAGE", "B_IMAGE", "C_IMAGE">>[i]
                  [] k = "table" -> <<"A_TABLE", "B_TABLE", "C_TABLE">>[i]
                  [] k = "text"  -> <<"A_TEXT", "B_TEXT", "C_TEXT">>[i]
                  [] k = "desc"  -> <<"A_DESC", "B_DESCRIPTION",
                                      "C_DESCRIPTION_0">>[i]
                  [] k = "unsup" -> <<"A_FOO", "B_FOO", "C_FOO">>[i]
Init ==
  /\ \E ks \in Kinds, fs \in [1..3 -> Faults], d \in Debugs :
       /\ objs = [i \in 1..3 |->
            [name |-> NameOf(ks[i], i), k |-> ks[i], fault |-> fs[i],
             kind |-> IF ks[i] = "desc" THEN "text" ELSE ks[i]]]
       /\ \A i \in 1..3 : ks[i] = "unsup" => fs[i] = "none"
       /\ debug = d
  /\ s = Fresh(objs) /\ out = "opened" /\ tick = 1 /\ hist = <<>>

Say(op, i) ==
  /\ hist' = Append(hist, <<op, i>>)
  /\ PrintT("SCN " \o ToJson([objs |-> [j \in 1..3 |->
         [k |-> objs[j].k, fault |-> objs[j].fault, name |-> objs[j].name]],
       debug |-> debug, hist |-> hist']))
Frame == UNCHANGED <<objs, debug>>
Load(i) ==
  /\ s' = LoadOne(s, objs, debug, i, tick)
  /\ out' = Outcome(objs[i], debug)
  /\ tick' = tick + 1
Access(op, i) ==
  /\ op \in Ops /\ Say(op, i) /\ Frame
  /\ IF Held(s, i) THEN out' = s[i].val /\ UNCHANGED <<s, tick>> ELSE Load(i)
Explicit(i) ==
  /\ "load" \in Ops /\ Say("load", i) /\ Frame
  /\ IF Held(s, i) THEN out' = "already" /\ UNCHANGED <<s, tick>> ELSE Load(i)
Reload(i) == "reload" \in Ops /\ Say("reload", i) /\ Frame /\ Load(i)
Delete(i) ==
  /\ "del" \in Ops /\ Say("del", i) /\ Frame
  /\ IF Held(s, i) THEN s' = [s EXCEPT ![i] = Unloaded] /\ out' = "deleted"
     ELSE UNCHANGED s /\ out' = "unheld"
  /\ UNCHANGED tick
Mutate(i) ==
  /\ "mutate" \in Ops /\ s[i].val \in {"data"}
  /\ objs[i].kind \in {"image", "table"}
  /\ Say("mutate", i) /\ Frame
  /\ s' = [s EXCEPT ![i].val = "dirty"] /\ out' = "dirty" /\ UNCHANGED tick
\* a second product opened on the same files does not see any of this
Other(i) ==
  /\ "fresh" \in Ops /\ Say("fresh", i) /\ Frame
  /\ out' = Outcome(objs[i], debug) /\ UNCHANGED <<s, tick>>
Many(op, S) ==
  /\ op \in Ops /\ Say(op, 0) /\ Frame
  /\ LET R == Reached(objs, debug, S)
     IN s' = [i \in 1..3 |-> IF i \in R
                THEN [val |-> Outcome(objs[i], debug), tok |-> tick]
                ELSE s[i]]
  /\ out' = IF Raisers(objs, debug, S) = {} THEN "all" ELSE "raise"
  /\ tick' = tick + 1
Unknown(op) == op \in Ops /\ Say(op, 0) /\ Frame /\ out' = "unknown"
               /\ UNCHANGED <<s, tick>>
\* the world: a missing file appears, a file disappears
Repair(i) ==
  /\ "repair" \in Ops /\ objs[i].fault = "missing"
  /\ Say("repair", i) /\ objs' = [objs EXCEPT ![i].fault = "none"]
  /\ UNCHANGED <<debug, s, tick>> /\ out' = "world"

Next == \/ \E i \in 1..3 :
             \/ \E op \in {"item", "attr", "scaled"} : Access(op, i)
             \/ Explicit(i) \/ Reload(i) \/ Delete(i) \/ Mutate(i)
             \/ Other(i) \/ Repair(i)
        \/ Many("all", Pending(s, objs))
        \/ Many("iter", {i \in 1..3 : ~Held(s, i)})
        \/ \E op \in {"noitem", "noattr", "noload"} : Unknown(op)
Spec == Init /\ [][Next]_vars
View == <<[i \in 1..3 |-> <<objs[i].k, objs[i].fault, s[i].val>>], debug>>

\* ---- properties
\* outside debug mode nothing but misuse is an error
NoHarm == ~debug => out # "raise"
\* a value is that of the object's own file, its definition, or what the
\* caller made of it; never anything else
OwnValue == \A i \in 1..3 :
  s[i].val \in {"no", "dirty", "data", "meta"}
OnlyRaisersStay ==
  out = "all" => \A i \in 1..3 : Held(s, i) \/ Ignored(objs[i].name)
\* an operation that names one object leaves every other one as it is
FrameOK ==
  [][\A i \in 1..3 : (hist' # hist /\ Len(hist') > 0
        /\ hist'[Len(hist')][2] \notin {0, i}) => s'[i] = s[i]]_vars
\* identity is stable while an object stays loaded
StableOK ==
  [][\A i \in 1..3 : (Held(s, i) /\ hist'[Len(hist')][1]
        \in {"item", "attr", "load", "scaled", "all", "iter", "mutate"})
        => s'[i].tok = s[i].tok]_vars
\* whatever the history, loading now gives what loading first would have
LoadPure ==
  [][\A i \in 1..3 : s'[i].tok # s[i].tok /\ s'[i].val # "no"
        => s'[i].val = Outcome(objs[i], debug)]_vars
=============================================================================
