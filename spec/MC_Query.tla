------------------------------ MODULE MC_Query ------------------------------
(* Every pipeline of up to three queries over parameters a, b, c.            *)
EXTENDS Query, Json, TLC
CONSTANTS Orders, Pairs
VARIABLES c, s, log

Par(n, opt) == [n |-> n, opt |-> opt, dflt |-> opt]
Kinds(x, y) == {<<>>, <<Par(x, FALSE)>>, <<Par(x, FALSE), Par(y, FALSE)>>,
                <<Par(y, TRUE)>>}
Check(id, ps, special) ==
  [id |-> id, params |-> ps, special |-> special, value |-> id,
   raises |-> ""]
Fn(id, ps, checks) ==
  [id |-> id, params |-> ps, checks |-> checks, value |-> id,
   raises |-> "", special |-> FALSE, err |-> FALSE]
Others(x) == CASE x = "a" -> <<"b", "c">> [] x = "b" -> <<"c", "a">>
               [] x = "c" -> <<"a", "b">>
Targets == {<<Par("a", FALSE)>>, <<Par("a", FALSE), Par("b", FALSE)>>,
            <<Par("c", FALSE), Par("a", TRUE)>>}
Perms == CASE Orders = 1 -> {<<"a", "b", "c">>}
           [] Orders = 2 -> {<<"a", "b", "c">>, <<"c", "a">>}
           [] OTHER -> {<<"a", "b", "c">>, <<"c", "a">>, <<"c", "b", "a">>,
                        <<"b", "c", "a">>, <<"b", "a">>}
ChecksFor(id) ==
  {<<>>} \cup {<<Check("s" \o id, <<>>, sp)>> : sp \in BOOLEAN}
         \cup IF Pairs THEN {<<Check("s" \o id, <<Par("b", FALSE)>>, FALSE),
                               Check("z" \o id, <<>>, TRUE)>>}
              ELSE {}
Queries(perm) ==
  {[j \in 1..Len(perm) |->
      [name |-> perm[j],
       fn |-> Fn("q" \o perm[j], ps[j], IF j = 1 THEN ch ELSE <<>>)]]
     : ps \in {p \in [1..Len(perm) ->
                        UNION {Kinds(Others(x)[1], Others(x)[2])
                                 : x \in {"a", "b", "c"}}] :
                 \A j \in 1..Len(perm) :
                    p[j] \in Kinds(Others(perm[j])[1], Others(perm[j])[2])},
       ch \in ChecksFor("q" \o perm[1])}
Supplied == {<<>>, <<[n |-> "a", v |-> "A"]>>, <<[n |-> "b", v |-> "B"]>>,
             <<[n |-> "a", v |-> "A"], [n |-> "c", v |-> "C"]>>}
Init ==
  /\ \E perm \in Perms : \E qs \in Queries(perm), t \in Targets,
       sup \in Supplied, tc \in ChecksFor("t") :
       c = [target |-> Fn("t", t, tc), queries |-> qs, supplied |-> sup]
  /\ s = Start0(c)
  /\ log = <<>>
Next ==
  /\ s.end = ""
  /\ log' = Append(log, [id |-> Due(c, s).id, args |-> Args(Due(c, s), s.known)])
  /\ s' = Step(c, s, Due(c, s))
  /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, s, log>>

Calls(id) == {j \in 1..Len(log) : log[j].id = id}
Once == \A j \in 1..Len(c.queries) : Cardinality(Calls(c.queries[j].fn.id)) <= 1
InOrder == \A j, m \in 1..Len(c.queries) :
   j < m => \A x \in Calls(c.queries[j].fn.id), y \in Calls(c.queries[m].fn.id) :
              x < y
SuppliedKept == \A x \in Range(c.supplied) :
   {y \in s.known : y.n = x.n} = {x}
OneValue == \A x, y \in s.known : x.n = y.n => x = y
OnlyAccepted == \A j \in 1..Len(log) : \A x \in log[j].args : x \in s.known
\* a general rule is only consulted after its checks, none of them special
SpecialFirst ==
  \A i \in 1..Last(c) : LET f == FnAt(c, i) IN
    Calls(f.id) # {} =>
      \A k \in 1..Len(f.checks) :
         /\ ~f.checks[k].special
         /\ Calls(f.checks[k].id) # {}
         /\ \A x \in Calls(f.checks[k].id), y \in Calls(f.id) : x < y
Complete == s.end = "ok" => Needs(c) \subseteq Names(s.known)
NoGuess == Missing(c) # {} => log = <<>>
Unneeded == \A j \in 1..Len(c.queries) :
   c.queries[j].name \notin Wanted(c) => Calls(c.queries[j].fn.id) = {}
Emit == (s.end # "") => PrintT("SCN " \o ToJson(c))
=============================================================================
