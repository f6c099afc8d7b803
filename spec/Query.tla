------------------------------- MODULE Query --------------------------------
(* Resolution of loader parameters (C27).                                    *)
(* A pipeline c has a target function, an ordered list of queries (each      *)
(* fills in the parameter it is named after) and parameters supplied by the  *)
(* caller.  A function has an id, parameters [n, opt, dflt] (name, declared  *)
(* optional, has a default), special-case checks consulted in turn before    *)
(* it, the value it returns, whether it raises an error, and whether errors  *)
(* are turned into a value (err).  A state s of a run is the number i of the *)
(* next query (one past the last: the target), the number k of the next      *)
(* special-case check, the known parameters, the outcomes of checks so far,  *)
(* and the end reached.                                                      *)
EXTENDS PdrBytes

Names(known) == {x.n : x \in known}
ParamsOf(f) == Range(f.params) \cup
               UNION {Range(f.checks[j].params) : j \in 1..Len(f.checks)}
\* parameters some function of the pipeline insists on
Needs(c) ==
  {p.n : p \in {q \in ParamsOf(c.target) \cup
                     UNION {ParamsOf(c.queries[j].fn) : j \in 1..Len(c.queries)}
                  : ~q.opt}} \ {"_", "__"}
QueryNames(c) == {c.queries[j].name : j \in 1..Len(c.queries)}
Wanted(c) == Needs(c) \ Names(Range(c.supplied))
Missing(c) == Wanted(c) \ QueryNames(c)
\* queries that run, in order
Runs(c, j) == c.queries[j].name \in Wanted(c)

FnAt(c, i) == IF i <= Len(c.queries) THEN c.queries[i].fn ELSE c.target
Last(c) == Len(c.queries) + 1
RECURSIVE Skip(_, _)
Skip(c, i) ==
  IF i <= Len(c.queries) /\ ~Runs(c, i) THEN Skip(c, i + 1) ELSE i

Begin(c) ==
  [i |-> IF Missing(c) = {} THEN Skip(c, 1) ELSE 0, k |-> 1,
   known |-> Range(c.supplied), seen |-> <<>>,
   end |-> IF Missing(c) = {} THEN "" ELSE "TypeError", value |-> ""]

\* the function (check or general rule) to be called next
Due(c, s) == LET f == FnAt(c, s.i) IN
             IF s.k <= Len(f.checks) THEN f.checks[s.k] ELSE f
Args(f, known) == {x \in known : \E j \in 1..Len(f.params) :
                                   f.params[j].n = x.n}
Able(f, known) == \A j \in 1..Len(f.params) :
                     f.params[j].dflt \/ f.params[j].n \in Names(known)

\* the parameter (or result) of step i is now known to be v
Finish(c, s, v) ==
  IF s.i = Last(c) THEN [s EXCEPT !.end = "ok", !.value = v]
  ELSE [s EXCEPT !.i = Skip(c, s.i + 1), !.k = 1,
                 !.known = @ \cup {[n |-> c.queries[s.i].name, v |-> v]}]
Fail(c, s, error) ==
  IF FnAt(c, s.i).err THEN Finish(c, s, "error")
  ELSE [s EXCEPT !.end = error]
\* the state after the due function was called and did r: raised the named
\* error, or returned a value (a check: together with whether it applies)
Called(c, s, r) ==
  IF r.raises # "" THEN Fail(c, s, r.raises)
  ELSE IF s.k > Len(FnAt(c, s.i).checks) THEN Finish(c, s, r.value)
  ELSE LET t == [s EXCEPT !.seen = Append(@, [id |-> Due(c, s).id,
                                              special |-> r.special])] IN
       IF r.special THEN Finish(c, t, r.value) ELSE [t EXCEPT !.k = @ + 1]
\* functions that cannot be called for want of a parameter fail uncalled
RECURSIVE Settle(_, _)
Settle(c, s) ==
  IF s.end = "" /\ ~Able(Due(c, s), s.known)
  THEN Settle(c, Fail(c, s, "TypeError")) ELSE s
Start0(c) == Settle(c, Begin(c))
Step(c, s, r) == Settle(c, Called(c, s, r))
\* queries a tracked run has recorded by the time query i is called
Tracked(c, top) ==
  [j \in 1..Len(SelectSeq([m \in 1..Len(c.queries) |-> m],
                          LAMBDA m : Runs(c, m) /\ m <= top)) |->
     c.queries[SelectSeq([m \in 1..Len(c.queries) |-> m],
                         LAMBDA m : Runs(c, m) /\ m <= top)[j]].fn.id]
=============================================================================
