----------------------------- MODULE Trace_Edits ----------------------------
(* Conformance of recorded editing sessions with Edits.tla.                  *)
EXTENDS Edits, TraceBase
(* l: position; c: the product (objs, file); since: the trees there have     *)
(* been since the last announcement, the last one being the present one;     *)
(* told: keys counted at that announcement; hot: objects with unannounced    *)
(* edits; s: what each object holds                                          *)
VARIABLES l, c, since, hot, s
vars == <<l, c, since, hot, s>>

Now == since[Len(since)]
Then == since[1]
I == 1..Len(c.objs)
Pos(n) == CHOOSE i \in I : c.objs[i].name = n
No == [kind |-> "no"]

Loaded(i) == IF c.objs[i].name \in hot THEN Unclear
             ELSE ValueOf(Now, c.objs[i], c.file)
After(e) ==
  CASE e.op = "item" -> IF s[Pos(e.n)].kind # "no" THEN s
                        ELSE [s EXCEPT ![Pos(e.n)] = Loaded(Pos(e.n))]
    [] e.op = "scaled" -> IF s[Pos(e.n)].kind # "no" THEN s
                        ELSE [s EXCEPT ![Pos(e.n)] = Loaded(Pos(e.n))]
    [] e.op = "reload" -> [s EXCEPT ![Pos(e.n)] = Loaded(Pos(e.n))]
    [] e.op = "del" -> [s EXCEPT ![Pos(e.n)] = No]
    [] OTHER -> s

SameValue(v, o) ==
  CASE v.kind = "unclear" -> {}
    [] v.kind # o.kind -> {"kind:" \o o.kind}
    [] v.kind = "image" ->
         Clause("shape", o.shape = v.shape)
         \cup Clause("width", o.w = v.w)
         \cup Clause("samples", o.data = v.data)
    [] v.kind = "table" ->
         Clause("rows", o.rows = v.rows)
         \cup Clause("columns", o.cols = v.cols)
    [] v.kind = "text" -> Clause("text", o.codes = v.codes)

\* a lookup of k is answered from one of the trees since the announcement
Answers(t, e) ==
  LET n == Lookup(t, e.k)
  IN IF n = None THEN (IF e.op = "block" THEN e.obs.t = "none" ELSE e.isdef)
     ELSE IF e.op = "block"
     THEN IF n.t = "block" THEN SameNode(n, e.obs)
          ELSE e.obs.t = "block" \/ e.obs.t = "map"
     ELSE SameNode(n, e.obs)
LookedUp(e) ==
  IF e.obs.t = "exc" THEN {"lookup-raised:" \o e.obs.v}
  ELSE Clause("lookup", \E i \in 1..Len(since) : Answers(since[i], e))
       \cup Clause("ambiguity-warning",
              e.warned = (e.loud /\ Occurrences(Then, e.k) > 1))

Verdict(e, t) ==
  IF e.obs.t = "timeout" THEN {"timeout"}
  ELSE CASE e.op = "open" -> Clause("opens", e.obs.t = "none")
    [] e.op \in {"get", "block"} -> LookedUp(e)
    [] e.op \in {"edit", "announce", "del"} ->
         Clause("raised", e.obs.t = "none")
    [] e.op = "item" -> SameValue(t[Pos(e.n)], e.obs)
    [] e.op = "reload" ->
         IF t[Pos(e.n)].kind = "unclear" THEN {}
         ELSE Clause("reload-raised", e.obs.t = "none")
    [] e.op = "scaled" ->
         LET v == t[Pos(e.n)]
         IN IF v.kind = "unclear" \/ c.objs[Pos(e.n)].name \in hot THEN {}
            ELSE IF e.obs.kind # "image" THEN {"scaled-kind:" \o e.obs.kind}
            ELSE LET w == Scaled(Now, c.objs[Pos(e.n)], v)
                 IN Clause("scaled-shape", e.obs.shape = w.shape)
                    \cup Clause("scaled", e.obs.data = w.data)
    [] e.op = "audit" -> UNION {
         IF t[i].kind \in {"no", "unclear"} THEN {}
         ELSE {x \o "@" \o c.objs[i].name :
                 x \in SameValue(t[i], e.held[c.objs[i].name])} : i \in I}

TraceInit == /\ l = 1 /\ c = [objs |-> <<>>, file |-> <<>>]
             /\ since = <<<<>>>> /\ hot = {} /\ s = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l]
     IN IF e.op = "open"
        THEN /\ c' = [objs |-> e.objs, file |-> e.file] /\ since' = <<e.tree>>
             /\ hot' = {} /\ s' = [i \in 1..Len(e.objs) |-> No]
        ELSE /\ c' = c /\ s' = After(e)
             /\ CASE e.op = "edit" ->
                       /\ since' = Append(since, EditAt(Now, e.path, e.x))
                       /\ hot' = hot \cup {n \in {c.objs[i].name : i \in I} :
                                             Bears(Now, e.path, n)}
                  [] e.op = "announce" -> since' = <<Now>> /\ hot' = {}
                  [] OTHER -> UNCHANGED <<since, hot>>
  /\ Report(Trace[l], Verdict(Trace[l], s'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
