--------------------------- MODULE Trace_Product ----------------------------
(* Conformance of recorded product lives with Product.tla.                   *)
EXTENDS Product, TraceBase
VARIABLES l, c, s          \* c: the product (objs, debug); s: its state

\* ---- values
Chunk(b, w) == [i \in 1..(Len(b) \div w) |-> SubSeq(b, (i - 1) * w + 1, i * w)]
Filled(n, w) == [i \in 1..n |-> [j \in 1..w |-> 85]]
\* canonical line endings (every CR the harness writes is part of a CRLF)
Canon(b) == SelectSeq(b, LAMBDA x : x # 13)
Elements(o) == Chunk(o.bytes, o.w)
Value(o, v, ob) ==
  IF v = "meta" THEN
    IF o.def = <<>> THEN Clause("definition-none", ob.kind = "none")
    ELSE IF ob.kind # "meta" THEN {"definition-kind"}
    ELSE Clause("definition", ob.items = o.def)
  ELSE IF o.kind = "image" THEN
    IF ob.kind # "array" THEN {"image-kind:" \o ob.kind}
    ELSE Clause("image-dtype", ob.dtype = (IF o.w = 1 THEN "u1" ELSE "u2"))
      \cup Clause("image-shape", ob.shape = o.shape)
      \cup Clause("image-data", ob.data =
             IF v = "dirty" THEN Filled(Len(Elements(o)), o.w) ELSE Elements(o))
  ELSE IF o.kind = "table" THEN
    IF ob.kind # "table" THEN {"table-kind:" \o ob.kind}
    ELSE Clause("table-rows", ob.nrows = Len(Elements(o)))
      \cup Clause("table-cols", Len(ob.cols) = 1 /\ ob.cols[1].name = "A")
      \cup (IF Len(ob.cols) # 1 \/ ob.cols[1].kind # "num" THEN {"table-col"}
            ELSE Clause("table-data", ob.cols[1].data =
                   IF v = "dirty" THEN Filled(Len(Elements(o)), o.w)
                   ELSE Elements(o)))
  ELSE IF ob.kind # "codes" THEN {"text-kind:" \o ob.kind}
       ELSE Clause("text", ob.codes = (IF o.canon THEN Canon(o.bytes)
                                       ELSE o.bytes))

\* ---- operations
Toks(e) == e.toks                  \* name -> token, after the operation
Tok(e, i) == IF HasKey(e.toks, c.objs[i].name) THEN e.toks[c.objs[i].name] ELSE 0
Exc(e) == e.obs.kind = "exc"
ExcIn(e, T) == Exc(e) /\ e.obs.type \in T
NotFound == {"KeyError", "AttributeError"}
Missing == {"FileNotFoundError"}

I == 1..Len(c.objs)
At(e) == Pos(c.objs, e.n)
After(e) ==                         \* the state the specification requires
  LET upd(S) == [i \in I |-> IF i \in S /\ Outcome(c.objs[i], c.debug) # "raise"
                   THEN [val |-> Outcome(c.objs[i], c.debug), tok |-> Tok(e, i)]
                   ELSE s[i]]
      i == At(e)
  IN CASE e.op \in {"item", "attr", "load", "scaled"} ->
            IF Held(s, i) THEN s ELSE upd({i})
       [] e.op = "reload" -> upd({i})
       [] e.op = "del" -> [s EXCEPT ![i] = Unloaded]
       [] e.op = "mutate" -> [s EXCEPT ![i].val = "dirty"]
       [] e.op = "all" -> upd(Reached(c.objs, c.debug, Pending(s, c.objs)))
       [] e.op = "iter" ->
            upd(Reached(c.objs, c.debug, {j \in I : ~Held(s, j)}))
       [] OTHER -> s

\* a load happened: did the product say something when it had to?
Warns(e, S) == Clause("no-warning",
   (\E i \in S : /\ c.objs[i].fault # "none" \/ c.objs[i].kind = "unsup"
                 /\ Outcome(c.objs[i], c.debug) = "meta") => e.warned)
Loads(e) == LET i == At(e)
            IN CASE e.op \in {"item", "attr", "load", "scaled"} ->
                      IF Held(s, i) THEN {} ELSE {i}
                 [] e.op = "reload" -> {i}
                 [] e.op = "all" -> Reached(c.objs, c.debug, Pending(s, c.objs))
                 [] e.op = "iter" -> Reached(c.objs, c.debug,
                                       {j \in I : ~Held(s, j)})
                 [] OTHER -> {}

Result(e, t) ==
  LET i == At(e)
      o == c.objs[i]
      dead == ~Held(s, i) /\ Outcome(o, c.debug) = "raise"
      v == t[i].val
  IN CASE e.op \in {"item", "attr"} ->
            IF dead THEN Clause("debug-raises", ExcIn(e, Missing))
            ELSE IF Exc(e) THEN {"access-raised:" \o e.obs.type}
            ELSE Value(o, v, e.obs)
                 \cup Clause("same-object", e.ret = Tok(e, i))
       [] e.op = "load" ->
            IF Held(s, i) THEN
              Clause("already-loaded", ExcIn(e, {"AlreadyLoadedError"}))
            ELSE IF dead THEN Clause("debug-raises", ExcIn(e, Missing))
            ELSE Clause("load-returned", e.obs.kind = "none")
       [] e.op = "reload" ->
            IF Outcome(o, c.debug) = "raise" THEN
              Clause("debug-raises", ExcIn(e, Missing))
            ELSE Clause("reload-returned", e.obs.kind = "none")
       [] e.op = "scaled" ->
            IF dead THEN Clause("debug-raises", ExcIn(e, Missing))
            ELSE IF o.kind = "image" /\ v # "meta" THEN
              Clause("scaled", e.obs.kind \in {"array", "masked"})
            ELSE Clause("scaled-nonarray", ExcIn(e, {"TypeError"}))
       [] e.op = "del" ->
            IF Held(s, i) THEN Clause("deleted", e.obs.kind = "none")
            ELSE Clause("delete-unheld", Exc(e))
       [] e.op = "mutate" -> {}
       [] e.op = "fresh" ->
            IF Outcome(o, c.debug) = "raise" THEN
              Clause("debug-raises", ExcIn(e, Missing))
            ELSE IF Exc(e) THEN {"fresh-raised:" \o e.obs.type}
            ELSE Value(o, Outcome(o, c.debug), e.obs)
       [] e.op = "all" ->
            IF Raisers(c.objs, c.debug, Pending(s, c.objs)) # {}
            THEN Clause("debug-raises", ExcIn(e, Missing))
            ELSE Clause("all-returned", e.obs.kind = "none")
       [] e.op = "iter" ->
            IF Raisers(c.objs, c.debug, {j \in I : ~Held(s, j)}) # {}
            THEN Clause("debug-raises", ExcIn(e, Missing))
            ELSE Clause("iter-values", e.obs.kind = "toks"
                   /\ e.obs.toks = [j \in I |-> Tok(e, j)])
       [] e.op \in {"noitem", "noattr", "noload"} ->
            Clause("unknown-name", ExcIn(e, NotFound))
       [] e.op = "audit" -> UNION {
            IF Held(s, j)
            THEN {x \o "@" \o c.objs[j].name :
                    x \in Value(c.objs[j], s[j].val, e.held[c.objs[j].name])}
            ELSE {} : j \in I}
       [] OTHER -> {}

Listing(e, t, L) ==
     Clause("index", e.index = Names(c.objs))
     \cup Clause("unloaded", e.unloaded = UnloadedNames(t, c.objs))
     \cup Clause("length", e.len = Len(c.objs))
     \cup Clause("contains", e.has = [j \in I |-> TRUE] /\ ~e.hasno)
     \cup Clause("held", DOMAIN e.toks
            = {c.objs[j].name : j \in {k \in I : Held(t, k)}})
     \cup Clause("files-touched", e.files)
     \* identity: what was held stays the very same object
     \cup UNION {IF t[j].val # "no" /\ j \notin L
                 THEN Clause("identity", Tok(e, j) = t[j].tok) ELSE {}
                 : j \in I}

Verdict(e, t) ==
  IF e.obs.kind = "timeout" THEN {"timeout"}
  ELSE IF e.op = "open" THEN Clause("opens", e.obs.kind = "none")
     \cup (IF e.obs.kind = "none" THEN
             Clause("index", e.index = Names(e.cfg.objs))
             \cup Clause("nothing-loaded", e.unloaded = Names(e.cfg.objs)
                                           /\ DOMAIN e.toks = {})
           ELSE {})
  ELSE LET L == Loads(e) IN Result(e, t) \cup Warns(e, L) \cup Listing(e, t, L)

World(e) == IF e.op = "world"
            THEN [c EXCEPT !.objs[At(e)].fault = e.fault] ELSE c

TraceInit == l = 1 /\ c = [objs |-> <<>>, debug |-> FALSE] /\ s = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ IF Trace[l].op = "open"
     THEN c' = Trace[l].cfg /\ s' = Fresh(Trace[l].cfg.objs)
     ELSE c' = World(Trace[l]) /\ s' = After(Trace[l])
  /\ Report(Trace[l], Verdict(Trace[l], s'))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, c, s>>
AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
