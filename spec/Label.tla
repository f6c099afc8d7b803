------------------------------- MODULE Label -------------------------------
(* PDS3 labels: what a sequence of statements and the literals in it mean.   *)
(*                                                                           *)
(* A label is a sequence of statements                                       *)
(*    [s |-> "kv", k |-> keyword, v |-> literal]                             *)
(*    [s |-> "open", k |-> block name]     OBJECT = / GROUP = ...            *)
(*    [s |-> "close"]                      END_OBJECT / END_GROUP ...        *)
(*    [s |-> "end"]                        END                               *)
(* and a literal is one of                                                   *)
(*    [t |-> "int" | "real", x |-> text]                                     *)
(*    [t |-> "based", neg |-> BOOLEAN, base |-> b, digits |-> <<d, ...>>]    *)
(*    [t |-> "text", x |-> text]           quoted text, or an unquoted word  *)
(*    [t |-> "seq" | "set", e |-> <<literal, ...>>]                          *)
(*    [t |-> "qty", v |-> literal, u |-> text]                               *)
(* The text layout (line breaks, comments, spacing, delimiter spellings) is  *)
(* not part of it: the meaning must not depend on it.                        *)
EXTENDS PdrBytes

\* ------------------------------------------------------------- numerals ----
Ch(s, i) == SubSeq(s, i, i)
Tl(s) == SubSeq(s, 2, Len(s))
Fr(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE NoLead(_)
NoLead(s) == IF Len(s) > 0 /\ Ch(s, 1) = "0" THEN NoLead(Tl(s)) ELSE s
Signed(s) == Len(s) > 0 /\ Ch(s, 1) \in {"+", "-"}
Body(s) == IF Signed(s) THEN Tl(s) ELSE s
Minus(s) == Len(s) > 0 /\ Ch(s, 1) = "-"

\* the integer a numeral denotes, as its canonical text
IntCanon(s) ==
  LET d == NoLead(Body(s))
  IN IF d = "" THEN "0" ELSE (IF Minus(s) THEN "-" ELSE "") \o d

DigitVal == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3
               [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7
               [] d = "8" -> 8 [] d = "9" -> 9]
RECURSIVE NatVal(_)
NatVal(s) == IF s = "" THEN 0 ELSE NatVal(Fr(s)) * 10 + DigitVal[Ch(s, Len(s))]
IntVal(s) == IF Minus(s) THEN -NatVal(Body(s)) ELSE NatVal(Body(s))

RECURSIVE Find(_, _, _)
Find(s, C, i) == IF i > Len(s) THEN 0
                 ELSE IF Ch(s, i) \in C THEN i ELSE Find(s, C, i + 1)
RECURSIVE NoTrail(_, _)
NoTrail(s, e) == IF Len(s) > 0 /\ Ch(s, Len(s)) = "0"
                 THEN NoTrail(Fr(s), e + 1) ELSE <<s, e>>
\* the real a numeral denotes: sign, significant digits, power of ten
RealCanon(s) ==
  LET b  == Body(s)
      ex == Find(b, {"e", "E"}, 1)
      m  == IF ex = 0 THEN b ELSE SubSeq(b, 1, ex - 1)
      x  == IF ex = 0 THEN 0 ELSE IntVal(SubSeq(b, ex + 1, Len(b)))
      pt == Find(m, {"."}, 1)
      f  == IF pt = 0 THEN "" ELSE SubSeq(m, pt + 1, Len(m))
      i  == IF pt = 0 THEN m ELSE SubSeq(m, 1, pt - 1)
      t  == NoTrail(NoLead(i \o f), x - Len(f))
  IN IF t[1] = "" THEN <<"0", "", 0>>
     ELSE <<IF Minus(s) THEN "-" ELSE "+", t[1], t[2]>>

RECURSIVE BasedVal(_, _)
BasedVal(b, ds) == IF ds = <<>> THEN 0
  ELSE BasedVal(b, SubSeq(ds, 1, Len(ds) - 1)) * b + ds[Len(ds)]

\* --------------------------------------------------------------- values ----
\* does the observed Python value o denote the literal a?
NumText(a) == IF a.t = "based"
              THEN ToString(IF a.neg THEN -BasedVal(a.base, a.digits)
                            ELSE BasedVal(a.base, a.digits))
              ELSE a.x
\* numerically equal elements of a set are one element, of either type
SameNumber(a, o) == /\ a.t \in {"int", "real", "based"}
                    /\ o.t \in {"int", "float"}
                    /\ RealCanon(NumText(a)) = RealCanon(o.v)
RECURSIVE Denotes(_, _)
Denotes(a, o) ==
  CASE a.t = "int" -> o.t = "int" /\ o.v = IntCanon(a.x)
    [] a.t = "real" -> o.t = "float" /\ RealCanon(o.v) = RealCanon(a.x)
    [] a.t = "based" ->
         o.t = "int" /\ o.v = ToString(
           IF a.neg THEN -BasedVal(a.base, a.digits)
           ELSE BasedVal(a.base, a.digits))
    [] a.t = "text" -> o.t = "str" /\ o.v = a.x
    [] a.t = "qty" ->
         /\ o.t = "map" /\ Len(o.v) = 2
         /\ o.v[1][1] = "value" /\ Denotes(a.v, o.v[1][2])
         /\ o.v[2][1] = "units" /\ o.v[2][2].t = "str" /\ o.v[2][2].v = a.u
    [] a.t = "seq" ->
         \* a sequence of one may be presented as its element
         \/ Len(a.e) = 1 /\ Denotes(a.e[1], o)
         \/ /\ o.t = "tuple" /\ Len(o.v) = Len(a.e)
            /\ \A i \in 1..Len(a.e) : Denotes(a.e[i], o.v[i])
    [] a.t = "set" ->
         \/ Len(a.e) = 1 /\ Denotes(a.e[1], o)
         \/ /\ o.t \in {"set", "tuple"}
            /\ o.t = "tuple" => \E i \in 1..Len(a.e) : a.e[i].t \in {"qty", "set"}
            /\ \A i \in 1..Len(a.e) : \E j \in 1..Len(o.v) :
                 Denotes(a.e[i], o.v[j]) \/ SameNumber(a.e[i], o.v[j])
            /\ \A j \in 1..Len(o.v) : \E i \in 1..Len(a.e) :
                 Denotes(a.e[i], o.v[j]) \/ SameNumber(a.e[i], o.v[j])
    [] OTHER -> FALSE

\* ------------------------------------------------------ the parser machine --
\* A state is a stack of frames; a frame is [k |-> block name, e |-> entries];
\* an entry is [k, v] with v a literal or [t |-> "block", e |-> entries].
Fresh0 == <<[k |-> "", e |-> <<>>]>>
Put(st, k, v) == [st EXCEPT ![Len(st)].e = Append(@, [k |-> k, v |-> v])]
Step(st, x) ==
  CASE x.s = "kv" -> Put(st, x.k, x.v)
    [] x.s = "open" -> Append(st, [k |-> x.k, e |-> <<>>])
    \* the END statement also closes a block whose own delimiter is missing
    [] x.s \in {"close", "end"} ->
         IF Len(st) = 1 THEN st
         ELSE Put(SubSeq(st, 1, Len(st) - 1), st[Len(st)].k,
                  [t |-> "block", e |-> st[Len(st)].e])
RECURSIVE Run(_, _, _)
Run(st, xs, i) == IF i > Len(xs) THEN st ELSE Run(Step(st, xs[i]), xs, i + 1)
Final(xs) == Run(Fresh0, xs, 1)
Tree(xs) == Final(xs)[1].e               \* the top level
Complete(xs) == Len(Final(xs)) = 1

RECURSIVE Flatten(_)
\* preorder listing of keys and block boundaries
Flatten(es) ==
  IF es = <<>> THEN <<>>
  ELSE LET h == Head(es)
       IN (IF h.v.t = "block"
           THEN <<<<"open", h.k>>>> \o Flatten(h.v.e) \o <<<<"close", "">>>>
           ELSE <<<<"kv", h.k>>>>) \o Flatten(Tail(es))

\* ------------------------------------------------------------ the lookups --
None == [t |-> "none"]
RECURSIVE Lookup(_, _), InNests(_, _)
Own(es, k) == {i \in 1..Len(es) : es[i].k = k}
Lookup(es, k) ==
  LET O == Own(es, k)
  IN IF O # {} THEN es[CHOOSE i \in O : \A j \in O : i <= j].v
     ELSE InNests(es, k)
InNests(es, k) ==
  IF es = <<>> THEN None
  ELSE LET h == Head(es)
           f == IF h.v.t = "block" THEN Lookup(h.v.e, k) ELSE None
       IN IF f # None THEN f ELSE InNests(Tail(es), k)
\* how many statements of the label carry the keyword
Count(xs, k) == Cardinality({i \in 1..Len(xs) :
  xs[i].s \in {"kv", "open"} /\ xs[i].k = k})

\* --------------------------------------------- comparing with what was read --
RECURSIVE SameTree(_, _)
SameEntry(x, o) ==
  /\ o.k = x.k
  /\ IF x.v.t = "block" THEN o.v.t = "block" /\ SameTree(x.v.e, o.v.e)
     ELSE o.v.t # "block" /\ Denotes(x.v, o.v)
SameTree(es, os) ==
  /\ Len(es) = Len(os)
  /\ \A i \in 1..Len(es) : SameEntry(es[i], os[i])
RECURSIVE SameShape(_, _)
\* structure only: keys, order and nesting
SameShape(es, os) ==
  /\ Len(es) = Len(os)
  /\ \A i \in 1..Len(es) :
       /\ es[i].k = os[i].k
       /\ (es[i].v.t = "block") = (os[i].v.t = "block")
       /\ es[i].v.t = "block" => SameShape(es[i].v.e, os[i].v.e)
SameNode(v, o) == IF v.t = "block" THEN o.t = "block" /\ SameTree(v.e, o.e)
                  ELSE o.t # "block" /\ Denotes(v, o)
=============================================================================
