------------------------------- MODULE Packed -------------------------------
(* Files are read through handles that may be decompressing streams. What a  *)
(* question about a file is answered with depends on its content and on the  *)
(* position of the handle, never on how the file is stored.                  *)
(* Questions: [op |-> "seek", a]      go to byte a                           *)
(*            [op |-> "read", n]      the next n bytes                       *)
(*            [op |-> "rest"]         all bytes from here on                 *)
(*            [op |-> "end"]          go to the end, say how far it is       *)
(*            [op |-> "array", a, w, n]  n elements of w bytes from byte a   *)
(*            [op |-> "head", a, n]   n bytes from byte a, then close        *)
(*            [op |-> "bottom", n]    where the last n bytes start           *)
EXTENDS PdrBytes

SizeOf(c) == Len(c)
Whole(c, a, w, n) == LET have == Len(Cut(c, a, w * n)) IN have - (have % w)
\* [ans |-> answer, pos |-> position afterwards]
Ask(c, pos, q) ==
  CASE q.op = "seek"  -> [ans |-> <<>>, pos |-> q.a]
    [] q.op = "read"  -> [ans |-> Cut(c, pos, q.n), pos |-> Min2(pos + q.n, Len(c))]
    [] q.op = "rest"  -> [ans |-> Cut(c, pos, Len(c)), pos |-> Len(c)]
    [] q.op = "end"   -> [ans |-> <<Len(c)>>, pos |-> Len(c)]
    [] q.op = "array" -> [ans |-> Cut(c, q.a, Whole(c, q.a, q.w, q.n)),
                          pos |-> q.a + Whole(c, q.a, q.w, q.n)]
    [] q.op = "head"  -> [ans |-> Cut(c, q.a, q.n), pos |-> 0]
    [] q.op = "bottom" -> [ans |-> <<Len(c) - q.n>>, pos |-> pos]
RECURSIVE Answers(_, _, _)
Answers(c, pos, qs) ==
  IF qs = <<>> THEN <<>>
  ELSE LET r == Ask(c, pos, Head(qs))
       IN <<r.ans>> \o Answers(c, r.pos, Tail(qs))

PackedClauses(e) ==
  IF e.what = "ops"
  THEN LET want == Answers([i \in 1..e.size |-> i], 0, e.ops)
           bad == {i \in 1..Len(want) : i > Len(e.answers) \/ e.answers[i] # want[i]}
       IN IF bad = {} THEN {}
          ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
               IN {"answer:" \o e.ops[i].op}
  ELSE \* a product read twice: its files as they are, and packed
    Clause("loads-when-plain", e.plain.kind \notin {"exc", "timeout"})
    \cup Clause("depends-on-packing:" \o e.plain.kind, e.plain = e.packed)
=============================================================================
