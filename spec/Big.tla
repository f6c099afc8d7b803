-------------------------------- MODULE Big ---------------------------------
(* Integers of any size: [s |-> sign, l |-> limbs base 1000, least           *)
(* significant first, no leading zero limb]. Values that are not integers    *)
(* (not a number, infinities, inexact) have signs outside -1..1 and equal    *)
(* nothing but themselves.                                                   *)
EXTENDS Integers, Sequences

RECURSIVE Strip(_)
Strip(l) == IF l = <<>> THEN l
            ELSE IF l[Len(l)] = 0 THEN Strip(SubSeq(l, 1, Len(l) - 1)) ELSE l
Mk(s, l) == LET t == Strip(l) IN IF t = <<>> THEN [s |-> 0, l |-> <<>>]
                                 ELSE [s |-> s, l |-> t]
At(l, i) == IF i <= Len(l) THEN l[i] ELSE 0
MaxN(a, b) == IF a < b THEN b ELSE a

\* limbs with carries (or borrows) resolved; entries may be any integers
RECURSIVE Carry(_, _, _)
Carry(l, i, c) ==
  IF i > Len(l) THEN IF c = 0 THEN <<>> ELSE <<c % 1000>> \o
                                   Carry(l, i, c \div 1000)
  ELSE LET v == l[i] + c IN <<v % 1000>> \o Carry(l, i + 1, v \div 1000)

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0
                  ELSE IF At(a, i) # At(b, i)
                       THEN IF At(a, i) < At(b, i) THEN -1 ELSE 1
                       ELSE CmpAt(a, b, i - 1)
CmpMag(a, b) == CmpAt(a, b, MaxN(Len(a), Len(b)))
AddMag(a, b) == Carry([i \in 1..MaxN(Len(a), Len(b)) |-> At(a, i) + At(b, i)],
                      1, 0)
SubMag(a, b) == Carry([i \in 1..Len(a) |-> At(a, i) - At(b, i)], 1, 0)
IsNum(x) == x.s \in -1..1
Neg(x) == [x EXCEPT !.s = -@]
Add(x, y) ==
  IF x.s = 0 THEN y ELSE IF y.s = 0 THEN x
  ELSE IF x.s = y.s THEN Mk(x.s, AddMag(x.l, y.l))
  ELSE IF CmpMag(x.l, y.l) >= 0 THEN Mk(x.s, SubMag(x.l, y.l))
  ELSE Mk(y.s, SubMag(y.l, x.l))
\* products of limbs stay below 10^6, sums of up to 2000 of them fit TLC's int
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > k THEN 0
                    ELSE At(a, i) * At(b, k + 1 - i) + Conv(a, b, k, i + 1)
Times(x, y) ==
  IF x.s = 0 \/ y.s = 0 THEN [s |-> 0, l |-> <<>>]
  ELSE Mk(x.s * y.s, Carry([k \in 1..(Len(x.l) + Len(y.l) - 1) |->
                              Conv(x.l, y.l, k, 1)], 1, 0))
Cmp(x, y) == IF x.s # y.s THEN IF x.s < y.s THEN -1 ELSE 1
             ELSE x.s * CmpMag(x.l, y.l)
Of(n) == IF n < 0 THEN Mk(-1, Carry(<<-n>>, 1, 0)) ELSE Mk(1, Carry(<<n>>, 1, 0))
=============================================================================
