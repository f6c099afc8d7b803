-------------------------- MODULE MC_TableScaling ---------------------------
(* Tables of columns of each type with each factor and offset, and stored    *)
(* numbers at the ends of their ranges.                                      *)
EXTENDS TableScaling, Json
CONSTANTS N
VARIABLES cols, ascii, done

Types == {"u1", "i1", "u2", "i2", "u4", "i4", "r4", "r8", "text"}
Of(has, n) == [has |-> has, n |-> n]
\* numbers n / den
Numbers == {<<1, 10>>, <<1, 1000>>, <<1, -3>>, <<4, 1>>, <<4, -6>>, <<100, 10>>,
            <<100, 25>>, <<1, 1>>}
Offsets == {0, 5, -7, 300, -1000}
Plain == [den |-> 1, factor |-> Of(FALSE, 0), offset |-> Of(FALSE, 0)]
Scalings ==
  {Plain}
  \cup {[den |-> f[1], factor |-> Of(TRUE, f[2]), offset |-> Of(FALSE, 0)] : f \in Numbers}
  \cup {[den |-> f[1], factor |-> Of(TRUE, f[2]), offset |-> Of(TRUE, o)] :
          f \in Numbers, o \in Offsets}
  \cup {[den |-> d, factor |-> Of(FALSE, 0), offset |-> Of(TRUE, o)] :
          d \in {1, 4}, o \in Offsets}
Init == cols = <<>> /\ ascii \in {FALSE, TRUE} /\ done = FALSE
Add ==
  /\ ~done /\ Len(cols) < N
  /\ \E t \in IF ascii THEN {"int", "real", "text"} ELSE Types :
     \E s \in IF t = "text" THEN {Plain} ELSE Scalings :
       \* the second column: plain, or scaled in one of two ways
       /\ Len(cols) = 0 \/ s \in {Plain,
            [Plain EXCEPT !.factor = Of(TRUE, 10)],
            [den |-> 4, factor |-> Of(TRUE, 2), offset |-> Of(TRUE, 3)]}
       /\ cols' = Append(cols, s @@ [type |-> t])
  /\ UNCHANGED <<ascii, done>>
Finish == ~done /\ cols # <<>> /\ done' = TRUE /\ UNCHANGED <<cols, ascii>>
Next == Add \/ Finish
Spec == Init /\ [][Next]_<<cols, ascii, done>>

Corners == {<<0, 0>>, <<0, 1>>, <<0, 255>>, <<-1, 9999>>, <<3, 2767>>,
            <<-4, 7232>>, <<6, 5535>>, <<214748, 3647>>, <<-214749, 6352>>,
            <<429496, 7295>>}
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
WithV(c) == c @@ [vden |-> 1]
Proper == \A i \in 1..Len(cols) : \A x \in Corners :
  LET v == Value(WithV(cols[i]), x) IN v[2] \in 0..(B - 1)
\* positive factors keep the order, negative ones reverse it
Order == \A i \in 1..Len(cols) : \A x, y \in Corners :
  LET c == WithV(cols[i]) IN
  Less(x, y) => IF c.factor.has /\ c.factor.n < 0
                THEN Less(Value(c, y), Value(c, x))
                ELSE Less(Value(c, x), Value(c, y))
Identity == \A i \in 1..Len(cols) :
  ~Scaled(cols[i]) => \A x \in Corners : Value(WithV(cols[i]), x) = x
Bytes == /\ Number(<<255, 255, 255, 255>>, FALSE) = <<429496, 7295>>
         /\ Number(<<128, 0, 0, 0>>, TRUE) = <<-214749, 6352>>
         /\ Number(<<127, 255, 255, 255>>, TRUE) = <<214748, 3647>>
         /\ Number(<<255, 254>>, TRUE) = <<-1, 9998>>
         /\ Number(<<200>>, FALSE) = <<0, 200>>
Emit == done => PrintT("SCN " \o ToJson([cols |-> cols, ascii |-> ascii]))
=============================================================================
