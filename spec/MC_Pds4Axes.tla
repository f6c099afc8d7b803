----------------------------- MODULE MC_Pds4Axes ----------------------------
(* A writer of arrays that turns an odometer whose fastest wheel is the axis *)
(* with the largest sequence number, axes being described in any order.      *)
EXTENDS Pds4, Json
CONSTANTS MaxAxes, MaxN
Perms(k) == {p \in [1..k -> 1..k] : \A i, j \in 1..k : i # j => p[i] # p[j]}
VARIABLES axes, wheel, cells, over
vars == <<axes, wheel, cells, over>>
K == Len(axes)
N(q) == axes[AxisOf(axes, q)].n
Init == /\ \E k \in 1..MaxAxes : \E p \in Perms(k), n \in [1..k -> 1..MaxN] :
              /\ axes = [i \in 1..k |-> [n |-> n[i], seq |-> p[i]]]
              /\ wheel = [q \in 1..k |-> 0]
        /\ cells = <<>> /\ over = FALSE
RECURSIVE Turn(_, _)
Turn(w, q) == IF q = 0 THEN w
              ELSE IF w[q] + 1 < N(q) THEN [w EXCEPT ![q] = @ + 1]
              ELSE Turn([w EXCEPT ![q] = 0], q - 1)
Next == /\ ~over
        /\ cells' = Append(cells, wheel)
        /\ wheel' = Turn(wheel, K)
        /\ over' = (wheel' = [q \in 1..K |-> 0])
        /\ UNCHANGED axes
Spec == Init /\ [][Next]_vars
\* the cell at index <<i1, ..., ik>> is the one the shape says
RECURSIVE At(_, _, _)
At(shape, w, q) == IF q = 0 THEN 0 ELSE At(shape, w, q - 1) * shape[q] + w[q]
RoundTrip == over => /\ Len(cells) = ProdSeq(Shape4(axes))
                     /\ \A i \in 1..Len(cells) : At(Shape4(axes), cells[i], K) = i - 1
Emit == (cells = <<>>) => PrintT("SCN " \o ToJson([axes |-> axes]))
=============================================================================
