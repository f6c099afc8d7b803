------------------------------ MODULE MC_Table ------------------------------
(* All row layouts that a label author can compose from plain columns,       *)
(* multi-item columns (packed or spaced), repeated containers (one level or  *)
(* nested) and gaps, up to MaxItems items; and a producer that writes the    *)
(* rows byte by byte. Invariants: the cells of Table.tla are pairwise        *)
(* disjoint, inside their row, complete, and carry distinct names.           *)
EXTENDS Table, Json

CONSTANTS MaxItems, Widths2, Reps, Fixes

VARIABLES items, pos, tab,
          nm   \* 1 just after a gap byte
vars == <<items, pos, nm, tab>>

None == [items |-> <<>>, rows |-> 0, rowbytes |-> 0, prefix |-> 0, suffix |-> 0]
Col(name, start, w) ==
  [k |-> "col", name |-> name, type |-> "MSB_UNSIGNED_INTEGER",
   start |-> start, bytes |-> w, reps |-> 0, ib |-> 0, io |-> 0, sub |-> <<>>]
Multi(name, start, n, w, gap) ==
  [k |-> "col", name |-> name, type |-> "MSB_UNSIGNED_INTEGER",
   start |-> start, bytes |-> n * (w + gap) - gap, reps |-> n, ib |-> w,
   io |-> w + gap, sub |-> <<>>]
Con(name, start, sz, n, sub) ==
  [k |-> "con", name |-> name, type |-> "", start |-> start, bytes |-> sz,
   reps |-> n, ib |-> 0, io |-> 0, sub |-> sub]

Names == {"A", "B"}

Init == items = <<>> /\ pos = 1 /\ nm = 0 /\ tab = None
Open == tab = None /\ Len(items) < MaxItems
Gap == /\ Open /\ nm = 0
       /\ pos' = pos + 1 /\ nm' = 1 /\ UNCHANGED <<items, tab>>
AddCol == /\ Open /\ \E w \in Widths2, n \in Names :
               items' = Append(items, Col(n, pos, w)) /\ pos' = pos + w
          /\ nm' = 0 /\ UNCHANGED tab
AddMulti == /\ Open /\ \E w \in Widths2, r \in Reps, g \in {0, 1} :
                LET it == Multi("M", pos, r, w, g)
                IN items' = Append(items, it) /\ pos' = pos + it.bytes
            /\ nm' = 0 /\ UNCHANGED tab
AddCon == /\ Open /\ \E w \in Widths2, r \in Reps, lead \in {0, 1},
                        tail \in {0, 1} :
               LET sub == <<Col("C", 1 + lead, w), Col("D", 1 + lead + w, 1)>>
                   sz == lead + w + 1 + tail
               IN items' = Append(items, Con("K", pos, sz, r, sub))
                  /\ pos' = pos + r * sz
          /\ nm' = 0 /\ UNCHANGED tab
Close == /\ tab = None /\ items # <<>>
         /\ \E p \in Fixes, s \in Fixes, t \in Fixes :
              tab' = [items |-> items, rows |-> 2, rowbytes |-> pos - 1 + t,
                      prefix |-> p, suffix |-> s]
         /\ UNCHANGED <<items, pos, nm>>
Next == Gap \/ AddCol \/ AddMulti \/ AddCon \/ Close
Spec == Init /\ [][Next]_vars

RECURSIVE CountCells(_)
CountCells(its) ==
  SumSeq([i \in 1..Len(its) |->
    IF its[i].k = "con" THEN its[i].reps * CountCells(its[i].sub)
    ELSE IF its[i].reps = 0 THEN 1 ELSE its[i].reps])

Closed == tab # None
Bytes(c) == c.off..(c.off + c.w - 1)
Complete == Closed => Len(Cells(tab)) = CountCells(tab.items)
Disjoint == Closed => LET cs == Cells(tab) IN
  \A i, j \in 1..Len(cs) : i # j => Bytes(cs[i]) \cap Bytes(cs[j]) = {}
Inside == Closed => LET cs == Cells(tab) IN
  \A i \in 1..Len(cs) :
     Bytes(cs[i]) \subseteq tab.prefix..(tab.prefix + tab.rowbytes - 1)
Distinct == Closed => LET cs == Cells(tab) IN
  Cardinality({cs[i].name : i \in 1..Len(cs)}) = Len(cs)
Unchanged == Closed => LET us == Unpack(tab.items, tab.prefix) IN
  \A i \in 1..Len(us) : Occurs(us, us[i].name) = 1
                          => Cells(tab)[i].name = us[i].name
RowsApart == Closed => \A c \in {Cells(tab)[i] : i \in 1..Len(Cells(tab))} :
  c.off + c.w <= Stride(tab)
Emit == Closed => PrintT("SCN " \o ToJson(tab))
=============================================================================
