------------------------------ MODULE MC_Browse -----------------------------
(* Every small array under every option: the renderer of Browse.tla keeps    *)
(* order, fills the range of levels and puts every cell in one place.        *)
EXTENDS Browse, Json
CONSTANTS Values,     \* values of the cells
          Cells,      \* number of cells of flat arrays
          MaxDim      \* longest axis of arrays of several bands
VARIABLES a, o

Clips   == {<<>>, <<0, 0>>, <<0, 20>>, <<30, 10>>}
Colours == {<<>>, <<9>>, <<0, 255, 255>>}
Plain   == [clip |-> <<>>, color |-> <<0, 255, 255>>, band |-> <<>>,
            override |-> FALSE, axis |-> 0, rgb |-> <<>>]

(* contents of flat arrays *)
FlatArrays ==
    [shape : {<<1, Cells>>, <<Cells, 1>>}, k : [1..Cells -> Values],
     st : [1..Cells -> {0, 1}], masked : BOOLEAN, exact : BOOLEAN]
Sound(x) == (~x.masked => \A i \in 1..Len(x.st) : x.st[i] # 1)
            /\ \A i \in 1..Len(x.st) : x.st[i] # 0 => x.k[i] = 0

(* arrangements of bands *)
Dims == {<<b, h, w>> : b \in 1..5, h \in 1..MaxDim, w \in 1..MaxDim}
Banded(s) ==
    LET n == s[1] * s[2] * s[3]
    IN  [shape |-> s, k |-> [i \in 1..n |-> (i * 7) % 31],
         st |-> [i \in 1..n |-> 0], masked |-> FALSE, exact |-> FALSE]
BandOptions(s) ==
    {[Plain EXCEPT !.clip = <<0, 0>>, !.band = b, !.override = v, !.axis = x,
                   !.rgb = g] :
     b \in {<<>>, <<0>>, <<2>>, <<9>>, <<-1>>}, v \in BOOLEAN,
     x \in 0..2, g \in {<<>>, <<2, 0, 1>>}}
Possible(s, p) == p.rgb = <<>> \/ Swapped(s, p.axis)[1] >= 3

Init ==
    \/ /\ a \in {x \in FlatArrays : Sound(x)}
       /\ o \in {[Plain EXCEPT !.clip = c, !.color = m] :
                 c \in Clips, m \in Colours}
    \/ \E s \in Dims :
        /\ a = Banded(s)
        /\ o \in {p \in BandOptions(s) : Possible(s, p)}
Next == UNCHANGED <<a, o>>
Spec == Init /\ [][Next]_<<a, o>>

TheImages == Images(a, o)

(* the specified renderer is accepted by the specification *)
Accepted ==
    \A ims \in TheImages : \A i \in 1..Len(ims) :
        PictureClauses(a, o, ims[i], Picture(a, o, ims[i])) = {}

Flat2 == Len(a.shape) = 2
(* brighter values are not darker, and the ends of the range are reached     *)
Monotone ==
    Flat2 =>
    LET im == Flatland(a)
        p  == Picture(a, o, im)
        d  == p.ch
        L(i) == SampleAt(im, d, p.data, i, 1)
        vs == {i \in 1..Cells : a.st[i] = 0}
    IN  /\ \A i, j \in vs : a.k[i] <= a.k[j] => L(i) <= L(j)
        /\ (Cardinality({a.k[i] : i \in vs}) > 1 /\ o.clip \in {<<>>, <<0, 0>>})
           => \E i, j \in vs : L(i) = 0 /\ L(j) = 255

(* a band is shown whole: every image shows its own cells, each once         *)
Whole ==
    ~Flat2 => \A ims \in TheImages : \A i \in 1..Len(ims) :
        LET im == ims[i] IN
        /\ Range(im.at) \subseteq 1..Len(a.k)
        /\ o.rgb = <<>> => Cardinality(Range(im.at)) = Len(im.at)
BurstAll ==
    (~Flat2 /\ o.band = <<-1>>) => \A ims \in TheImages :
        Len(ims) > 1 => UNION {Range(ims[i].at) : i \in 1..Len(ims)}
                        = 1..Len(a.k)

Emit == PrintT("SCN " \o ToJson([a |-> a, o |-> o]))
=============================================================================
