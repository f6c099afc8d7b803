------------------------------- MODULE MC_Dump ------------------------------
(* Every short session of loading, dropping and dumping objects of every     *)
(* kind.                                                                     *)
EXTENDS Dump, Json
CONSTANTS MaxOps, Kinds
VARIABLES p, s, h, touched

Pic == [shape |-> <<2, 2>>, k |-> <<1, 2, 3, 4>>, st |-> <<0, 0, 0, 0>>,
        masked |-> FALSE, exact |-> FALSE]
Cube == [Pic EXCEPT !.shape = <<2, 1, 2>>]
Thing(n, k) == [name |-> n, kind |-> k, brings |-> <<>>,
                a |-> IF n = "B" THEN Cube ELSE Pic, content |-> ""]
Products == {[objects |-> << Thing("A", k), Thing("B", m) >>, base |-> "x",
              fits |-> f] : k \in Kinds, m \in Kinds, f \in BOOLEAN}
Dumps == {[op |-> "dump", o |->
           [scaled |-> sc, purge |-> pu, prefix |-> pf, dir |-> d,
            format |-> "png", clip |-> <<>>, color |-> <<0, 255, 255>>,
            band |-> b, override |-> FALSE, axis |-> 0, rgb |-> <<>>]] :
          sc \in {"true", "false", "both"}, pu \in BOOLEAN,
          pf \in {"", "q"}, d \in {1, 2}, b \in {<<>>, <<-1>>}}
Plain(o) == o.prefix = "" /\ o.dir = 1
Steps(n) == {[op |-> x, name |-> n] : x \in {"load", "drop"}}

Init == /\ p \in Products /\ s = Opened(p, {"A"}) /\ h = <<>>
        /\ touched = {"A"}
Next ==
    /\ Len(h) < MaxOps
    /\ \E op \in Dumps \cup Steps("A") \cup Steps("B") :
        /\ op.op = "load" => op.name \notin s.loaded
        /\ op.op = "drop" => op.name \in s.loaded
        \* a second dump tells the most when it goes where the first went
        /\ (op.op = "dump" /\ ~Plain(op.o)) =>
              \E i \in 1..Len(h) : h[i].op = "dump"
        /\ h' = Append(h, op)
        /\ s' = After1(p, s, op)
        /\ touched' = IF op.op = "load" THEN touched \cup {op.name}
                      ELSE touched
        /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, s, h, touched>>

Last == h[Len(h)]
Dumped == h # <<>> /\ Last.op = "dump"

(* everything that is loaded and not lost is in some file *)
EachHasFile ==
    Dumped => LET before == IF Last.o.purge THEN {} ELSE s.loaded
              IN  \A n \in before :
                    Object(p, n).kind = "nothing"
                    \/ \E f \in FilesOf(p, Object(p, n), Last.o) :
                           <<f[1], f[2]>> \in s.disk
Released == (Dumped /\ Last.o.purge) => s.loaded = {}
(* files of different objects, variants and bands do not collide *)
Apart == \A d \in {x.o : x \in Dumps} :
            LET w == Written(p, Names(p), d)
            IN  \A f, g \in w : (f[1] = g[1] /\ f[2] = g[2]) => f = g
OnlyTouched == \A f \in s.disk : \E n \in touched, d \in {x.o : x \in Dumps} :
    \E g \in FilesOf(p, Object(p, n), d) : <<g[1], g[2]>> = f
KeepsDisk == [][s.disk \subseteq s'.disk]_<<p, s, h, touched>>

Emit == (Len(h) = MaxOps) =>
    PrintT("SCN " \o ToJson([kinds |-> << p.objects[1].kind,
                                          p.objects[2].kind >>,
                             fits |-> p.fits, h |-> h]))
=============================================================================
