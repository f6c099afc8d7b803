------------------------------ MODULE MC_Packed -----------------------------
(* A decompressing stream: it can only produce the next piece of the content *)
(* (in chunks of its own size) or start over. Seeking back means starting    *)
(* over and throwing away. It must answer like a plain file (Packed!Ask).    *)
EXTENDS Packed, Json
CONSTANTS MaxSize, MaxOps, Chunk

VARIABLES size, qs, made, buf, at, pos, todo, got, ans, queue
vars == <<size, qs, made, buf, at, pos, todo, got, ans, queue>>
(* made: bytes produced since the last start; buf: produced, not consumed    *)
(* (a suffix of what was made); at: logical position = made - Len(buf);      *)
(* todo: how many bytes the current question still has to skip or take       *)
Content == [i \in 1..size |-> i]

Params == 0..MaxSize
Questions ==
  {[op |-> "seek", a |-> a] : a \in Params} \cup
  {[op |-> "read", n |-> n] : n \in Params} \cup {[op |-> "rest"]} \cup {[op |-> "end"]}
  \cup {[op |-> "array", a |-> a, w |-> w, n |-> n] : a \in Params, w \in {1, 2}, n \in {1, 2}}
  \cup {[op |-> "head", a |-> a, n |-> n] : a \in Params, n \in {1, MaxSize}}
  \cup {[op |-> "bottom", n |-> n] : n \in {1, 2}}
Sane(s, n) ==
  /\ \A i \in 1..Len(s) : "a" \in DOMAIN s[i] => s[i].a <= n
  \* where a handle is after an array is not said; after "head" it is closed
  /\ \A i \in 1..(Len(s) - 1) :
        /\ s[i].op # "head"
        /\ s[i].op = "array" => s[i + 1].op \in {"seek", "array", "head", "end", "bottom"}
  /\ \A i \in 1..(Len(s) - 2) :
        (s[i].op = "array" /\ s[i + 1].op = "bottom") => s[i + 2].op \in {"seek", "array", "head", "end"}

Init ==
  /\ size \in 0..MaxSize
  /\ qs \in {s \in UNION {[1..k -> Questions] : k \in 1..MaxOps} : Sane(s, size)}
  /\ made = 0 /\ buf = <<>> /\ pos = 0 /\ at = 0
  /\ todo = [what |-> "none"] /\ got = <<>> /\ ans = <<>> /\ queue = qs

\* turn the next question into a target position and a number of bytes
Want(q) ==
  CASE q.op = "seek" -> [to |-> q.a, n |-> 0]
    [] q.op = "read" -> [to |-> at, n |-> q.n]
    [] q.op = "rest" -> [to |-> at, n |-> size + 1]
    [] q.op = "end"  -> [to |-> size + 1, n |-> 0]
    [] q.op = "array" -> [to |-> q.a, n |-> q.w * q.n]
    [] q.op = "head" -> [to |-> q.a, n |-> q.n]
    [] q.op = "bottom" -> [to |-> at, n |-> 0]
Start ==
  /\ todo.what = "none" /\ queue # <<>>
  /\ LET w == Want(Head(queue))
     IN IF w.to < at
        THEN /\ made' = 0 /\ buf' = <<>> /\ at' = 0     \* start over
             /\ todo' = [what |-> "skip", n |-> w.to, then |-> w.n]
        ELSE /\ todo' = [what |-> "skip", n |-> w.to - at, then |-> w.n]
             /\ UNCHANGED <<made, buf, at>>
  /\ got' = <<>>
  /\ UNCHANGED <<size, qs, pos, ans, queue>>
Produce ==      \* the next chunk
  /\ todo.what # "none" /\ buf = <<>> /\ made < size
  /\ todo.n > 0
  /\ LET k == Min2(Chunk, size - made)
     IN /\ buf' = [i \in 1..k |-> Content[made + i]] /\ made' = made + k
  /\ UNCHANGED <<size, qs, at, pos, todo, got, ans, queue>>
Consume ==
  /\ todo.what # "none" /\ buf # <<>> /\ todo.n > 0
  /\ LET k == Min2(Len(buf), todo.n)
     IN /\ buf' = SubSeq(buf, k + 1, Len(buf)) /\ at' = at + k
        /\ todo' = [todo EXCEPT !.n = @ - k]
        /\ got' = IF todo.what = "take" THEN got \o SubSeq(buf, 1, k) ELSE got
  /\ UNCHANGED <<size, qs, made, pos, ans, queue>>
Dry == buf = <<>> /\ made = size
Skipped ==
  /\ todo.what = "skip" /\ (todo.n = 0 \/ Dry)
  /\ todo' = [what |-> "take", n |-> todo.then]
  /\ UNCHANGED <<size, qs, made, buf, at, pos, got, ans, queue>>
Answer ==
  /\ todo.what = "take" /\ (todo.n = 0 \/ Dry)
  /\ LET q == Head(queue)
         a == CASE q.op \in {"read", "rest", "head"} -> got
                [] q.op = "array" -> SubSeq(got, 1, Len(got) - (Len(got) % q.w))
                [] q.op = "seek" -> <<>>
                [] q.op = "end" -> <<at>>
                [] q.op = "bottom" -> <<size - q.n>>
     IN ans' = Append(ans, a)
  /\ todo' = [what |-> "none"] /\ queue' = Tail(queue)
  /\ UNCHANGED <<size, qs, made, buf, at, pos, got>>
Next == Start \/ Produce \/ Consume \/ Skipped \/ Answer
Spec == Init /\ [][Next]_vars

Consistent == at = made - Len(buf)
LikeAFile == (queue = <<>> /\ todo.what = "none") => ans = Answers(Content, 0, qs)
Emit == (ans = <<>> /\ todo.what = "none" /\ queue = qs) =>
          PrintT("SCN " \o ToJson([size |-> size, ops |-> qs]))
=============================================================================
