-------------------------------- MODULE Texts -------------------------------
(* Header, label and text objects: which bytes of which file they are and    *)
(* what is done to them. Text is a sequence of code points.                  *)
EXTENDS PdrBytes

CR == 13
LF == 10
\* every line ending becomes \n
Canon(t) ==
  LET keep == SelectSeq([i \in 1..Len(t) |-> i],
                LAMBDA i : ~(t[i] = LF /\ i > 1 /\ t[i - 1] = CR))
  IN [k \in 1..Len(keep) |-> IF t[keep[k]] = CR THEN LF ELSE t[keep[k]]]

\* where the lines of a file end, counting \n, \r\n and lone \r
LineEnds(t) ==
  SelectSeq([i \in 1..Len(t) |-> i],
    LAMBDA i : t[i] = LF \/ (t[i] = CR /\ ~(i < Len(t) /\ t[i + 1] = LF)))
\* lines a .. b (from 1) with their endings
LinesOf(t, a, b) ==
  LET e == LineEnds(t)
      full == IF t = <<>> THEN e ELSE IF e # <<>> /\ e[Len(e)] = Len(t) THEN e
              ELSE Append(e, Len(t))              \* text after the last ending
      n == Len(full)
      from == IF a <= 1 THEN 1 ELSE IF a - 1 > n THEN Len(t) + 1 ELSE full[a - 1] + 1
      to == IF b > n THEN Len(t) ELSE IF b < 1 THEN 0 ELSE full[b]
  IN SubSeq(t, from, to)

(* lab: [ptr: "file"|"record"|"byte", at, recbytes (0: not stated), stream,  *)
(*  bytes, records, blockrec (0: not stated)]                                *)
RecOf(lab) == IF lab.blockrec # 0 THEN lab.blockrec ELSE lab.recbytes
ByLines(lab) == /\ lab.stream /\ lab.recbytes = 0 /\ lab.bytes = 0
                /\ lab.ptr # "byte"
First(lab, file) ==
  CASE lab.ptr = "file" -> 0
    [] lab.ptr = "byte" -> lab.at - 1
    [] lab.ptr = "record" ->
         IF RecOf(lab) # 0 THEN (lab.at - 1) * RecOf(lab)
         ELSE Len(LinesOf(file, 1, lab.at - 1))
Size(lab) == IF lab.bytes # 0 THEN lab.bytes ELSE lab.records * RecOf(lab)
\* what cannot be located is not loaded (and is reported)
Located(lab) == IF ByLines(lab) THEN lab.records # 0 ELSE Size(lab) # 0
Limit == 80000
HeaderBytes(lab, file) ==
  IF ByLines(lab)
  THEN LET a == IF lab.ptr = "file" THEN 1 ELSE lab.at
       IN LinesOf(file, a, a + lab.records - 1)
  ELSE Cut(file, First(lab, file), Min2(Size(lab), Limit))

(* UTF-8 *)
Continues(b) == b >= 128 /\ b < 192
RECURSIVE FromUtf8(_, _, _)
FromUtf8(b, i, out) ==
  IF i > Len(b) THEN out
  ELSE LET x == b[i]
           k == IF x < 128 THEN 1 ELSE IF x < 224 THEN 2 ELSE IF x < 240 THEN 3 ELSE 4
           y(j) == b[i + j] % 64
           c == CASE k = 1 -> x
                  [] k = 2 -> (x % 32) * 64 + y(1)
                  [] k = 3 -> (x % 16) * 4096 + y(1) * 64 + y(2)
                  [] k = 4 -> (x % 8) * 262144 + y(1) * 4096 + y(2) * 64 + y(3)
       IN FromUtf8(b, i + k, Append(out, c))
ToUtf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64),
         128 + (c % 64)>>

-----------------------------------------------------------------------------
(* e: [what: "header"|"text", file, lab, valid (of a text file: it is        *)
(*  readable at all), warned, obs]                                           *)
TextsClauses(e) ==
  LET o == e.obs
      readable == IF e.what = "header" THEN Located(e.lab) ELSE e.valid
      want == IF e.what = "header"
              THEN LET b == HeaderBytes(e.lab, e.file)
                   \* bytes of a range are one character each; lines are UTF-8
                   IN Canon(IF ByLines(e.lab) THEN FromUtf8(b, 1, <<>>) ELSE b)
              ELSE Canon(FromUtf8(e.file, 1, <<>>))
  IN IF ~readable
     THEN Clause("unreadable-but-given", o.kind # "codes")
          \cup Clause("not-reported", e.warned)
          \cup Clause("raised", o.kind # "exc")
     ELSE IF o.kind # "codes" THEN {"not-text:" \o o.kind}
     ELSE Clause("text", o.codes = want)
          \cup Clause("false-alarm", ~e.warned)
=============================================================================
