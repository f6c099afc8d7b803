--------------------------- MODULE TableScaling -----------------------------
(* Scaled columns of tables (C30): what a column holds is what is stored     *)
(* times its scaling factor plus its offset, where it has them; columns      *)
(* without them hold what is stored, unchanged in value and type.            *)
(* A number is a pair <<hi, lo>>, hi * 10000 + lo with 0 <= lo < 10000, in   *)
(* units of 1 / (the column's den): TLC has no integers of more than 31 bits.*)
EXTENDS PdrBytes

B == 10000
Pair(n) == <<n \div B, n % B>>
Plus(x, n) == <<x[1] + (x[2] + n) \div B, (x[2] + n) % B>>
Times(x, p) == <<x[1] * p + (x[2] * p) \div B, (x[2] * p) % B>>

\* the number stored as big-endian two's complement or unsigned bytes
Signed(bs) == LET h == IF bs[1] > 127 THEN bs[1] - 256 ELSE bs[1] IN
              IF Len(bs) = 1 THEN h ELSE h * 256 + bs[2]
Number(bs, signed) ==
  CASE Len(bs) < 4 -> Pair(IF signed THEN Signed(bs) ELSE UVal(bs))
    [] OTHER -> LET h == IF signed THEN Signed(Cut(bs, 0, 2)) ELSE UVal(Cut(bs, 0, 2))
                    r == h * 5536 + UVal(Cut(bs, 2, 2)) IN
                <<h * 6 + r \div B, r % B>>

\* c.factor and c.offset are [has, n] with n in units of 1 / c.den
Scaled(c) == c.factor.has \/ c.offset.has
\* the column's value for a stored number x (in units of 1 / c.vden), in
\* units of 1 / (c.vden * c.den)
Value(c, x) ==
  LET y == Times(x, IF c.factor.has THEN c.factor.n ELSE c.den) IN
  IF c.offset.has THEN Plus(y, c.offset.n * c.vden) ELSE y
=============================================================================
