-------------------------------- MODULE Keys --------------------------------
(* The natural order of the values of key types.  Values are                 *)
(*   numbers        [k |-> "n", s |-> sign, m |-> decimal limbs]              *)
(*   numbers whose type is signed and of a fixed size:  k |-> "x"            *)
(*   strings        [k |-> "b", r |-> runs << character or byte, count >>]    *)
(*   tuples, structs [k |-> "t", f |-> fields]                                *)
(*   options, results, enumerations [k |-> "v", d |-> discriminant, f |-> ..] *)
(* `twos' selects the order that numbers of fixed signed types have when the *)
(* negative ones follow the others (known finding signed-order).              *)
EXTENDS Integers, Sequences

\* first index at which the sequences differ, 0 if they don't (up to the shorter one)
RECURSIVE Diff(_, _, _)
Diff(a, b, i) == IF i > Len(a) \/ i > Len(b) THEN 0 ELSE IF a[i] # b[i] THEN i ELSE Diff(a, b, i + 1)

\* magnitudes: without leading zeros
MagLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                 ELSE LET i == Diff(a, b, 1) IN i > 0 /\ a[i] < b[i]
NumLess(a, b) == IF a.s # b.s THEN a.s < b.s
                 ELSE IF a.s = 0 THEN FALSE
                 ELSE IF a.s = 1 THEN MagLess(a.m, b.m) ELSE MagLess(b.m, a.m)
FixedLess(a, b, twos) == IF twos /\ (a.s = -1) # (b.s = -1) THEN b.s = -1 ELSE NumLess(a, b)

\* runs << c, n >>: the next different character after n equal ones
StrLess(a, b) ==
  LET i == Diff(a, b, 1) IN
  IF i = 0 THEN Len(a) < Len(b)
  ELSE IF a[i][1] # b[i][1] THEN a[i][1] < b[i][1]
  ELSE IF a[i][2] < b[i][2]
       THEN IF Len(a) = i THEN TRUE ELSE a[i + 1][1] < b[i][1]
       ELSE IF Len(b) = i THEN FALSE ELSE a[i][1] < b[i + 1][1]
StrPrefix(p, s) ==
  p = << >> \/
  LET n == Len(p) IN
  /\ Len(s) >= n
  /\ \A i \in 1..n - 1 : p[i] = s[i]
  /\ p[n][1] = s[n][1] /\ p[n][2] <= s[n][2]

RECURSIVE Less(_, _, _), SeqLess(_, _, _, _)
SeqLess(a, b, twos, i) ==
  IF i > Len(a) \/ i > Len(b) THEN FALSE
  ELSE IF a[i] = b[i] THEN SeqLess(a, b, twos, i + 1) ELSE Less(a[i], b[i], twos)
Less(a, b, twos) ==
  CASE a.k = "n" -> NumLess(a, b)
    [] a.k = "x" -> FixedLess(a, b, twos)
    [] a.k = "b" -> StrLess(a.r, b.r)
    [] a.k = "t" -> SeqLess(a.f, b.f, twos, 1)
    [] a.k = "v" -> IF a.d # b.d THEN Less(a.d, b.d, twos) ELSE SeqLess(a.f, b.f, twos, 1)

\* whether strings within the value contain zeros
RECURSIVE HasNul(_)
HasNul(v) ==
  CASE v.k \in {"n", "x"} -> FALSE
    [] v.k = "b" -> \E i \in 1..Len(v.r) : v.r[i][1] = 0
    [] v.k \in {"t", "v"} -> \E i \in 1..Len(v.f) : HasNul(v.f[i])
=============================================================================
