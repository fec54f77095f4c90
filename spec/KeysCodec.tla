----------------------------- MODULE KeysCodec ------------------------------
(* How composite keys (tuples, derived keys) are encoded as bytes, and back. *)
(* Every value of every shape within the bounds is encoded; a pair of values *)
(* is a state.  Fields are                                                   *)
(*   "f"  one byte          "of" an optional byte (two bytes)                *)
(*   "s"  a string          "os" an optional string (variable length)        *)
(* Variable lengths are noted behind the fields, the last field's first, as  *)
(* digits of which all but the first carry a mark (B here, 128 in the code). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxFields, MaxLen, Bytes, Kinds, B,
  Term,    \* strings are followed by a zero
  Pad,     \* a missing optional byte takes as much room as one that isn't
  Escape,  \* zeros within strings are doubled
  Behind,  \* lengths follow the fields
  Marks    \* the digits of lengths are marked
VARIABLES shape, a, b
NONE == -1
SOME == -2

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Strings == Seqs(Bytes, MaxLen)
Vals(k) == CASE k = "f" -> {<< x >> : x \in Bytes}
             [] k = "s" -> Strings
             [] k = "of" -> {<< NONE >>} \cup {<< SOME, << x >> >> : x \in Bytes}
             [] k = "os" -> {<< NONE >>} \cup {<< SOME, s >> : s \in Strings}
Variable(k) == k \in {"s", "os"}

Flat(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN << >> ELSE F[i - 1] \o ss[i] IN F[Len(ss)]
Double(s) == IF Escape THEN Flat([i \in 1..Len(s) |-> IF s[i] = 0 THEN << 0, 0 >> ELSE << s[i] >>]) ELSE s
RECURSIVE Undouble(_)
Undouble(s) == IF ~Escape \/ s = << >> THEN s
               ELSE IF s[1] = 0 THEN << 0 >> \o Undouble(SubSeq(s, 3, Len(s)))
               ELSE << s[1] >> \o Undouble(Tail(s))

Plain(k, v) == CASE k \in {"f", "s"} -> v
                 [] OTHER -> IF v[1] = NONE THEN << 0 >> ELSE << 1 >> \o v[2]
\* the mark distinguishes a digit that has others before it
Mark(d) == IF Marks THEN d + B ELSE d
Length(n) == IF n < B THEN << n >>
             ELSE IF n < B * B THEN << n \div B, Mark(n % B) >>
             ELSE << n \div (B * B), Mark((n \div B) % B), Mark(n % B) >>
Body(k, v) == LET p == Plain(k, v) IN
              IF Variable(k) THEN Double(p)
              ELSE IF k = "of" /\ Pad /\ Len(p) = 1 THEN p \o << 0 >> ELSE p
Field(k, v) == IF ~Variable(k) THEN Body(k, v)
               ELSE (IF Behind THEN << >> ELSE Length(Len(Body(k, v)))) \o Body(k, v) \o (IF Term THEN << 0 >> ELSE << >>)
Encode(sh, v) ==
  LET fields == Flat([i \in 1..Len(sh) |-> Field(sh[i], v[i])])
      vars == SelectSeq([i \in 1..Len(sh) |-> Len(sh) + 1 - i], LAMBDA i : Variable(sh[i]))
      lens == Flat([j \in 1..Len(vars) |-> Length(Len(Body(sh[vars[j]], v[vars[j]])))])
  IN fields \o (IF Behind THEN lens ELSE << >>)

(* Decoding takes fields from the front and lengths from the back. *)
Unplain(k, p) == CASE k \in {"f", "s"} -> p
                   [] OTHER -> IF p = << >> \/ p[1] = 0 THEN << NONE >> ELSE << SOME, Tail(p) >>
\* << value, bytes used >> of the length that ends at e
TakeLength(y, e) ==
  IF y[e] < B THEN << y[e], 1 >>
  ELSE IF e > 1 /\ y[e - 1] < B THEN << y[e - 1] * B + y[e] - B, 2 >>
  ELSE IF e > 2 THEN << (y[e - 2] * B + y[e - 1] - B) * B + y[e] - B, 3 >> ELSE << 0, 1 >>
HeadLength(y, o) == IF y[o] < B THEN << y[o], 1 >> ELSE << 0, 1 >>
RECURSIVE Decode(_, _, _, _)
Decode(sh, y, o, e) ==
  IF sh = << >> THEN IF o = e + 1 THEN << >> ELSE << << -9 >> >>
  ELSE LET k == Head(sh) IN
    IF ~Variable(k)
    THEN LET n == IF k = "f" THEN 1 ELSE 2 IN
         IF o + n - 1 > e THEN << << -9 >> >>
         ELSE << Unplain(k, SubSeq(y, o, o + n - 1)) >> \o Decode(Tail(sh), y, o + n, e)
    ELSE IF e < o THEN << << -9 >> >>
    ELSE LET l == IF Behind THEN TakeLength(y, e) ELSE HeadLength(y, o)
             s == IF Behind THEN o ELSE o + l[2]
             e2 == IF Behind THEN e - l[2] ELSE e
             n == l[1]
         IN IF s + n - 1 > e2 THEN << << -9 >> >>
            ELSE << Unplain(k, Undouble(SubSeq(y, s, s + n - 1))) >>
                 \o Decode(Tail(sh), y, s + n + (IF Term THEN 1 ELSE 0), e2)

(* The natural order. *)
RECURSIVE LexLess(_, _)
LexLess(p, q) == IF q = << >> THEN FALSE ELSE IF p = << >> THEN TRUE
                 ELSE IF p[1] # q[1] THEN p[1] < q[1] ELSE LexLess(Tail(p), Tail(q))
ValLess(k, v, w) ==
  IF k \in {"f", "s"} THEN LexLess(v, w)
  ELSE IF v[1] = NONE THEN w[1] # NONE
  ELSE w[1] # NONE /\ LexLess(v[2], w[2])
RECURSIVE NatLess(_, _, _)
NatLess(sh, v, w) == IF sh = << >> THEN FALSE
                     ELSE IF v[1] # w[1] THEN ValLess(sh[1], v[1], w[1])
                     ELSE NatLess(Tail(sh), Tail(v), Tail(w))
Zeros(k, v) == CASE k = "s" -> \E i \in 1..Len(v) : v[i] = 0
                 [] k = "os" -> v[1] = SOME /\ \E i \in 1..Len(v[2]) : v[2][i] = 0
                 [] OTHER -> FALSE
HasZeros(v) == \E i \in 1..Len(shape) : Zeros(shape[i], v[i])

Values(sh) == LET V[i \in 0..Len(sh)] == IF i = 0 THEN {<< >>} ELSE {Append(x, y) : x \in V[i - 1], y \in Vals(sh[i])} IN V[Len(sh)]

Init == /\ \E n \in 1..MaxFields : shape \in [1..n -> Kinds]
        /\ a \in Values(shape)
        /\ b = << >>
Next == b = << >> /\ b' \in Values(shape) /\ b' # a /\ UNCHANGED << shape, a >>
Spec == Init /\ [][Next]_<< shape, a, b >>

RoundTrip == LET y == Encode(shape, a) IN Decode(shape, y, 1, Len(y)) = a
Unique == b # << >> => Encode(shape, a) # Encode(shape, b)
Order == (b # << >> /\ ~HasZeros(a) /\ ~HasZeros(b))
         => (NatLess(shape, a, b) <=> LexLess(Encode(shape, a), Encode(shape, b)))
\* (what the finding composite-nul is about: this one does not hold)
OrderWithZeros == b # << >> => (NatLess(shape, a, b) <=> LexLess(Encode(shape, a), Encode(shape, b)))
=============================================================================
