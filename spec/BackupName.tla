------------------------------ MODULE BackupName ------------------------------
(* The names a backup stores things by.  Names are sequences of characters; the *)
(* separator of key names is shortened to ".k." (it begins and ends alike, as   *)
(* the real one does), and a file's name may not contain "/" nor be ".", "..",  *)
(* or empty.  One initial state per name tried; the invariants say that every   *)
(* name can be stored and is understood when it is read back.                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Alphabet, IdAlphabet, NsLen, KeyLen, IdLen, Variant
VARIABLES kind, x, y
vars == << kind, x, y >>
Upto(A, n) == UNION {[1..m -> A] : m \in 0..n}
Sep == << ".", "k", "." >>

IsAt(s, t, i) == i + Len(t) - 1 <= Len(s) /\ \A j \in 1..Len(t) : s[i + j - 1] = t[j]
Has(s, t) == \E i \in 1..Len(s) : IsAt(s, t, i)
Find(s, t) == CHOOSE i \in 1..Len(s) : IsAt(s, t, i) /\ \A k \in 1..i - 1 : ~IsAt(s, t, k)
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, << >>, ss)
\* each character c of s replaced by f[c]
Each(s, f) == Cat([i \in 1..Len(s) |-> IF s[i] \in DOMAIN f THEN f[s[i]] ELSE << s[i] >>])
\* every t in s replaced by u, from the left
RECURSIVE Replace(_, _, _)
Replace(s, t, u) == IF ~Has(s, t) THEN s
  ELSE LET i == Find(s, t) IN SubSeq(s, 1, i - 1) \o u \o Replace(SubSeq(s, i + Len(t), Len(s)), t, u)

\* ------------------------------------------------ namespaces and keys
EscNs(ns) ==
  IF Variant = "plain" THEN ns
  ELSE IF Variant = "sep" THEN IF Has(ns, Sep) THEN Each(ns, ("." :> << "%", "2", "e" >>)) ELSE ns
  ELSE IF Has(ns, << ".", "k" >>) \/ Has(ns, << "%" >>)
    THEN Each(ns, ("." :> << "%", "2", "e" >>) @@ ("%" :> << "%", "2", "5" >>)) ELSE ns
KeyName(ns, key) == EscNs(ns) \o Sep \o key
SplitKey(n) ==
  LET i == Find(n, Sep)
      stored == SubSeq(n, 1, i - 1)
      key == SubSeq(n, i + Len(Sep), Len(n))
      ns == IF Variant = "order" THEN Replace(Replace(stored, << "%", "2", "5" >>, << "%" >>), << "%", "2", "e" >>, << "." >>)
            ELSE Replace(Replace(stored, << "%", "2", "e" >>, << "." >>), << "%", "2", "5" >>, << "%" >>)
  IN IF KeyName(ns, key) = n THEN << ns, key >> ELSE << stored, key >>

\* ------------------------------------------------ document ids
\* bytes are numbers; the text of an id is either its characters or, after a "$", two
\* digits for each byte, without the leading zeros, whose number precedes the "$"
Dollar == 2        \* the byte that is the character "$"
Text == {b \in IdAlphabet : b \in {1, 2}}
Ch(b) == IF b = Dollar THEN "$" ELSE "1"
Dig == << "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f" >>
Digits(b) == << Dig[(b \div 16) + 1], Dig[(b % 16) + 1] >>
ShowId(id) ==
  IF (\A i \in DOMAIN id : id[i] \in Text /\ (Variant = "dollar" \/ id[i] # Dollar))
    THEN [i \in DOMAIN id |-> Ch(id[i])]
  ELSE IF \A i \in DOMAIN id : id[i] = 0 THEN << Dig[Len(id) + 1], "$" >>
  ELSE LET z == CHOOSE n \in 0..Len(id) - 1 : id[n + 1] # 0 /\ \A j \in 1..n : id[j] = 0
           rest == Cat([i \in 1..Len(id) - z |-> Digits(id[z + i])])
       IN (IF z > 0 THEN << Dig[z + 1] >> ELSE << >>) \o << "$" >> \o (IF rest[1] = "0" THEN Tail(rest) ELSE rest)
Hex(c) == (CHOOSE i \in 1..16 : Dig[i] = c) - 1
ParseId(s) ==
  IF ~\E i \in DOMAIN s : s[i] = "$" THEN [i \in DOMAIN s |-> 1]
  ELSE LET p == CHOOSE i \in DOMAIN s : s[i] = "$" /\ \A j \in 1..i - 1 : s[j] # "$"
           pre == IF p = 1 THEN 0 ELSE Hex(s[p - 1])
           d == SubSeq(s, p + 1, Len(s))
           dd == IF Len(d) % 2 = 1 THEN << "0" >> \o d ELSE d
       IN IF \E i \in DOMAIN d : d[i] = "$" THEN << -1 >>
          ELSE [i \in 1..pre |-> 0] \o [i \in 1..Len(dd) \div 2 |-> 16 * Hex(dd[2 * i - 1]) + Hex(dd[2 * i])]

\* ------------------------------------------------ names of files
FileName(n) ==
  IF Variant = "asis" THEN n
  ELSE IF n = << >> THEN << "%" >>
  ELSE IF n \in {<< "." >>, << ".", "." >>} /\ Variant # "dots" THEN Each(n, ("." :> << "%", "2", "e" >>))
  ELSE Each(n, IF Variant = "percent" THEN ("/" :> << "%", "2", "f" >>) ELSE ("/" :> << "%", "2", "f" >>) @@ ("%" :> << "%", "2", "5" >>))
Code == (<< "2", "f" >> :> "/") @@ (<< "2", "5" >> :> "%") @@ (<< "2", "e" >> :> ".")
RECURSIVE Unesc(_)
Unesc(f) == IF f = << >> THEN << >>
            ELSE IF f[1] = "%" /\ Len(f) >= 3 /\ << f[2], f[3] >> \in DOMAIN Code
              THEN << Code[<< f[2], f[3] >>] >> \o Unesc(SubSeq(f, 4, Len(f)))
            ELSE IF f[1] = "%" THEN Unesc(Tail(f))
            ELSE << f[1] >> \o Unesc(Tail(f))
ObjectName(f) == IF Variant = "percent" THEN Unesc(f) ELSE IF FileName(Unesc(f)) = f THEN Unesc(f) ELSE f

Init == \/ kind = "key" /\ x \in Upto(Alphabet \ {"/"}, NsLen) /\ y \in Upto(Alphabet \ {"/"}, KeyLen)
        \/ kind = "id" /\ x \in Upto(IdAlphabet, IdLen) /\ y = 0
        \/ kind = "file" /\ x \in Upto(Alphabet, NsLen) /\ y = 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

KeysBack == kind = "key" => SplitKey(KeyName(x, y)) = << x, y >>
IdsBack == kind = "id" => ParseId(ShowId(x)) = x
FilesBack == kind = "file" => /\ FileName(x) \notin {<< >>, << "." >>, << ".", "." >>} /\ ~Has(FileName(x), << "/" >>)
                              /\ ObjectName(FileName(x)) = x
\* files stored before names were escaped, and thus named so that they could be, are found
\* unless their names look escaped
Earlier == kind = "file" /\ x # << >> /\ ~Has(x, << "%" >>) => ObjectName(x) = x
=============================================================================
