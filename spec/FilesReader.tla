----------------------------- MODULE FilesReader -----------------------------
(* How the contents of a file are read.  The reader knows the lengths of the  *)
(* file's blocks, which block it is in and how far; it asks for a few blocks  *)
(* at a time and goes on when they arrive.  Reads may be given up while they  *)
(* wait, and the reader be moved, or read by whole blocks instead; blocks may *)
(* be removed by a truncation meanwhile.                                      *)
(*                                                                            *)
(* How the code behaves, or once did:                                         *)
(*   Stamp    arriving blocks are those that were asked for, not those at the *)
(*            position the reader is in when they arrive                      *)
(*   Keep     what was read before having to wait is returned first           *)
(*   Missing  blocks that can't be loaded any more are an error, not ignored  *)
(*   Bounds   whether there is more is decided from the position              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxBlocks, MaxLen, MaxRead, Buffers, Stamp, Keep, Missing, Bounds

VARIABLES len, buf, there, cur, off, loaded, req, pc, want, got, pos, bad
vars == << len, buf, there, cur, off, loaded, req, pc, want, got, pos, bad >>

N == Len(len)
Start(b) == LET f[i \in 0..N] == IF i = 0 THEN 0 ELSE f[i - 1] + len[i] IN f[b - 1]
Total == LET f[i \in 0..N] == IF i = 0 THEN 0 ELSE f[i - 1] + len[i] IN f[N]
Min(a, b) == IF a < b THEN a ELSE b
None == [from |-> 0, to |-> 0]

Init == /\ len \in UNION {[1..n -> 1..MaxLen] : n \in 1..MaxBlocks} /\ buf \in Buffers /\ there = 1..Len(len)
        /\ cur = 1 /\ off = 0 /\ loaded = << >> /\ req = None
        /\ pc = "idle" /\ want = 0 /\ got = 0 /\ pos = 0 /\ bad = ""

\* blocks from the one the reader is in, at least one, as many as the buffer holds
LastWanted ==
  LET f[i \in cur - 1..N] == IF i = cur - 1 THEN 0 ELSE f[i - 1] + len[i]
      S == {i \in cur..N : f[i] <= buf}
  IN IF S = {} THEN cur ELSE CHOOSE i \in S : \A j \in S : j <= i

Read == \E n \in 1..MaxRead : pc = "idle" /\ pc' = "read" /\ want' = n /\ got' = 0
        /\ UNCHANGED << len, buf, there, cur, off, loaded, req, pos, bad >>
NextBlock == pc = "idle" /\ pc' = "next" /\ want' = 0 /\ got' = 0
        /\ UNCHANGED << len, buf, there, cur, off, loaded, req, pos, bad >>
Seek == \E x \in 0..Total :
  /\ pc = "idle" /\ pos' = x
  /\ LET S == {b \in 1..N : Start(b) + len[b] > x}
         b == IF S = {} THEN N ELSE CHOOSE b \in S : \A c \in S : b <= c
     IN cur' = b /\ off' = x - Start(b)
  /\ UNCHANGED << len, buf, there, loaded, req, pc, want, got, bad >>
Remove == \E b \in there : there' = there \ {b} /\ UNCHANGED << len, buf, cur, off, loaded, req, pc, want, got, pos, bad >>

\* --------------------------------------------------------- within a reading
Return(what) ==
  /\ pc' = "idle"
  /\ bad' = IF what = "eof" /\ pos + got < Total THEN "eof" ELSE bad
  /\ pos' = pos + got
Ready == loaded # << >> /\ loaded[1].idx = cur
Deliver(b, o, k) == IF Start(b) + o # pos + got THEN "wrong" ELSE bad

\* some bytes of the block in front
Take ==
  /\ pc = "read" /\ Ready
  /\ LET k == Min(want - got, len[loaded[1].blk] - off) IN
     /\ k > 0
     /\ bad' = Deliver(loaded[1].blk, off, k)
     /\ off' = off + k /\ got' = got + k
     /\ IF got + k = want THEN pc' = "idle" /\ pos' = pos + got + k ELSE pc' = pc /\ pos' = pos
  /\ UNCHANGED << len, buf, there, cur, loaded, req, want >>
\* nothing is left of it
Pop ==
  /\ pc = "read" /\ Ready /\ off >= len[loaded[1].blk]
  /\ loaded' = Tail(loaded) /\ cur' = cur + 1 /\ off' = 0
  /\ UNCHANGED << len, buf, there, req, pc, want, got, pos, bad >>
TakeBlock ==
  /\ pc = "next" /\ loaded # << >>
  /\ loaded' = Tail(loaded)
  /\ IF loaded[1].idx = cur
     THEN /\ bad' = Deliver(loaded[1].blk, off, 0)
          /\ pos' = pos + len[loaded[1].blk] - off
          /\ cur' = cur + 1 /\ off' = 0 /\ pc' = "idle"
     ELSE UNCHANGED << cur, off, pc, pos, bad >>
  /\ UNCHANGED << len, buf, there, req, want, got >>
Starved == (pc = "read" /\ ~Ready) \/ (pc = "next" /\ loaded = << >>)
Eof == Starved /\ cur > N /\ Return("eof") /\ UNCHANGED << len, buf, there, cur, off, loaded, req, want, got >>
EarlyEof == ~Bounds /\ Starved /\ cur = N /\ off >= 1 /\ Return("eof") /\ UNCHANGED << len, buf, there, cur, off, loaded, req, want, got >>
\* what was read is returned before waiting
Partly == Starved /\ cur <= N /\ Keep /\ got > 0 /\ Return("some") /\ UNCHANGED << len, buf, there, cur, off, loaded, req, want, got >>
Waits == Starved /\ cur <= N /\ ~(Keep /\ got > 0)
Ask ==
  /\ Waits /\ req = None
  /\ req' = [from |-> cur, to |-> LastWanted] /\ loaded' = << >>
  /\ UNCHANGED << len, buf, there, cur, off, pc, want, got, pos, bad >>
Arrive ==
  /\ Waits /\ req # None
  /\ LET all == [i \in 1..(req.to - req.from + 1) |-> req.from + i - 1]
         found == SelectSeq(all, LAMBDA b : b \in there)
         first == IF Stamp THEN req.from ELSE cur
     IN IF Missing /\ found # all
        THEN pc' = "idle" /\ loaded' = loaded /\ pos' = pos + got
        ELSE /\ loaded' = loaded \o [i \in 1..Len(found) |-> [idx |-> first + i - 1, blk |-> found[i]]]
             /\ pc' = pc /\ pos' = pos
  /\ req' = None
  /\ UNCHANGED << len, buf, there, cur, off, want, got, bad >>
\* the caller gives up (what was put into its buffer is gone)
GiveUp == /\ Waits /\ req # None /\ pc' = "idle"
          /\ UNCHANGED << len, buf, there, cur, off, loaded, req, want, got, pos, bad >>

Next == Read \/ NextBlock \/ Seek \/ Remove \/ Take \/ Pop \/ TakeBlock \/ Eof \/ EarlyEof \/ Partly \/ Ask \/ Arrive \/ GiveUp
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Pop \/ TakeBlock \/ Eof \/ Partly \/ Ask \/ Arrive)

\* every byte that is delivered is the next one, the end is reported at the end
Right == bad = ""
\* the reader is where it was read up to
Position == pc = "idle" => pos = IF cur <= N THEN Start(cur) + off ELSE Total
\* a reading ends
Ends == pc # "idle" ~> pc = "idle"
==============================================================================
