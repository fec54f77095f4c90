----------------------------- MODULE FilesTrace ------------------------------
(* A storage of files: a function from ids to files, each with the path of    *)
(* what contains it, a name, metadata, a revision and contents.  No two files *)
(* are at the same path.  Handles remember a file as it was when they last    *)
(* saw it, readers the contents as they were when they were opened.           *)
(* Paths are sequences of characters, contents are sequences of bytes; `wins' *)
(* has, for each byte, the moments between which it was appended.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, hd, files, hs, rs, uid
vars == << l, hd, files, hs, rs, uid >>
Line == Trace[l]
Res == Line.res
Block == Trace[hd].block
Rng(s) == {s[i] : i \in DOMAIN s}
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Fill(n, x) == [i \in 1..n |-> x]
Now == << Line.t0, Line.t1 >>

\* ------------------------------------------------------------------ paths
Slash == << "/" >>
Last(s) == s[Len(s)]
EndsSlash(p) == Len(p) > 0 /\ Last(p) = "/"
Trim(p) == IF EndsSlash(p) THEN SubSeq(p, 1, Len(p) - 1) ELSE p
AsDir(p) == IF EndsSlash(p) THEN p ELSE p \o Slash
\* the position of the last slash, 0 if there is none
Cut(p) == LET S == {i \in DOMAIN p : p[i] = "/"} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
DirOf(p) == IF Cut(p) = 0 THEN Slash ELSE SubSeq(p, 1, Cut(p))
NameOf(p) == SubSeq(p, Cut(p) + 1, Len(p))
BadName(n) == n = << >> \/ "/" \in Rng(n)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

\* where a file is created: [dir, name]
Target(p, has, at) ==
  LET abs == Len(p) > 0 /\ p[1] = "/"
      q == IF abs /\ Len(p) > 1 THEN Trim(p) ELSE p
  IN [dir |-> IF has = 1 THEN AsDir(at) ELSE IF abs THEN DirOf(q) ELSE Slash,
      name |-> IF abs THEN NameOf(q) ELSE q]
\* where a file is looked for
Wanted(p) == LET q == Trim(p) IN [dir |-> DirOf(q), name |-> NameOf(q)]
At(t) == {i \in DOMAIN files : files[i].dir = t.dir /\ files[i].name = t.name}
TheAt(t) == CHOOSE i \in At(t) : TRUE

\* ------------------------------------------------------------- descriptions
\* what is reported of the file (or handle) f
Shows(d, id, f) == d.id = id /\ d.dir = f.dir /\ d.name = f.name /\ d.path = f.dir \o f.name /\ d.md = f.md
                   /\ f.at[1] <= d.at /\ d.at <= f.at[2]
LastWin(w) == IF w = << >> THEN << -1, -1 >> ELSE Last(w)
InWin(t, w) == IF w[2] < 0 THEN t = -1 ELSE w[1] <= t /\ t <= w[2]
MaxWin(S) == IF S = {} THEN << -1, -1 >>
             ELSE << CHOOSE a \in {w[1] : w \in S} : \A w \in S : w[1] <= a, CHOOSE b \in {w[2] : w \in S} : \A w \in S : w[2] <= b >>
Handle(id) == [id |-> id, uid |-> files[id].uid, dir |-> files[id].dir, name |-> files[id].name, md |-> files[id].md,
               rev |-> files[id].rev, at |-> files[id].at]
Alive(h) == h.id \in DOMAIN files /\ files[h.id].uid = h.uid
Fresh(h) == Alive(h) /\ files[h.id].rev = h.rev
Contents(h) == IF Alive(h) THEN files[h.id].data ELSE << >>
Wins(h) == IF Alive(h) THEN files[h.id].wins ELSE << >>

Err(k) == Res.t = "err" /\ Res.k = k
OkRes == Res.t = "ok"
None == Res.t = "none"

\* what is wanted of an update through handle h, the file becoming `to'
Changed(h, to) == files[h.id].dir # to.dir \/ files[h.id].name # to.name \/ files[h.id].md # to.md
TakenBy(h, to) == At(to) \ {h.id} # {}
UpdateOk(h, to) ==
  IF ~Alive(h) THEN Err("notfound") \/ Err("conflict")
  ELSE \/ ~Fresh(h) /\ Err("conflict")
       \/ TakenBy(h, to) /\ Err("exists")
       \/ Fresh(h) /\ ~TakenBy(h, to) /\ OkRes

New(id, t, md, data, w) == [dir |-> t.dir, name |-> t.name, md |-> md, rev |-> 0, uid |-> uid + 1, data |-> data,
                            wins |-> Fill(Len(data), w), at |-> w]

\* ------------------------------------------------------------ each operation
CreatedOk(t) ==
  IF BadName(t.name) THEN Err("name")
  ELSE IF At(t) # {} THEN Err("exists")
  ELSE OkRes /\ Res.f.id \notin DOMAIN files /\ Shows(Res.f, Res.f.id, New(Res.f.id, t, Line.md, << >>, Now)) /\ Res.h = Len(hs) + 1
FoundOk(id) == OkRes /\ Shows(Res.f, id, files[id]) /\ Res.h = Len(hs) + 1
LocOk ==
  IF Line.ex = 1 /\ Line.p = << >> THEN Err("path")
  ELSE IF Line.ex = 1 /\ At(Wanted(Line.p)) # {} THEN FoundOk(TheAt(Wanted(Line.p)))
  ELSE LET t == Target(Line.p, 0, << >>) IN
       IF ~BadName(t.name) /\ At(t) # {} THEN FoundOk(TheAt(t)) ELSE CreatedOk(t)
LoadOk == IF Line.p = << >> THEN Err("path") ELSE IF At(Wanted(Line.p)) = {} THEN None ELSE FoundOk(TheAt(Wanted(Line.p)))
GetOk == IF Line.id \in DOMAIN files THEN FoundOk(Line.id) ELSE None
DelPathOk == IF Line.p = << >> THEN Err("path") ELSE OkRes /\ Res.b = (At(Wanted(Line.p)) # {})
\* a list of exactly the files in S
ListOk(S) == /\ OkRes /\ Len(Res.l) = Cardinality(S)
             /\ {Res.l[i].id : i \in DOMAIN Res.l} = S
             /\ \A i \in DOMAIN Res.l : Shows(Res.l[i], Res.l[i].id, files[Res.l[i].id])
             /\ Res.k > 0 => Res.h = Len(hs) + 1
In(dir) == {i \in DOMAIN files : files[i].dir = dir}
Under(p) == {i \in DOMAIN files : StartsWith(files[i].dir, p)}
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(files[x].data) + Total(S \ {x})
StatsOk == LET S == Under(Line.p) IN
           /\ OkRes /\ Res.count = Cardinality(S) /\ Res.bytes = Total(S)
           /\ InWin(Res.last, MaxWin({LastWin(files[i].wins) : i \in {i \in S : files[i].data # << >>}}))
H == hs[Line.h]
R == rs[Line.r]
Moved == IF EndsSlash(Line.p) THEN [H EXCEPT !.dir = Line.p] ELSE [H EXCEPT !.dir = DirOf(Line.p), !.name = NameOf(Line.p)]
DeleteOk(h) == IF ~Alive(h) THEN Err("notfound") \/ Err("conflict") ELSE IF Fresh(h) THEN OkRes ELSE Err("conflict")
Pieces == LET f[i \in 0..Len(Line.steps)] == IF i = 0 THEN << >> ELSE f[i - 1] \o (IF Line.steps[i].s = "w" THEN Line.steps[i].d ELSE << >>)
          IN f[Len(Line.steps)]
AppendOk(d, k) == IF d = << >> \/ Alive(H) THEN OkRes ELSE Err(k)
Suffix(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
TruncOk ==
  LET old == Contents(H) new == Res.d IN
  /\ OkRes
  /\ IF Len(old) <= Line.n THEN new = old
     ELSE /\ Len(new) >= Line.n /\ Len(new) - Line.n < Block /\ Len(new) <= Len(old)
          /\ Line.n = 0 => new = << >>
          /\ new = IF Line.from = 0 THEN Suffix(old, Len(new)) ELSE SubSeq(old, 1, Len(new))
LenOk == OkRes /\ Res.n = Len(Contents(H)) /\ Res.empty = (Contents(H) = << >>) /\ InWin(Res.last, LastWin(Wins(H)))
\* readers: what was read from the position on
IoErr == Res.t = "err" /\ Res.k = "io" /\ R.gone
Here(d) == SubSeq(R.snap, R.pos + 1, R.pos + Len(d)) = d /\ R.pos + Len(d) <= Len(R.snap)
Left == Len(R.snap) - R.pos
ReadOk == \/ IoErr
          \/ OkRes /\ Here(Res.d) /\ Len(Res.d) <= Line.n /\ (Res.d = << >> => Line.n = 0 \/ Left = 0)
ReadXOk == IoErr \/ IF Line.n <= Left THEN OkRes /\ Len(Res.d) = Line.n /\ Here(Res.d) ELSE Res.t = "err" /\ Res.k = "io"
AllOk == IoErr \/ (OkRes /\ Here(Res.d) /\ Len(Res.d) = Left)
\* whether bytes are text isn't decided here, but those below 128 always are
TextOk == \/ IoErr
          \/ OkRes /\ Here(Res.d) /\ Len(Res.d) = Left
          \/ Err("text") /\ \E i \in R.pos + 1..Len(R.snap) : R.snap[i] > 127
NextOk == \/ IoErr
          \/ None /\ Left = 0
          \/ OkRes /\ Here(Res.d) /\ (Res.d = << >> => ~R.emp)   \* what is left of a block may be nothing
SeekTo == IF Line.w = "s" THEN Line.o ELSE IF Line.w = "e" THEN Len(R.snap) + Line.o ELSE R.pos + Line.o
SeekOk == IF SeekTo < 0 THEN Res.t = "err" /\ Res.k = "io" ELSE OkRes /\ Res.n = Min(SeekTo, Len(R.snap))
RInfoOk == OkRes /\ Res.n = Len(R.snap) /\ Res.empty = (R.snap = << >>) /\ InWin(Res.last, R.win)
\* everything there is
DumpOk(fs, r) ==
  /\ r.t = "ok" /\ Len(r.files) = Cardinality(DOMAIN fs) /\ {r.files[i].id : i \in DOMAIN r.files} = DOMAIN fs
  /\ \A i \in DOMAIN r.files : LET d == r.files[i] IN Shows(d, d.id, fs[d.id]) /\ d.data = fs[d.id].data
  /\ r.docs = Cardinality(DOMAIN fs)
  \* no contents are left of files that are gone
  /\ (r.blocks = 0) = (\A i \in DOMAIN fs : fs[i].data = << >>)

\* ------------------------------------------------------------------- races
\* the contents after it, from those before: the pieces of each thread in its order
DumpData(r, id) == LET i == CHOOSE i \in DOMAIN r.files : r.files[i].id = id IN r.files[i].data
\* pieces consist of one value repeated, different for each
Starts(s) == {i \in DOMAIN s : i = 1 \/ s[i] # s[i - 1]}
RaceOk ==
  IF Line.id \notin DOMAIN files THEN \A i \in DOMAIN Line.errs : Line.errs[i].t = "none"
  ELSE
  LET old == files[Line.id].data
      new == DumpData(Line.res, Line.id)
      add == SubSeq(new, Len(old) + 1, Len(new))
      all == {<< t, k >> : t \in DOMAIN Line.threads, k \in 1..9}
      real == {p \in all : p[2] <= Len(Line.threads[p[1]])}
      piece(p) == Line.threads[p[1]][p[2]]
      at == [p \in real |-> {i \in DOMAIN add : add[i] = piece(p)[1]}]
      from == [p \in real |-> CHOOSE i \in at[p] : \A j \in at[p] : i <= j]
      cuts == {Len(old)} \cup {Len(old) + i - 1 : i \in Starts(add)} \cup {Len(new)}
  IN /\ Line.errs = << >>
     /\ Line.res.t = "ok" /\ \E i \in DOMAIN Line.res.files : Line.res.files[i].id = Line.id
     /\ StartsWith(new, old)
     \* each is there, once, in one piece
     /\ \A p \in real : /\ at[p] # {} /\ Cardinality(at[p]) = Len(piece(p))
                        /\ at[p] = from[p]..(from[p] + Len(piece(p)) - 1)
     /\ Cardinality(UNION {at[p] : p \in real}) = Len(add)
     /\ \A p \in real : p[2] > 1 => from[<< p[1], p[2] - 1 >>] < from[p]
     \* those who read it meanwhile saw what was there at a moment, later ones more of it
     /\ \A t \in DOMAIN Line.reads : \A k \in DOMAIN Line.reads[t] :
          LET r == Line.reads[t][k] IN
          /\ r.t = "ok" /\ StartsWith(new, r.d) /\ Len(r.d) \in cuts
          /\ k > 1 => Len(Line.reads[t][k - 1].d) <= Len(r.d)
\* creations that race for a path
Won == {i \in DOMAIN Line.tries : Line.tries[i].res.t = "ok"}
CTarget == Target(Line.p, 0, << >>)
CIds == {Line.tries[i].res.f.id : i \in Won}
CNew == CHOOSE i \in CIds : TRUE
\* the one whose file it is
CData == LET d == DumpData(Line.res, CNew) IN d
CRaceOk ==
  /\ \A i \in DOMAIN Line.tries \ Won : Line.tries[i].res.t = "err" /\ Line.tries[i].res.k = "exists" /\ Line.tries[i].how = 0
  /\ Line.res.t = "ok"
  /\ IF At(CTarget) # {} THEN /\ CIds \subseteq At(CTarget) /\ \A i \in Won : Line.tries[i].how # 0
     ELSE /\ Cardinality(CIds) = 1
          /\ CNew \notin DOMAIN files
          /\ Cardinality({i \in Won : Line.tries[i].how = 0}) <= 1
          /\ \A i \in Won : Shows(Line.tries[i].res.f, CNew, New(CNew, CTarget, 0, << >>, Now))
          /\ \E i \in DOMAIN Line.res.files : Line.res.files[i].id = CNew
          /\ CData = IF \E i \in Won : Line.tries[i].how = 0 THEN Line.tries[CHOOSE i \in Won : Line.tries[i].how = 0].data ELSE << >>

\* deletions that race with appends: one of them deletes it
DRaceOk ==
  IF Line.id \notin DOMAIN files THEN \A i \in DOMAIN Line.dels : Line.dels[i].t = "none"
  ELSE /\ Cardinality({i \in DOMAIN Line.dels : Line.dels[i].t = "ok"}) = 1
       /\ \A i \in DOMAIN Line.dels : Line.dels[i].t = "ok" \/ (Line.dels[i].t = "err" /\ Line.dels[i].k \in {"notfound", "conflict"})
       /\ \A i \in DOMAIN Line.appends : Line.appends[i].t = "ok" \/ (Line.appends[i].t = "err" /\ Line.appends[i].k = "notfound")

\* -------------------------------------------------------------- transitions
Ok ==
  CASE Line.e = "create" -> CreatedOk(Target(Line.p, Line.has, Line.at))
    [] Line.e = "loc" -> LocOk
    [] Line.e = "load" -> LoadOk
    [] Line.e = "get" -> GetOk
    [] Line.e = "delpath" -> DelPathOk
    [] Line.e = "list" -> ListOk(In(AsDir(Line.p)))
    [] Line.e = "listrec" -> ListOk(Under(Line.p))
    [] Line.e = "children" -> ListOk(In(H.dir \o H.name \o Slash))
    [] Line.e = "stats" -> StatsOk
    [] Line.e = "view" -> OkRes /\ Shows(Res.f, H.id, H)
    [] Line.e = "rename" -> IF BadName(Line.name) THEN Err("name") ELSE UpdateOk(H, [H EXCEPT !.name = Line.name])
    [] Line.e = "move" -> IF Len(Line.p) = 0 \/ Line.p[1] # "/" THEN Err("path") ELSE UpdateOk(H, Moved)
    [] Line.e = "setmd" -> OkRes
    [] Line.e = "upd" -> UpdateOk(H, H)
    [] Line.e = "del" -> DeleteOk(H)
    [] Line.e = "append" -> AppendOk(Line.data, "notfound")
    [] Line.e = "appendbuf" -> AppendOk(Pieces, "io") \/ (OkRes /\ Line.end = 1)   \* nobody hears of the errors of a writer that is dropped
    [] Line.e = "trunc" -> TruncOk
    [] Line.e = "len" -> LenOk
    [] Line.e \in {"open", "clone"} -> OkRes /\ Res.r = Len(rs) + 1
    [] Line.e = "read" -> ReadOk
    [] Line.e = "cancel" -> Res.t = "pending" \/ ReadOk
    [] Line.e = "readx" -> ReadXOk
    [] Line.e \in {"rest", "into", "end"} -> AllOk
    [] Line.e = "text" -> TextOk
    [] Line.e = "next" -> NextOk
    [] Line.e = "seek" -> SeekOk
    [] Line.e = "rinfo" -> RInfoOk
    [] Line.e = "dump" -> DumpOk(files, Res)
    [] Line.e = "reopen" -> OkRes
    [] Line.e = "race" -> RaceOk
    [] Line.e = "crace" -> CRaceOk
    [] Line.e = "drace" -> DRaceOk
    [] Line.e = "wipe" -> OkRes
    [] OTHER -> FALSE

Creating == OkRes /\ ((Line.e = "create") \/ (Line.e = "loc" /\ Res.f.id \notin DOMAIN files))
Written(h, d) == [files EXCEPT ![h.id].data = @ \o d, ![h.id].wins = @ \o Fill(Len(d), Now)]
Updated(h, to) == [files EXCEPT ![h.id].dir = to.dir, ![h.id].name = to.name, ![h.id].md = to.md,
                   ![h.id].rev = IF Changed(h, to) THEN @ + 1 ELSE @]
RaceFiles ==
  IF Line.id \notin DOMAIN files THEN files
  ELSE LET new == DumpData(Line.res, Line.id) n == Len(new) - Len(files[Line.id].data)
       IN [files EXCEPT ![Line.id].data = new, ![Line.id].wins = @ \o Fill(n, Now)]
NFiles ==
  CASE Creating -> Put(files, Res.f.id, New(Res.f.id, [dir |-> Res.f.dir, name |-> Res.f.name], Line.md,
                                            IF Line.e = "create" THEN Line.data ELSE << >>, Now))
    [] Line.e = "delpath" /\ OkRes -> Drop(files, At(Wanted(Line.p)))
    [] Line.e = "rename" /\ OkRes -> Updated(H, [H EXCEPT !.name = Line.name])
    [] Line.e = "move" /\ OkRes -> Updated(H, Moved)
    [] Line.e = "upd" /\ OkRes -> Updated(H, H)
    [] Line.e = "del" /\ OkRes -> Drop(files, {H.id})
    [] Line.e = "append" /\ OkRes /\ Alive(H) -> Written(H, Line.data)
    [] Line.e = "appendbuf" /\ OkRes /\ Alive(H) -> Written(H, Pieces)
    [] Line.e = "trunc" /\ Alive(H) ->
         [files EXCEPT ![H.id].data = Res.d,
                       ![H.id].wins = IF Line.from = 0 THEN Suffix(@, Len(Res.d)) ELSE SubSeq(@, 1, Len(Res.d))]
    [] Line.e = "race" -> RaceFiles
    [] Line.e = "drace" -> Drop(files, {Line.id})
    [] Line.e = "wipe" -> << >>
    [] Line.e = "crace" /\ At(CTarget) = {} -> Put(files, CNew, New(CNew, CTarget, 0, CData, Now))
    [] OTHER -> files

\* handles, of the files as they are now
NHs ==
  CASE Line.e \in {"create", "loc", "load", "get"} /\ OkRes ->
         Append(hs, [id |-> Res.f.id, uid |-> files'[Res.f.id].uid, dir |-> files'[Res.f.id].dir, name |-> files'[Res.f.id].name,
                     md |-> files'[Res.f.id].md, rev |-> files'[Res.f.id].rev, at |-> files'[Res.f.id].at])
    [] Line.e \in {"list", "listrec", "children"} /\ Res.k > 0 -> Append(hs, Handle(Res.l[Res.k].id))
    [] Line.e = "rename" /\ OkRes -> [hs EXCEPT ![Line.h].name = Line.name, ![Line.h].rev = files'[H.id].rev]
    [] Line.e = "move" /\ OkRes -> [hs EXCEPT ![Line.h] = [Moved EXCEPT !.rev = files'[H.id].rev]]
    [] Line.e = "setmd" -> [hs EXCEPT ![Line.h].md = Line.md]
    [] Line.e = "upd" /\ OkRes -> [hs EXCEPT ![Line.h].rev = files'[H.id].rev]
    [] Line.e = "reopen" -> << >>
    [] OTHER -> hs

\* what is read after what a reader would read was removed may fail
Lost(r) == r.uid \notin {files'[i].uid : i \in DOMAIN files'}
           \/ (Line.e = "trunc" /\ Alive(H) /\ r.uid = H.uid /\ Res.d # Contents(H))
Marked == [i \in DOMAIN rs |-> IF ~rs[i].gone /\ Lost(rs[i]) THEN [rs[i] EXCEPT !.gone = TRUE] ELSE rs[i]]
NRs ==
  CASE Line.e \in {"del", "delpath", "trunc", "drace"} -> Marked
    [] Line.e = "open" -> Append(rs, [uid |-> H.uid, snap |-> Contents(H), win |-> LastWin(Wins(H)), pos |-> 0, gone |-> FALSE, emp |-> FALSE])
    [] Line.e = "clone" -> Append(rs, R)
    [] Line.e \in {"read", "cancel", "readx", "end", "next"} /\ OkRes ->
         [rs EXCEPT ![Line.r].pos = @ + Len(Res.d), ![Line.r].emp = (Line.e = "next" /\ Res.d = << >>)]
    [] Line.e = "seek" /\ OkRes -> [rs EXCEPT ![Line.r].pos = Res.n, ![Line.r].emp = FALSE]
    [] Line.e = "reopen" -> << >>
    [] OTHER -> rs

Init == l = 1 /\ hd = 1 /\ files = << >> /\ hs = << >> /\ rs = << >> /\ uid = 0
IsReset == Line.e = "reset" /\ hd' = l /\ files' = << >> /\ hs' = << >> /\ rs' = << >> /\ uid' = 0
Step == /\ Line.e # "reset" /\ (Ok = TRUE)
        /\ files' = NFiles /\ hs' = NHs /\ rs' = NRs /\ uid' = uid + 1 /\ UNCHANGED hd
        /\ Line.e \in {"race", "crace", "drace"} => DumpOk(files', Res) = TRUE
Next == l <= Len(Trace) /\ l' = l + 1 /\ (IsReset \/ Step)
Spec == Init /\ [][Next]_vars

\* no two files are ever at the same path
Unique == \A i \in DOMAIN files, j \in DOMAIN files : i # j => files[i].dir # files[j].dir \/ files[i].name # files[j].name
Accepted ==
  LET d == TLCGet("stats").diameter - 1 IN
  \/ d = Len(Trace)
  \/ PrintT(<< "REJECTED", d + 1 >>) /\ FALSE
=============================================================================
