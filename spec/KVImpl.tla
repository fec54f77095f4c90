------------------------------ MODULE KVImpl ------------------------------
(* How the key-value store keeps its promises: values are changed in memory *)
(* (dirty), handed to a thread that persists them (being), and read back    *)
(* from whichever of the three places has the latest; expirations are       *)
(* tracked in memory and loaded in the background after a reopen.  Checked: *)
(* reads always agree with one map (absmap), what is on disk is an earlier  *)
(* or the present state of that map, and closing leaves the present one.    *)
(* Variant names a single deviation; every one of them must be caught.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Keys, Vals, MaxTime, MaxOps, Variant
None == [v |-> 0, x |-> 0]          \* x = 0: no expiration
Clean == [v |-> -1, x |-> 0]
Entry == [v : Vals, x : 0..MaxTime]

VARIABLES now, absmap, hist, dirty, being, disk, track, phase, launched, snapshot, ops
vars == << now, absmap, hist, dirty, being, disk, track, phase, launched, snapshot, ops >>

Live(e, t) == IF e # Clean /\ e.x # 0 /\ e.x <= t THEN None ELSE e
LiveMap(m, t) == [k \in Keys |-> Live(m[k], t)]
AllClean == [k \in Keys |-> Clean]

Init == /\ now = 1 /\ absmap = [k \in Keys |-> None] /\ hist = << absmap >>
        /\ dirty = AllClean /\ being = AllClean /\ disk = absmap /\ track = [k \in Keys |-> 0]
        /\ phase = "open" /\ launched = {} /\ snapshot = AllClean /\ ops = 0

Raw(k) == IF dirty[k] # Clean THEN dirty[k]
          ELSE IF being[k] # Clean /\ Variant # "persisting" THEN being[k] ELSE disk[k]
Lookup(k) == IF Variant = "visible" THEN Raw(k) ELSE Live(Raw(k), now)

\* expired keys that are tracked are removed before anything else happens
Expired == {k \in Keys : track[k] # 0 /\ track[k] <= now}
Swept(d) == [k \in Keys |-> IF k \in Expired THEN None ELSE d[k]]
SweptTrack == [k \in Keys |-> IF k \in Expired THEN 0 ELSE track[k]]

Worker == /\ phase = "open" /\ Expired # {}
          /\ dirty' = Swept(dirty) /\ track' = SweptTrack
          /\ UNCHANGED << now, absmap, hist, being, disk, phase, launched, snapshot, ops >>

Write(k, e) ==
  /\ phase = "open" /\ ops < MaxOps /\ ops' = ops + 1
  /\ Expired = {}      \* (Worker ran)
  /\ dirty' = [dirty EXCEPT ![k] = e]
  /\ track' = [track EXCEPT ![k] = IF Variant = "track" /\ e.x = 0 THEN @ ELSE e.x]
  /\ absmap' = [absmap EXCEPT ![k] = e]
  /\ hist' = Append(hist, absmap')
  /\ launched' = launched \cup {k}    \* updated since the database was opened
  /\ UNCHANGED << now, being, disk, phase, snapshot >>

\* changes the value, keeps the expiration: the entry counts as old as before
Bump(k) ==
  /\ phase = "open" /\ ops < MaxOps /\ ops' = ops + 1
  /\ Expired = {}
  /\ Lookup(k) # None
  /\ \E v \in Vals : /\ dirty' = [dirty EXCEPT ![k] = [v |-> v, x |-> Lookup(k).x]]
                     /\ absmap' = [absmap EXCEPT ![k] = [v |-> v, x |-> Lookup(k).x]]
  /\ hist' = Append(hist, absmap')
  /\ UNCHANGED << now, being, disk, track, phase, launched, snapshot >>

Tick == /\ now < MaxTime /\ now' = now + 1
        /\ UNCHANGED << absmap, hist, dirty, being, disk, track, phase, launched, snapshot, ops >>

Stage == /\ phase \in {"open", "closing"} /\ being = AllClean /\ dirty # AllClean
         /\ being' = dirty /\ dirty' = AllClean
         /\ UNCHANGED << now, absmap, hist, disk, track, phase, launched, snapshot, ops >>
Persist == /\ being # AllClean
           /\ disk' = [k \in Keys |-> IF being[k] # Clean THEN being[k] ELSE disk[k]]
           /\ being' = AllClean
           /\ UNCHANGED << now, absmap, hist, dirty, track, phase, launched, snapshot, ops >>

Close == /\ phase = "open"
         /\ phase' = IF Variant = "shutdown" /\ being # AllClean THEN "lost" ELSE "closing"
         /\ UNCHANGED << now, absmap, hist, dirty, being, disk, track, launched, snapshot, ops >>
Closed == /\ \/ phase = "closing" /\ dirty = AllClean /\ being = AllClean
             \/ phase = "lost" /\ being = AllClean
          /\ phase' = "closed" /\ dirty' = AllClean
          /\ UNCHANGED << now, absmap, hist, being, disk, track, launched, snapshot, ops >>
Crash == /\ phase # "closed" /\ phase' = "crashed"
         /\ dirty' = AllClean /\ being' = AllClean
         /\ UNCHANGED << now, absmap, hist, disk, track, launched, snapshot, ops >>
Open == /\ phase \in {"closed", "crashed"}
        /\ phase' = "open" /\ absmap' = disk /\ hist' = << disk >>
        /\ track' = [k \in Keys |-> 0] /\ launched' = {} /\ snapshot' = AllClean
        /\ UNCHANGED << now, dirty, being, disk, ops >>

\* the loader looks at all entries once, then loads one after the other
LoadAll == /\ phase = "open" /\ snapshot = AllClean
           /\ snapshot' = [k \in Keys |-> Raw(k)]
           /\ UNCHANGED << now, absmap, hist, dirty, being, disk, track, phase, launched, ops >>
LoadOne == /\ phase = "open"
           /\ \E k \in Keys :
                /\ snapshot[k] # Clean /\ snapshot[k].x # 0
                /\ LET e == IF Variant = "loader" THEN snapshot[k] ELSE Raw(k) IN
                   /\ IF Variant = "loader" THEN TRUE ELSE k \notin launched
                   /\ track' = [track EXCEPT ![k] = e.x]
                /\ snapshot' = [snapshot EXCEPT ![k] = [v |-> -2, x |-> 0]]
           /\ UNCHANGED << now, absmap, hist, dirty, being, disk, phase, launched, ops >>

Next == \/ Worker \/ Tick \/ Stage \/ Persist \/ Close \/ Closed \/ Crash \/ Open \/ LoadAll \/ LoadOne
        \/ \E k \in Keys : Bump(k) \/ Write(k, None) \/ \E e \in Entry : Write(k, e)
Spec == Init /\ [][Next]_vars

\* every read sees the one map (reads sweep the tracked keys first)
ReadsAgree == phase = "open" =>
  \A k \in Keys : (IF k \in Expired THEN None ELSE Lookup(k)) = Live(absmap[k], now)
\* the disk never shows anything that was not the state at some moment
DiskIsPast == \E i \in DOMAIN hist : LiveMap(disk, now) = LiveMap(hist[i], now)
ClosedIsPresent == phase = "closed" => LiveMap(disk, now) = LiveMap(absmap, now)
=============================================================================
