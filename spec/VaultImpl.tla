----------------------------- MODULE VaultImpl ------------------------------
(* Which key what is written gets: documents, views and keys are written     *)
(* when documents are saved, when views are mapped, when trees are compacted *)
(* and when keys are persisted, each of which chooses a key of its own; the  *)
(* default key and compression may change when the storage is opened again.  *)
(* A chunk in a file is clear or sealed, packed (compressed) or not.         *)
EXTENDS Naturals, FiniteSets
CONSTANTS Tokens, SaveKey, MapKey, CompactKey, PersistKey, ReadVault
VARIABLES default, lz4, mem, trees, files, ever, bad
vars == << default, lz4, mem, trees, files, ever, bad >>

Trees == {"docsP", "docsE", "viewP", "viewE", "kv"}
Own(t) == t \in {"docsE", "viewE"}
Source(t) == IF t = "viewP" THEN "docsP" ELSE "docsE"

\* the key chosen by a way to choose one
Key(how, t) == CASE how = "collection" -> default \/ Own(t)
                 [] how = "default" -> default
                 [] how = "own" -> Own(t)
                 [] how = "none" -> FALSE
Chunk(how, t, x) == [t |-> x, sealed |-> Key(how, t), packed |-> lz4]
Write(how, t, X) ==
  /\ trees' = [trees EXCEPT ![t] = {Chunk(how, t, x) : x \in X}]
  /\ files' = [files EXCEPT ![t] = @ \cup {Chunk(how, t, x) : x \in X}]
  \* what may be in clear, since nothing protected it
  /\ ever' = IF default \/ Own(t) THEN ever ELSE ever \cup X
\* reading needs a vault for what is sealed or packed
HasVault(t) == default \/ lz4 \/ (Own(t) /\ ReadVault)
Readable(t) == \A c \in trees[t] : (c.sealed \/ c.packed) => HasVault(t)
Content(t) == {c.t : c \in trees[t]}
Used == UNION {{c.t : c \in files[t]} : t \in Trees} \cup mem

Init == /\ default \in BOOLEAN /\ lz4 \in BOOLEAN /\ mem = {}
        /\ trees = [t \in Trees |-> {}] /\ files = trees /\ ever = {} /\ bad = FALSE
Read(ts) == bad' = (bad \/ \E t \in ts : ~Readable(t))
Save == \E t \in {"docsP", "docsE"}, x \in Tokens \ Used :
          Write(SaveKey, t, Content(t) \cup {x}) /\ Read({t}) /\ UNCHANGED << default, lz4, mem >>
Map == \E t \in {"viewP", "viewE"} :
          Content(t) # Content(Source(t)) /\ Write(MapKey, t, Content(Source(t))) /\ Read({Source(t), t}) /\ UNCHANGED << default, lz4, mem >>
Compact == \E t \in Trees :
          /\ Read({t})
          /\ trees' = [trees EXCEPT ![t] = {Chunk(CompactKey, t, x) : x \in Content(t)}]
          /\ files' = [files EXCEPT ![t] = trees'[t]]
          /\ ever' = IF default \/ Own(t) THEN ever ELSE ever \cup Content(t)
          /\ UNCHANGED << default, lz4, mem >>
Set == \E x \in Tokens \ Used : mem' = {x} /\ UNCHANGED << default, lz4, trees, files, ever, bad >>
Persist == mem # {} /\ Write(PersistKey, "kv", mem) /\ mem' = {} /\ Read({"kv"}) /\ UNCHANGED << default, lz4 >>
\* a storage that had a vault keeps one
Reopen == \E d \in BOOLEAN, z \in BOOLEAN :
          /\ mem = {} /\ ((default \/ lz4) => (d \/ z))
          /\ default' = d /\ lz4' = z /\ UNCHANGED << mem, trees, files, ever, bad >>
Next == Save \/ Map \/ Compact \/ Set \/ Persist \/ Reopen
Spec == Init /\ [][Next]_vars

Hidden == \A t \in Trees : \A c \in files[t] : c.sealed \/ c.t \in ever
CanRead == ~bad
=============================================================================
