--------------------------- MODULE CatalogImpl ---------------------------
(* How the storage creates, opens and deletes databases: the records in the  *)
(* admin database and the folders are on disk, the list of databases and the *)
(* open contexts are in memory.  Threads create, delete and use databases,   *)
(* and the process can stop and be restarted between any two steps.          *)
(* Refines Catalog: what is in a listed database's folder is what was        *)
(* written to it since it was created, and nothing else.                     *)
EXTENDS Naturals, FiniteSets

CONSTANTS Threads, Names, MaxGen, MaxCtx, MaxWrites,
          Leftover,    \* creating a database removes what is left in its folder
          RecordFirst, \* deleting a database removes its record, then its folder
          Guarded,     \* deleting waits for the users of a context, and ends it
          OpenLocked,  \* opening holds the list of databases
          CheckFirst   \* deleting does nothing if there is no such database

VARIABLES rec,      \* name -> generation in the admin database, 0: none
          folder,   \* name -> documents: << generation, number >>
          exists,   \* the names that have a folder
          cache,    \* name -> generation listed, 0: none
          open,     \* name -> context, 0: none
          alive,    \* contexts that may be used
          users,    \* threads that are using a context's files
          writer,   \* the thread that has the list of databases for itself, 0: none
          readers,  \* the threads that hold it
          pc, h, gen, ctxs, acked, given, crashed
vars == << rec, folder, exists, cache, open, alive, users, writer, readers, pc, h, gen, ctxs, acked, given, crashed >>

None == [n |-> 0, c |-> 0, g |-> 0]
Idle == [at |-> "idle", n |-> 0]

Init == /\ rec = [n \in Names |-> 0] /\ folder = [n \in Names |-> {}] /\ exists = {}
        /\ cache = [n \in Names |-> 0] /\ open = [n \in Names |-> 0] /\ alive = {}
        /\ users = [t \in Threads |-> 0] /\ writer = 0 /\ readers = {}
        /\ pc = [t \in Threads |-> Idle] /\ h = [t \in Threads |-> None]
        /\ gen = 0 /\ ctxs = 0 /\ acked = {} /\ given = 0 /\ crashed = FALSE

At(t, a) == pc[t].at = a
Goto(t, a) == pc' = [pc EXCEPT ![t].at = a]
Begin(t, a, n) == At(t, "idle") /\ pc' = [pc EXCEPT ![t] = [at |-> a, n |-> n]]
Done(t) == pc' = [pc EXCEPT ![t] = Idle]
N(t) == pc[t].n

DISK == << rec, folder, exists >>
MEM == << cache, open, alive, users >>
REST == << h, gen, ctxs, acked, given, crashed >>

Using(c) == {t \in Threads : users[t] = c}

(* Ends the context of n, if any, as part of removing its files. *)
EndContext(n) ==
  /\ open' = [open EXCEPT ![n] = 0]
  /\ IF Guarded /\ open[n] # 0
     THEN Using(open[n]) = {} /\ alive' = alive \ {open[n]}
     ELSE alive' = alive

Create(t) ==
  \/ \E n \in Names : Begin(t, "create", n) /\ writer = 0 /\ readers = {} /\ writer' = t
       /\ UNCHANGED << readers, DISK, MEM, REST >>
  \/ /\ At(t, "create")
     /\ IF cache[N(t)] # 0 THEN Done(t) /\ writer' = 0 /\ UNCHANGED << DISK, MEM, REST, readers >>
        ELSE /\ UNCHANGED << rec, cache, users, writer, readers, REST >>
             /\ IF Leftover THEN EndContext(N(t)) /\ folder' = [folder EXCEPT ![N(t)] = {}] /\ exists' = exists \ {N(t)}
                ELSE UNCHANGED << folder, exists, open, alive >>
             /\ Goto(t, "record")
  \/ /\ At(t, "record") /\ gen < MaxGen /\ gen' = gen + 1 /\ rec' = [rec EXCEPT ![N(t)] = gen + 1] /\ Goto(t, "list")
     /\ UNCHANGED << folder, exists, MEM, writer, readers, h, ctxs, acked, given, crashed >>
  \/ /\ At(t, "list") /\ cache' = [cache EXCEPT ![N(t)] = rec[N(t)]] /\ writer' = 0 /\ Done(t)
     /\ UNCHANGED << DISK, open, alive, users, readers, REST >>

RemoveRecord(t, next) == At(t, next[1]) /\ rec' = [rec EXCEPT ![N(t)] = 0] /\ Goto(t, next[2])
  /\ UNCHANGED << folder, exists, MEM, writer, readers, REST >>
RemoveFiles(t, next) == At(t, next[1]) /\ EndContext(N(t)) /\ folder' = [folder EXCEPT ![N(t)] = {}] /\ exists' = exists \ {N(t)}
  /\ Goto(t, next[2]) /\ UNCHANGED << rec, cache, users, writer, readers, REST >>

Delete(t) ==
  \/ \E n \in Names : Begin(t, "delete", n) /\ writer = 0 /\ readers = {} /\ writer' = t
       /\ UNCHANGED << readers, DISK, MEM, REST >>
  \/ /\ At(t, "delete")
     /\ IF CheckFirst /\ cache[N(t)] = 0 THEN Done(t) /\ writer' = 0 /\ UNCHANGED << DISK, MEM, readers, REST >>
        ELSE Goto(t, IF RecordFirst THEN "unrecord" ELSE "remove") /\ UNCHANGED << DISK, MEM, writer, readers, REST >>
  \/ IF RecordFirst THEN RemoveRecord(t, << "unrecord", "unlist" >>) ELSE RemoveRecord(t, << "unrecord", "finish" >>)
  \/ /\ At(t, "unlist") /\ cache' = [cache EXCEPT ![N(t)] = 0] /\ Goto(t, "remove")
     /\ UNCHANGED << DISK, open, alive, users, writer, readers, REST >>
  \/ RemoveFiles(t, << "remove", IF RecordFirst THEN "finish" ELSE "unrecord" >>)
  \/ /\ At(t, "finish") /\ cache' = [cache EXCEPT ![N(t)] = 0] /\ writer' = 0 /\ Done(t)
     /\ UNCHANGED << DISK, open, alive, users, readers, REST >>

Open(t) ==
  \/ \E n \in Names :
       /\ cache[n] # 0 /\ writer = 0 /\ Begin(t, "open", n)
       /\ readers' = IF OpenLocked THEN readers \cup {t} ELSE readers
       /\ h' = [h EXCEPT ![t] = [n |-> n, c |-> 0, g |-> cache[n]]]
       /\ UNCHANGED << DISK, MEM, writer, gen, ctxs, acked, given, crashed >>
  \/ /\ At(t, "open") /\ Done(t) /\ readers' = readers \ {t} /\ exists' = exists \cup {N(t)}
     /\ IF open[N(t)] # 0 THEN h' = [h EXCEPT ![t].c = open[N(t)]] /\ UNCHANGED << open, alive, ctxs >>
        ELSE /\ ctxs < MaxCtx /\ ctxs' = ctxs + 1 /\ h' = [h EXCEPT ![t].c = ctxs + 1]
             /\ open' = [open EXCEPT ![N(t)] = ctxs + 1] /\ alive' = alive \cup {ctxs + 1}
     /\ UNCHANGED << rec, folder, cache, users, writer, gen, acked, given, crashed >>

Write(t) ==
  \/ /\ h[t].c # 0 /\ (Guarded => h[t].c \in alive) /\ given < MaxWrites
     /\ Begin(t, "write", h[t].n) /\ users' = [users EXCEPT ![t] = h[t].c]
     /\ UNCHANGED << DISK, cache, open, alive, writer, readers, REST >>
  \/ /\ At(t, "write") /\ Goto(t, "written") /\ given' = given + 1
     /\ folder' = [folder EXCEPT ![N(t)] = @ \cup {<< h[t].g, given + 1 >>}] /\ exists' = exists \cup {N(t)}
     /\ h' = [h EXCEPT ![t].n = h[t].n]
     /\ acked' = acked \cup {<< h[t].g, given + 1 >>}
     /\ UNCHANGED << rec, MEM, writer, readers, gen, ctxs, crashed >>
  \/ /\ At(t, "written") /\ Done(t) /\ users' = [users EXCEPT ![t] = 0]
     /\ UNCHANGED << DISK, cache, open, alive, writer, readers, REST >>

Crash == /\ ~crashed /\ crashed' = TRUE
         /\ cache' = rec /\ open' = [n \in Names |-> 0] /\ alive' = {} /\ users' = [t \in Threads |-> 0]
         /\ writer' = 0 /\ readers' = {} /\ pc' = [t \in Threads |-> Idle] /\ h' = [t \in Threads |-> None]
         /\ UNCHANGED << DISK, gen, ctxs, acked, given >>

Next == Crash \/ \E t \in Threads : Create(t) \/ Delete(t) \/ Open(t) \/ Write(t)
Spec == Init /\ [][Next]_vars

Touched(n) == \E t \in Threads : ~At(t, "idle") /\ N(t) = n /\ pc[t].at \notin {"open", "write", "written"}
(* A listed database holds what was written to it since it was created, and  *)
(* nothing that was written to another one.                                  *)
Contents == \A n \in Names : cache[n] # 0 /\ ~Touched(n) =>
               folder[n] = {d \in acked : d[1] = cache[n]}
(* The list is what the admin database says. *)
Listed == \A n \in Names : ~Touched(n) => cache[n] = rec[n]
(* Unless the process was stopped, nothing is left of a deleted database. *)
NothingLeft == \A n \in Names : ~crashed /\ ~Touched(n) /\ cache[n] = 0 => n \notin exists /\ folder[n] = {}
(* The contexts that may be used are those of listed databases. *)
Ended == Guarded => \A n \in Names : ~Touched(n) /\ cache[n] = 0 => \A t \in Threads : h[t].n = n => h[t].c \notin alive
=============================================================================
