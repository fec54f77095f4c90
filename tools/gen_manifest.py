#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = ("Recorded and specification-generated programs run on the real code are checked event by event against the TLA+ "
       "specification Store (exact results, TLC); the specification's own properties are checked exhaustively on small instances. "
       "Covers what the seeded programs reach; trusts the harness's translation of values.")
T = "TLA+ specification (TLC) with trace validation of recorded and generated executions"
C = {
    "C01": (T, SEQ), "C02": (T, SEQ), "C05": (T, SEQ), "C06": (T, SEQ), "C07": (T, SEQ), "C08": (T, SEQ),
    "C10": (T, SEQ), "C11": (T, SEQ), "C12": (T, SEQ), "C13": (T, SEQ),
}
TC = "TLA+ specification (TLC): linearizability of recorded concurrent histories decided by trace validation, schedules perturbed"
CN = ("Concurrent histories recorded from the real code under perturbed schedules are accepted only if the TLA+ specification "
      "explains every result in some order consistent with real time. Schedules are sampled, not enumerated.")
C["C03"] = (TC, CN)
C["C09"] = (TC, CN)
C["C20"] = (T, SEQ + " " + CN)
TK = "TLA+ specification (TLC): model of the key-value store checked exhaustively, recorded executions decided by trace validation"
KV = ("KVImpl.tla (memory, persisting thread, disk, expiration loader, crashes) is checked exhaustively on small instances together with "
      "broken variants that must fail; sequential and concurrent programs run on the real code, with reopening and looks at copies of the "
      "directory, are checked operation by operation against KV.tla. Schedules and programs are sampled; times are judged by intervals.")
for p in ("C14", "C15", "C16"):
    C[p] = (TK, KV)
C["C04"] = ("TLA+ specification (TLC): commit protocol model with crashes, and trace validation of executions resumed from recorded file system states",
            "CommitImpl.tla (tree writes, log writes, crashes, recovery, reuse of ids) is checked exhaustively on small instances together with broken "
            "variants that must fail. On the real code every file system call of a program is recorded; for sampled positions the folder is rebuilt as it was, "
            "reopened, read completely, changed further (sometimes stopped again), and everything seen is checked against the TLA+ specification Store. "
            "Process stops only, not power loss.")
C["C18"] = ("TLA+ specification (TLC): model of creating, opening, using and deleting databases with crashes, and trace validation of programs, stopped programs and concurrent histories",
            "CatalogImpl.tla (records, folders, list, open contexts, users of a context, crashes) is checked exhaustively on small instances together with broken "
            "variants that must fail. Catalog.tla says what every operation returns and what every database holds; programs with unusual names, schemas, reused names "
            "and handles of deleted databases are recorded on the real code (with the folder and its surroundings), also stopped and resumed, and checked against it. "
            "CatLin.tla looks for an order explaining recorded concurrent histories.")
C["C17"] = ("TLA+ specification (TLC): model of a message's way to its subscriber, and trace validation of concurrent rounds per subscriber",
            "PubSubImpl.tla (relay, queues, forwarding, connection, client's table of subscribers) is checked exhaustively on small instances together with broken "
            "variants that must fail. Concurrent rounds of publishing, subscribing, unsubscribing and dropping through in-process, QUIC and WebSocket connections are "
            "recorded; PubSub.tla must explain everything each subscriber received by some order consistent with real time. Schedules are sampled.")
C["C24"] = ("TLA+ specification (TLC): one specification decides recorded executions in which each operation goes through a connection of another kind",
            "The specifications Store, KV and their concurrent versions, which say what every operation returns, decide executions whose operations are spread over "
            "in-process, server-handle, QUIC and WebSocket connections, blocking and async, with up to 60 requests outstanding on one connection. Programs and schedules are sampled.")
C["C21"] = ("TLA+ specification (TLC): model of how permissions are merged and looked up, and trace validation of programs run by sessions with random permissions",
            "AccessImpl.tla (statements of groups merged into a tree, lookup along exact and wildcard branches) is compared exhaustively on small sets with Access.tla, which says "
            "what a set of statements allows, together with broken variants that must differ. Programs of document, view, transaction, key-value and publish/subscribe operations are "
            "run on the real code by sessions with random statements (local and remote); Access.tla says which are denied, Store.tla and KV.tla what the others return and "
            "that denied ones change nothing.")
C["C22"] = ("TLA+ specification (TLC): model of users, groups, roles, tokens and sessions with concurrent changes, and trace validation of recorded authentications",
            "AuthImpl.tla (users, roles and groups changed while sessions are opened, token challenges answered once) is checked exhaustively together with broken variants (a challenge that is "
            "only looked at, an unchecked private token, group ids used as role ids, cached rights, a session opened before its rights are known). Programs that create, change and delete "
            "users, passwords, groups, roles and tokens, and log in, assume identities and answer token challenges - also in races - are run on the real storage and server (local and remote), and "
            "Auth.tla decides for each outcome and for each session's rights whether it is allowed.")
C["C25"] = ("TLA+ specification (TLC): model of connections, their sessions and subscribers across disconnects and restarts, and trace validation of recorded programs on several connections",
            "ConnImpl.tla (clients that connect, log in, subscribe, lose the connection and connect again, to a server that restarts and then gives out the same numbers again) is checked exhaustively "
            "together with broken variants (sessions or subscribers looked up without regard to the connection or to its number, tables kept after a disconnect). Programs on several QUIC and "
            "WebSocket connections at once, with cuts, server restarts, foreign and stale sessions and subscribers, are run on the real server and clients; ConnTrace.tla decides for each answer and "
            "each message whether it is allowed, and compares what the server still holds with what the connections have.")
C["C19"] = ("TLA+ specification (TLC): model of the names things are stored by, and trace validation of recorded backups and restores",
            "BackupName.tla defines the names that documents, keys and files of a backup get and is checked for every name of bounded length (stored names are acceptable as file names and are "
            "understood when read back), with broken variants. Programs on several databases of several schemas (no collections, encrypted collections, odd names), users and groups, with ids, "
            "namespaces and keys made to be mistaken for one another, are backed up (to a folder or to another location, in part while being written to), changed, and restored into another storage; "
            "BackupTrace.tla decides whether what is found is the contents at the time of the backup, views and expirations included.")
C["C26"] = ("TLA+ specification (TLC): model of a reader of a file's blocks, and trace validation of recorded programs on files",
            "FilesReader.tla (a reader asking for blocks, moving, giving up waiting, while blocks are removed) is checked exhaustively together with broken variants. Programs on files with blocks of 1, 4, 8, 33 "
            "bytes and 2 MB, with blocking and async handles that may be stale, readers of every kind, buffered and racing appends, creations and deletions, are run on the real crate; FilesTrace.tla "
            "decides every answer: contents byte by byte from any position, paths, uniqueness, listings, statistics and times.")
C["C27"] = ("TLA+ specification (TLC): model of the encoding of composite keys, and trace validation of recorded programs with keys of every type",
            "KeysCodec.tla encodes and decodes every composite value of bounded shapes and compares every pair of them (order, uniqueness, round trip), with broken variants. Programs that store documents "
            "under, and index them by, boundary and neighbouring values of some 115 key types (integers, times, options, results, tuples, derived structs and enumerations, identifiers, ...) are run on the real "
            "crate; Keys.tla defines the natural order of the values and KeysTrace.tla decides every lookup, range, grouping and pushed id against it.")
C["C23"] = ("TLA+ specification (TLC): model of which key protects what is written, and trace validation of recorded programs whose files are searched",
            "VaultImpl.tla (saving, mapping, compacting, persisting under changing keys and compression) is checked exhaustively with broken variants. Programs on two collections (one with its own key) with "
            "lazy, eager and unique views, keys, users, compactions and reopens under every configuration are run on the real crate; every stored string is unique, the storage's files are searched for all of "
            "them while it runs and after it was closed, and read with other keys; VaultTrace.tla decides which may be found and whether everything reads back as written.")
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
         if l.split(" ", 1)[1].startswith("verif:")]
m = {
    "version": 1,
    "setup_cmd": "bash bin/setup.sh",
    "hooks": {"guard": "cfg(bonsai_verif)", "enable": "RUSTFLAGS='--cfg bonsai_verif' (bin/vlib.py, bin/env.sh)", "source_commits": hooks},
    "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s" % p, "thorough_cmd": "python3 bin/check.py %s --thorough" % p,
                "technique": C[p][0], "level": "model_checking", "level_note": C[p][1]} for p in props if p in C],
    "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in C],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
