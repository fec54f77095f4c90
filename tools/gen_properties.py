#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the lines stay consistent)."""
import json, os
L="crates/bonsaidb-local/src/"; C="crates/bonsaidb-core/src/"; S="crates/bonsaidb-server/src/"; K="crates/bonsaidb-client/src/"; F="crates/bonsaidb-files/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Transactions are all-or-nothing",
 "Applying a transaction either performs every one of its operations, in order and across all collections it names, or, when any operation fails for any reason, changes nothing: no document, no view result, no assigned id and no entry in the transaction log. Operations of one transaction see the effects of the earlier operations of the same transaction. The per-operation results returned on success describe exactly the resulting documents.",
 ["programs","inputs"],"every sequence of transactions (any mix of insert, push, update, overwrite, delete, check over any collections, failing at any position)",
 "The tests apply a handful of two-operation transactions and look at one document; a failure after a successful prefix, spread over several collections and views, is a product space they sample once.",
 [L+"database.rs",L+"open_trees.rs",C+"transaction.rs"],[("apply_transaction_to_roots",L+"database.rs"),("rollback of the storage transaction on error",L+"database.rs")],
 [("documents","current documents of every collection",L+"database.rs"),("log","executed transactions",L+"database.rs")],["Connection::list","View::query","list_executed_transactions"])
p("C02","Writes are checked against the current revision",
 "An update or delete succeeds only when the caller's revision is the document's current revision, and otherwise fails with a conflict (or not-found when the document does not exist) and changes nothing; inserting an existing id fails. Every change of a document's contents gives it the next revision number and a revision that identifies the new contents, saving identical contents keeps the revision, and an overwrite always wins. No successful write is ever silently lost, whatever the number of concurrent writers.",
 ["histories","schedules"],"every history of writes to a document by any number of clients, with fresh or stale headers",
 "Tests exercise one conflicting update from one thread; lost updates need particular interleavings or particular stale revisions (same number, other contents).",
 [L+"database.rs",C+"document/revision.rs",C+"schema/collection.rs"],[("execute_update",L+"database.rs"),("execute_delete",L+"database.rs"),("Revision::next_revision",C+"document/revision.rs")],
 [("revision","number and content digest of a document",C+"document/revision.rs")],["update","delete","overwrite"])
p("C03","Concurrent operations are linearizable",
 "Every document operation and transaction issued concurrently against one database appears to take effect atomically at one instant between its call and its return: there is a single order of all of them, consistent with real time, that explains every result returned and the final contents and transaction log.",
 ["schedules","histories"],"every interleaving of any number of threads reading and writing the same database",
 "The suite has no check of concurrent results against a sequential order; a race needs a specific interleaving to show.",
 [L+"database.rs"],[("tree locks held by the storage transaction",L+"database.rs"),("compare-and-swap inside the transaction",L+"database.rs")],
 [],["results of all calls","final list of every collection","list_executed_transactions"],"optional schedule perturbation points around the storage transaction")
p("C04","Acknowledged transactions survive a crash",
 "If the process stops at any instant, reopening the storage finds every transaction whose application had been acknowledged, and of the one being applied either all or nothing; views, the transaction log, the list of databases and the storage keys agree with the documents found. A storage can be opened again after a stop at any instant.",
 ["crash_points","histories"],"every file-system operation the process performs while creating databases, writing documents, updating views and closing",
 "Tests only close and reopen cleanly.",
 [L+"database.rs",L+"storage.rs",L+"views/mapper.rs",L+"views/integrity_scanner.rs"],[("roots_transaction.commit",L+"database.rs"),("view versions and invalidation written in transactions",L+"views/integrity_scanner.rs")],
 [],["state found when the copied storage directory is opened"],"none: the file operations are observed from outside the library")
p("C05","Reads return exactly the stored documents",
 "Get, get-many, list, list-headers and count return exactly the documents currently stored that the request selects: the ids in the given range (inclusive, exclusive or unbounded at either end), in ascending or descending order of the id, cut to the given limit, with the contents and revision last written. Count equals the length of the unlimited list.",
 ["histories","inputs"],"every stored set and every range, order, limit and id list, for every id type",
 "Tests list a few documents with one or two ranges; deleted documents, exclusive bounds, empty and inverted ranges, boundary ids and duplicates are a large product.",
 [L+"database.rs",C+"connection.rs",C+"document/id.rs"],[("list_from_collection, list_headers_from_collection, count_from_collection, get_multiple_from_collection",L+"database.rs")],[],["list","headers","count","get","get_multiple"])
p("C06","Assigned document ids are fresh",
 "A document inserted without an id receives an id no stored document of the collection has, never replaces an existing document, and two concurrent inserts never receive the same id; when ids are exhausted or the type cannot provide one the insert fails without effect. A natural id, when the collection defines one, is used.",
 ["histories","schedules","inputs"],"every history of inserts, explicit ids and deletions, from any number of clients",
 "Tests push a few documents from one client.",
 [L+"database.rs",C+"schema/schematic.rs",C+"key.rs",C+"schema/collection.rs"],[("execute_insert",L+"database.rs"),("next_id_for_collection",C+"schema/schematic.rs")],[],["push","insert","transaction results"])
p("C07","The transaction log tells what was executed",
 "The list of executed transactions contains exactly the committed transactions, once each, in commit order with increasing ids, each naming exactly the documents (collection, id, deleted or not) or keys it changed; failed operations leave no entry. Start position and limit select a contiguous part of that list, and the last transaction id never decreases and is not below any listed one.",
 ["histories","inputs"],"every history of committed and failed transactions, every start and limit, across restarts",
 "Tests look at one or two entries.",
 [L+"database.rs",L+"database/compat.rs",C+"transaction.rs"],[("list_executed_transactions",L+"database.rs"),("Changes recorded in the log entry",L+"database.rs")],[],["list_executed_transactions","last_transaction_id"])
p("C08","Views equal their map function over the documents",
 "A view queried with the default access policy returns exactly the mappings its map function produces for the documents stored at that time: nothing for deleted documents, nothing stale for updated ones, each with the document's current header, whatever history of writes, failed writes, queries under any access policy, reopenings and compactions came before. With the other policies results may lag but only show mappings of some earlier state.",
 ["histories","programs"],"every history of writes and queries, any number of documents and emitted keys",
 "Tests check a few documents after a few writes; index maintenance errors need a specific sequence (key removed and re-added, batches beyond the internal chunk size, delete then reinsert).",
 [L+"views/mapper.rs",L+"tasks.rs",L+"database.rs"],[("DocumentRequest::map",L+"views/mapper.rs"),("invalidate_changed_documents",L+"database.rs")],
 [("invalidated","ids to be mapped again",L+"views.rs"),("document map","keys each document emitted",L+"views.rs")],["View::query","View::query_with_docs"])
p("C09","View queries see everything committed before them",
 "With writers and queriers running concurrently, a view query with the default policy reflects, for every document, the state left by a transaction no older than the last one that committed before the query was issued, and never a state that did not exist; no interleaving with background view work (index building, integrity scan, mapping) makes the view miss a document afterwards. Every query returns.",
 ["schedules","histories"],"every interleaving of writers, queriers and background jobs, including the first query after opening",
 "No test runs writers concurrently with the index jobs at chosen points.",
 [L+"tasks.rs",L+"views/mapper.rs",L+"views/integrity_scanner.rs",L+"tasks/manager.rs"],[("update_view_if_needed",L+"tasks.rs"),("IntegrityScanner::execute",L+"views/integrity_scanner.rs"),("lookup_or_enqueue",L+"tasks/manager.rs")],
 [("last mapped transaction","per view, decides whether to map again",L+"tasks.rs"),("completed integrity checks","views known to be current",L+"tasks.rs")],["View::query under concurrency"],"pause points between the steps of the view jobs")
p("C10","View queries select, order and pair correctly",
 "For any key filter (one key, several keys, any range, a prefix), order and limit, a view query returns exactly the selected entries in key order, at most the limit; the variants with documents return with each entry the document it came from, and deleting through a view deletes exactly the documents of the selected entries and reports their number.",
 ["inputs","histories"],"every view content and every combination of filter, order, limit and variant",
 "Tests use a few keys and no combinations of filters with order and limit.",
 [L+"database.rs",C+"connection.rs",C+"connection/lowlevel.rs",C+"schema/view/map.rs"],[("create_view_iterator",L+"database.rs"),("query_by_name_with_docs, delete_docs_by_name",L+"database.rs")],[],["View::query*","View::delete_docs"])
p("C11","Reduced values match the mapped values",
 "The reduction of a view over any selection of keys equals the view's reduce function applied to the values currently mapped to those keys, and the grouped reduction gives this per key, in key order, with exactly the keys that currently have entries.",
 ["histories","inputs"],"every history of writes and every key selection",
 "Tests reduce a few entries once; stale stored reductions need a document to leave a key another document still uses.",
 [L+"views/mapper.rs",L+"database.rs",C+"schema/view.rs"],[("compare_swap_view_entry keeps reduced_value",L+"views/mapper.rs"),("reduce_by_name",L+"database.rs")],[],["View::reduce","View::reduce_grouped"])
p("C12","Unique views never hold one key for two documents",
 "At no time do two stored documents emit the same key in a unique view. A write that would make that happen fails with a uniqueness violation naming the view and leaves everything unchanged; a key freed by an earlier write, even of the same transaction, can be used again, and no other write is refused.",
 ["histories","schedules","programs"],"every history and every concurrent set of writers, including several documents in one transaction",
 "Tests insert one duplicate.",
 [L+"views/mapper.rs",L+"database.rs"],[("unique check in compare_swap_view_entry",L+"views/mapper.rs"),("update_eager_views",L+"database.rs")],[],["write results","View::query on the unique view"])
p("C13","A changed view definition is reindexed",
 "After reopening a database with a view whose version differs from the one it was indexed with, queries return what the new definition maps from all stored documents, with no remains of the old index; a view whose version did not change keeps answering correctly without seeing every document again being required. This holds for lazily and eagerly updated views and for views added or removed in between.",
 ["histories","configurations"],"every sequence of opens with different versions and update policies, with writes in between",
 "Tests have one upgrade scenario.",
 [L+"views/integrity_scanner.rs",L+"tasks.rs",L+"database.rs"],[("IntegrityScanner::execute, ViewVersion",L+"views/integrity_scanner.rs")],[("view version","version the stored index was built with",L+"views/integrity_scanner.rs")],["View::query after reopening"])
p("C14","Key-value operations are atomic and exact",
 "Each key-value operation returns what a map from (namespace, key) to values would: set reports inserted, updated or not changed and the previous value when asked, conditional sets act only when the condition holds, get and delete-and-get return the stored value, increment and decrement are exact for every numeric kind (saturating or wrapping as asked) and refuse non-numeric values. Concurrent operations take effect one at a time.",
 ["inputs","histories","schedules"],"every sequence and interleaving of operations, namespaces, value kinds and numeric boundary values",
 "Tests try single operations; concurrent increments or conditional sets are not checked against an order.",
 [L+"database/keyvalue.rs",C+"keyvalue.rs",C+"keyvalue/implementation/set.rs",C+"keyvalue/implementation/increment.rs"],[("KeyValueState::perform_kv_operation",L+"database/keyvalue.rs")],[("dirty_keys","values not yet written",L+"database/keyvalue.rs")],["KeyValue methods' results"])
p("C15","Key expiration is honoured",
 "A key set with an expiration is gone once that time has passed and not before; a set without expiration removes an earlier one unless told to keep it; no expiration of one key affects another. This holds whether or not the value had been written to disk, and after the storage is reopened.",
 ["histories","schedules","crash_points"],"every sequence of sets, deletes and expirations over several keys, with restarts",
 "Tests use one or two keys and one order of expirations.",
 [L+"database/keyvalue.rs"],[("expiration_order, update_key_expiration, remove_expired_keys",L+"database/keyvalue.rs"),("ExpirationLoader",L+"database/keyvalue.rs")],[("expiring_keys, expiration_order","pending expirations sorted by time",L+"database/keyvalue.rs")],["get at times well before and well after the expiration"])
p("C16","Key-value changes reach disk as configured",
 "A key-value change is written no later than the configured thresholds (number of changes, elapsed time) require, everything acknowledged is found after the last handle is closed in the normal way, and after a crash what is found is the state after some prefix of the acknowledged operations that includes every one already committed under the configuration. Reads before and after a commit agree.",
 ["crash_points","histories","configurations","schedules"],"every persistence configuration, sequence of operations, and instant of closing or crashing",
 "Tests use one configuration at a time with sleeps.",
 [L+"database/keyvalue.rs",L+"config.rs",L+"storage/backup.rs"],[("KeyValueState::commit_dirty_keys, background_worker, shutdown",L+"database/keyvalue.rs"),("KeyValuePersistence::should_commit",L+"config.rs")],[("dirty_keys, keys_being_persisted","changes not yet durable",L+"database/keyvalue.rs")],["state found after reopening","list_executed_transactions"],"pause points in the background persistence")
p("C17","Subscribers get each matching message once, in order",
 "A subscriber receives exactly the messages published, in the same database, to topics it is subscribed to from the moment subscribing returns until it unsubscribes or is dropped: once each, unmodified, in the order one publisher sent them, however many topics, subscribers, databases and publishers there are. Messages of one database are never delivered in another.",
 ["schedules","histories","inputs"],"every interleaving of publishing, subscribing and unsubscribing over several databases and topics",
 "Tests publish a few messages sequentially.",
 [L+"database/pubsub.rs",L+"storage/pubsub.rs",C+"pubsub.rs"],[("Relay with database-prefixed topics",L+"database/pubsub.rs")],[],["Subscriber receiver"])
p("C18","Databases are separate and managed safely",
 "Creating, deleting and listing databases behave as a set of named databases each with its schema: names are validated, duplicates are refused (or reused when asked, if the schema matches), opening with another schema is refused, and what is done in one database is never visible in another. A deleted database is gone at once and for good: one created again under its name is empty in every respect, and no request creates, changes or removes files outside that database's own folder.",
 ["histories","inputs","schedules"],"every sequence and interleaving of catalogue operations and every name",
 "Tests create and delete one or two databases and never look at reuse of a name after use or at unusual names.",
 [L+"storage.rs",L+"tasks.rs"],[("create_database_with_schema, delete_database, validate_name",L+"storage.rs")],[("databases","open databases by name",L+"storage.rs"),("statuses","per-database task state",L+"tasks.rs")],["list_databases","contents of every database","the storage folder and its surroundings"])
p("C19","Backup and restore reproduce the data",
 "Restoring a backup into an empty storage yields databases with the same names and schemas, the same documents with the same ids and contents, and the same key-value entries as when the backup was taken, for any ids, namespaces, keys and contents; views of the restored databases answer accordingly.",
 ["inputs","histories"],"every content of a storage",
 "Tests round-trip one document and one key.",
 [L+"storage/backup.rs"],[("backup, restore",L+"storage/backup.rs")],[],["contents of the restored storage"])
p("C20","Compaction preserves everything",
 "Compacting a collection, a database or the key-value store, at any time, in any configuration (encryption, compression), and with other operations running, changes no answer of any later operation, also after reopening.",
 ["histories","configurations","schedules"],"every content and configuration, concurrent writers included",
 "Tests compact one small unencrypted database.",
 [L+"tasks/compactor.rs",L+"database.rs"],[("Compactor",L+"tasks/compactor.rs")],[],["all reads before and after"])
p("C21","Nothing is done without permission",
 "For a session with a given set of permissions, every operation either is allowed by those permissions on the resources it names and behaves as it does for an unrestricted session, or fails with permission denied and has no effect and returns no data, including when only one of several operations of a transaction is not allowed.",
 ["inputs","configurations"],"every set of permission statements and every operation and resource",
 "Tests check the actions of a few operations with all-or-nothing permission sets.",
 [L+"database.rs",L+"storage.rs",L+"database/keyvalue.rs",L+"database/pubsub.rs",S+"dispatch.rs",C+"permissions/bonsai.rs",C+"connection/has_session.rs"],[("check_permission in every operation",L+"database.rs")],[],["results and state under restricted sessions"])
p("C22","Only valid credentials give a session its rights",
 "Authentication succeeds exactly with the user's current password or a valid token proof, and the session obtained has exactly the union of the permissions granted through the user's groups, the groups of the user's roles and the authenticated default; adding, removing and re-adding groups and roles is reflected in sessions established afterwards. Sessions of other users or of a failed attempt gain nothing, and identities assumed need the permission to assume them.",
 ["histories","inputs"],"every history of user, group, role, password and token changes and authentication attempts",
 "Tests log one user in with one group.",
 [L+"storage.rs",L+"storage/token_authentication.rs",C+"admin/user.rs",C+"admin/role.rs",C+"admin/authentication_token.rs"],[("authenticate, assume_session",L+"storage.rs"),("effective permissions",C+"admin/user.rs")],[],["results of authenticate","what the session may do"])
p("C23","Encrypted data never appears in clear on disk",
 "When a collection or the storage is configured with an encryption key, no byte string stored in it (document contents, view keys and values, key-value entries) appears in clear in any file of the storage, the data reads back exactly, and it cannot be read without the master keys; compression, when configured, never changes what is read.",
 ["inputs","configurations","histories"],"every vault, compression and per-collection key configuration and every content",
 "Tests encrypt one document and check one wrong key.",
 [L+"vault.rs",L+"storage.rs",L+"database.rs",L+"open_trees.rs"],[("collection_tree and open_trees choose the vault",L+"database.rs"),("TreeVault",L+"storage.rs")],[],["bytes of the storage files","reads after reopening"])
p("C24","Every connection kind gives the same answers",
 "The same program of operations gives the same results, errors included, through the blocking local, the asynchronous local, and the remote (QUIC and WebSocket, asynchronous and blocking) connections; with many requests outstanding on one connection each caller gets the answer to its own request.",
 ["programs","schedules","configurations"],"every program of operations, with any number of concurrent requests per connection",
 "The shared test suite runs fixed programs sequentially on each kind.",
 [S+"dispatch.rs",S+"server.rs",S+"server/database.rs",K+"client.rs",K+"client/sync.rs",K+"client/remote_database.rs",C+"networking.rs",L+"async.rs"],[("request ids and outstanding requests",K+"client.rs"),("dispatch of each request",S+"dispatch.rs")],[],["results of every call"])
p("C25","Connections do not leak into one another",
 "On a server, what one connection does to its own session and subscriptions (logging in, assuming an identity, subscribing, dropping, disconnecting) changes nothing for other connections: each connection's requests run with the rights of its own session only, its subscribers get only their own messages, and after a disconnect nothing of it remains in force.",
 ["schedules","histories","fault_sequences"],"every interleaving of several connections authenticating, subscribing, publishing and disconnecting",
 "Tests use one or two connections one after the other.",
 [S+"server.rs",S+"server/connected_client.rs",S+"dispatch.rs",K+"client.rs",K+"client/remote_database/pubsub.rs"],[("per-connection session and subscriber tables",S+"server/connected_client.rs")],[],["results per connection","messages per subscriber"])
p("C26","Stored files hold what was written to them",
 "A file stored through the files crate reads back, from any position and through any way of reading, as the concatenation of what was written and appended to it minus what truncation removed; names and paths are unique, listings return exactly the files directly in, or anywhere under, a path, and moving, renaming and deleting affect exactly the file named.",
 ["histories","inputs"],"every sequence of file operations, sizes around the block size, and paths",
 "Tests cover one path layout and a few sizes.",
 [F+"direct.rs",F+"schema/file.rs",F+"schema/block.rs",F+"lib.rs"],[("blocks in insertion order, by-file view",F+"schema/block.rs"),("by-path unique view and prefix keys",F+"schema/file.rs")],[],["Contents readers, list, list_recursive, stats"])
p("C27","Keys sort as their values do",
 "For every key type offered, ids and view keys come back equal to what was stored, and listing or querying by range returns them in the natural order of the values: signed numbers, times, optional values, enumerations, strings, byte strings and combinations of them included.",
 ["inputs"],"every value of every key type, in particular boundaries, negatives and values one of which is a prefix of another",
 "Tests compare encodings of a few chosen values.",
 [C+"key.rs",C+"key/varint.rs",C+"key/time.rs",C+"document/id.rs","crates/bonsaidb-macros/src/lib.rs"],[("Key::from_ord_bytes, KeyEncoding::as_ord_bytes",C+"key.rs")],[],["order of list and query results"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
