#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand; the output is committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, B, R = "provider.go", "provider/bolt/provider.go", "provider/redis/provider.go"
BM, RM = "provider/bolt/metadata.go", "provider/redis/metadata.go"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech], "observe_at": list(observe), "hook_needed": hook}})

prop("C01", "Only genuinely signed, unaltered tokens are accepted",
 "A manager accepts a token for lookup or refresh only if its signature is the one its own signing method and key produce over exactly the identity and session part the token carries; every token altered in any part, spliced from two genuine tokens, or signed under another key or method is refused with an error before it can reach the store (another base64 spelling of the very same signature bytes is not an alteration). Every token the manager itself issues is accepted and belongs to the identity it was issued for. The stand-alone token encoding and decoding functions give the same guarantee and return exactly the identity and session id that were encoded.",
 ["inputs", "configurations"],
 "every single-character edit (substitution over the whole alphabet, insertion, deletion), truncation, part swap and splice of issued tokens, for every signing method, several keys (empty, short, longer than the hash block, one bit apart) and a set of identities; other spellings of the same signature bytes are not alterations",
 "the tests verify one token of one method with one key and never try an altered one",
 ["token.go", "manager.go", "cryptoer/encode.go", "cryptoer/hmac.go"],
 [("signature over id and session id, checked before use", "manager.go Get, Refresh; cryptoer/hmac.go Verify; cryptoer/encode.go Decode"), ("token splitting", "token.go Split")],
 observe=["Manager.Get", "Manager.Refresh", "cryptoer.Decode", "SigningMethod.Verify"])

prop("C02", "A session belongs to exactly one identity, whatever the identity is",
 "For every non-empty identity, however odd its characters, a session created for it is found, refreshed and destroyed only as that identity's session. An operation addressed to one identity never touches a session of a different identity, even when the identities contain separators or pattern characters, are prefixes of each other, or differ only in case or whitespace. The tokens of one identity are never accepted together with those of another.",
 ["inputs", "histories"],
 "all operation sequences up to the bound over pairs and triples drawn from a set of adversarial identities (separator, pattern characters, prefixes, case, control and non-ASCII bytes, long), through the manager and directly on every storage provider",
 "the tests use one or two plain identities such as \"1\" and never a hostile pair",
 ["manager.go", "coder.go", M, B, BM, R],
 [("identity is encoded before it becomes part of a token", "manager.go Create, Destroy"), ("per-identity index", "provider.go ids; provider/bolt/metadata.go appendIDS/deleteIDS"), ("key pattern by identity", "provider/redis/provider.go Destroy"), ("tokens must carry the same identity", "checkID in every provider; manager.go Refresh")])

prop("C03", "Access and refresh lifetimes are exact",
 "A session's access token is usable from its creation (or last refresh) until exactly the configured access lifetime has passed, from then on is reported as expired, and once the configured refresh lifetime has passed is reported as nonexistent for ever. Reading, writing, listing, deleting and checking all agree on this at every instant. Nothing except a successful refresh or re-creation moves either deadline, opening the store again with other lifetimes included.",
 ["histories", "configurations"],
 "all sequences up to the bound of session operations and clock steps, probed just before, at and after every deadline, for lifetimes with access shorter than, equal to and much shorter than refresh, on every storage provider and with and without the periodic sweep",
 "the tests sleep across one or two deadlines in real time with wide margins, for one operation each",
 [M, B, BM, R, RM, "provider_option.go"],
 [("deadlines stored with the session", "provider.go tokenValue; provider/bolt/metadata.go; provider/redis/metadata.go"), ("status test in every operation", "unsafeGet, unsafeCheck, getMetadata"), ("server-side expiry", "provider/redis/provider.go")],
 state=[("access and refresh deadline", "end of the usable and of the refreshable period", "per session in every provider")])

prop("C04", "Refresh rotates tokens atomically and only for the matching pair",
 "Refreshing with a session's current access and refresh token moves the session with all its data to the new pair, restarts both lifetimes, and makes the old pair unusable at once and for ever; it works as long as the refresh lifetime lasts, even after the access token expired. A refresh with any other token, an already used one, one of another session or identity, or after the refresh lifetime is refused and changes nothing. A refresh token by itself never gives access to session data.",
 ["histories", "inputs"],
 "all sequences up to the bound of creating, refreshing (right, wrong, reused and crossed pairs, onto fresh and existing targets), writing, destroying and clock steps, on every storage provider and through the manager",
 "the tests refresh one session once or twice with the right tokens",
 ["manager.go", M, B, BM, R, RM],
 [("old entry removed and new one inserted in one critical section, transaction or optimistic transaction", "Refresh in every provider"), ("refresh token stored with the session", "tokenValue, _Metadata")])

prop("C05", "Destruction is complete, precise and permanent",
 "After destroying a session by its token, or all sessions of an identity, every one of them is unusable at once, cannot be refreshed, stays gone under every later history that does not create it anew, and leaves nothing of itself in the store. Sessions that were not addressed keep their data, lifetimes and place. Destroying what does not exist is harmless.",
 ["histories"],
 "all sequences up to the bound over several sessions of the same identity, of an identity that extends it and of an unrelated one, mixing creation, refresh, both destructions, re-creation, eviction and time, on every storage provider",
 "the tests destroy one or two sessions in one fixed order",
 [M, B, BM, R, "manager.go", "session.go"],
 [("index by identity, by token and by age kept in step", "provider.go unsafePop, Destroy; provider/bolt/provider.go delete, deleteTokens; provider/redis/provider.go Destroy")],
 state=[("ids, tokens, lru", "three views of the same set of sessions", "provider.go, provider/bolt buckets")])

prop("C06", "Each session is an independent key-value map",
 "What a session returns for a key is always the last value successfully written to that key and not deleted since, absent keys are reported absent, and the list of keys is exactly the set of present ones without anything internal. Multi-key reads answer in the order asked, duplicates and repeated keys included, and multi-pair writes apply in order. No operation on one session ever changes or reveals data of another session.",
 ["histories", "inputs"],
 "all sequences up to the bound of creating with data, writing, deleting, reading, listing, refreshing and destroying over several sessions and over values and keys that are empty, nil, large, many, binary or look like internal names, on every storage provider",
 "the tests write a handful of short values to one session and read them back",
 [M, B, BM, R, "session.go"],
 [("per-session map, bucket or hash", "tokenValue.data; provider/bolt/metadata.go putData/getData/getKeys; redis hash fields"), ("reserved field kept out of the user's view", "provider/redis/provider.go checkKey")])

prop("C07", "The configured maximum size holds and evicts the oldest session",
 "With a maximum size configured, never more sessions than that are kept, and a creation that would exceed it removes exactly the session that was created or refreshed longest ago. Creation below the limit, re-creation of a present session, refreshing, reading and writing never remove any session, and destroyed or expired sessions give their place back. A store holding more than the limit it is opened with comes down to it, oldest first, with the next creation. Without a limit nothing is ever removed for space.",
 ["histories", "configurations"],
 "all sequences up to the bound for limits one to four of creating, re-creating, refreshing, destroying by token and by identity, clearing, reopening and clock steps with and without the sweep, on the providers that support a limit",
 "the tests fill one provider to one limit in one order",
 [M, B, BM, "provider_option.go"],
 [("age list, eviction before insertion", "provider.go Create/unsafePop; provider/bolt/provider.go Create/unsafePop"), ("persistent count", "provider/bolt/metadata.go increment/decrement")],
 state=[("count", "number of sessions kept, must equal the number of live entries", "provider/bolt store bucket")])

prop("C08", "Stored data shares no memory with callers",
 "Buffers, pair lists and key lists passed to any operation may be overwritten by the caller as soon as the call returns without changing what is stored. Values and key lists handed out stay unchanged whatever happens to the store afterwards (later writes, refresh, destruction, close), and overwriting or appending to one of them changes neither the store nor later answers nor anything else that was handed out. The same holds for the values a session handle decodes.",
 ["histories", "inputs"],
 "all sequences up to the bound in which every buffer handed in or out is overwritten after the call, and all sequences in which every buffer handed out is kept and compared at the end, on every storage provider and through session handles with slice, map and pointer values",
 "the tests never reuse or modify a buffer after a call",
 [M, BM, R, "session.go"],
 [("copy on the way in and out", "provider.go SetCopy, CopyKeys; provider/bolt/metadata.go getData; session.go Get")])

prop("C09", "Closing is final, complete and clean",
 "After a provider has been closed every operation on it, a second close included, fails with the provider-closed error, promptly and without effect; operations in progress during the close either complete normally or fail that way. Closing ends all background activity, releases what the provider itself opened, leaves a database or client that was handed to the provider usable for others, and nothing is written to a shared database afterwards. Persistent data survives the close.",
 ["histories", "schedules"],
 "all sequences up to the bound with a close at every position followed by every operation, and every interleaving (up to the preemption bound) of close with every other operation and with the background tasks, on every storage provider",
 "the tests close a provider once at the end, with nothing else going on",
 [M, B, R],
 [("done flag under the lock, closed channel or context for the background", "Close in every provider")])

prop("C10", "Concurrent use of a local provider is linearizable",
 "However operations on one in-memory or file-database provider overlap, together with the background reclamation and the passing of time, every operation's result and the state afterwards are as if the operations had been carried out one at a time in some order that respects their real-time order. In particular a successful refresh is won by exactly one caller, and no successful write is lost.",
 ["schedules"],
 "every schedule up to the preemption bound of all pairs of operations (and of triples and two-operation threads) on colliding sessions from several starting states, including starting states at and around expiry with a clock step as one of the participants",
 "the tests never use a provider from two goroutines",
 [M, B, BM],
 [("read-write lock around every operation", "provider.go, provider/bolt/provider.go"), ("one database transaction per operation", "provider/bolt/provider.go")])

prop("C11", "No schedule leads to a data race, panic or deadlock",
 "Used from any number of goroutines, providers, managers and the signing-method registry never read and write shared memory without synchronisation, never panic, and never block for ever, whatever the interleaving with background reclamation, the periodic sweep, clock steps and a concurrent close. Every call returns once the others have made progress, also when the reclamation queue is full or unbuffered.",
 ["schedules", "configurations"],
 "every schedule up to the preemption bound of all pairs of operations (plus close, sweep and clock steps) for queue sizes zero, one and many, run under the race detector with the scheduler's own hand-offs hidden from it",
 "the tests are single-threaded and are not run under a race detector",
 [M, B, R, "manager.go", "option.go", "cryptoer/signing_method.go"],
 [("locks, closed channel, select with close", "provider.go, provider/bolt/provider.go, provider/redis/provider.go"), ("registry lock", "cryptoer/signing_method.go")])

prop("C12", "Several clients of one redis server see one linearizable store",
 "However operations of several providers sharing one redis server overlap, at the granularity of single server commands and transactions, each operation's result and the data left behind are as if the operations on that session had been carried out one at a time in some order respecting real time; destroying an identity may take its sessions one after the other, but none that existed before the call survives it. No interleaving revives a destroyed or rotated session, loses a successful write, lets two refreshes of the same pair succeed, or leaves a session without its expiry.",
 ["schedules"],
 "every interleaving of server commands up to the preemption bound of all pairs of operations (and of triples) by different providers on colliding sessions, background deletion included",
 "there are no tests for this provider at all",
 [R, RM],
 [("optimistic transactions and single-command reads", "provider/redis/provider.go")])

prop("C13", "The file database survives any crash with all acknowledged changes",
 "Whatever instant the process or machine stops at, reopening the file database gives exactly the state after all acknowledged operations, plus possibly the complete effect of the one in progress, never part of it. The reopened store is fully usable: data, lifetimes, identity index, eviction order and size limit continue as if there had been no interruption. A clean close and reopen changes nothing.",
 ["crash_points", "histories"],
 "for every history up to the bound: every prefix of the file writes, every subset of writes not yet synced (with torn writes), reopened and compared with the reference, then used further",
 "the tests only reopen a cleanly closed file, if at all",
 [B, BM],
 [("one write transaction per operation covering all indexes", "provider/bolt/provider.go Create, Put, Refresh, Destroy, Delete, Clear, doClear, doCheck")],
 state=[("metadata, data, ids, lru, count", "must change together", "buckets of the store")])

prop("C14", "Dead sessions are reclaimed completely, live ones never",
 "A session whose refresh lifetime has passed is removed with everything that belongs to it when it is next touched, or at the latest by the next periodic sweep where one is configured (on redis, by the server's expiry), so the store does not grow with sessions of the past. Reclamation never removes or alters a session that is still alive, was refreshed in time or was created anew meanwhile. Any number of dead sessions is reclaimed, also when many are reported at once.",
 ["histories", "schedules", "configurations"],
 "all sequences up to the bound of creation, refresh, destruction, access and clock steps over several sessions and identities with sweep on and off and queue sizes zero, one and many, the complete store searched for remains; and every interleaving up to the preemption bound of reclamation with refresh and re-creation",
 "the tests look at a count after one expiry",
 [M, B, BM, R],
 [("background check of touched sessions, periodic sweep in age order, server-side expiry", "provider.go check/clear; provider/bolt/provider.go doCheck/doClear; provider/redis/provider.go delete")])

prop("C15", "A session handle always reflects its own operations",
 "Through one session handle, a read returns what that handle last wrote or what the store holds if the handle has not yet looked at the key; a key it deleted is absent, a failed operation changes no answer except that the handle may have to ask the store again, and preparing keys in advance changes no answer. A value is decoded afresh into whatever type the caller asks for, never depending on what was decoded before, and misuse (no pointer, pointer to pointer, missing key, undecodable value) is reported as an error.",
 ["histories", "inputs"],
 "all sequences up to the bound of put, delete, prepare (overlapping key sets), get into different types, keys, check and destroy on a handle, on fresh and on looked-up handles, with all coders and with the store or the coder failing at any step",
 "the tests put three values, prepare and get them once each with matching types",
 ["session.go", "coder.go", "manager.go"],
 [("per-handle cache of encoded values", "session.go Put, Prepare, Get, Delete")],
 state=[("keys", "cached presence and encoded value per key", "session.go Session")])

prop("C16", "Every built-in signing method works and the registry is faithful",
 "Each built-in signing method, used directly or looked up by its name, signs and verifies with exactly the keyed hash its name says, in any program that uses the package, for every key and text, and refuses keys of another type. A lookup returns what was last registered under exactly that name and nothing for unknown names, also while other methods are being registered.",
 ["inputs", "configurations", "schedules"],
 "all built-in methods times a set of keys and texts including empty, block-size boundary and long ones, against independent implementations; all registry histories up to the bound and all interleavings of lookups and registrations; in a program that links nothing but the package",
 "the tests use the default method only",
 ["cryptoer/hmac.go", "cryptoer/signing_method.go", "cryptoer/errors.go"],
 [("registration at start-up", "cryptoer/hmac.go init"), ("locked map", "cryptoer/signing_method.go")])

prop("C17", "Options combine consistently in any order",
 "Whatever options are given in whatever order, the access lifetime in effect never exceeds the refresh lifetime, the lifetime given last is honoured exactly, and every other option takes its last given value. Options given to one instance never influence another one, created before or after, and an instance keeps the options it was created with whatever the caller does afterwards with the slices they were made of. An instance created without an option has the documented default for it.",
 ["configurations"],
 "every ordered selection of up to three options from a set covering every option with small, large and equal lifetimes, for managers and all storage providers, observed through behaviour (lifetimes, eviction, signature, coding, location of the data)",
 "the tests give one or two options in one order",
 ["option.go", "provider_option.go", "provider/bolt/option.go", "provider/redis/option.go"],
 [("options applied in order onto a copy of the defaults", "NewManager, NewProvider, New")])

prop("C18", "Stores sharing one database or server are isolated by name",
 "Providers given different buckets of one file database, or different key prefixes on one redis server (none of them the beginning of another), behave as if each had its own store: no operation on one (destroying identities, clearing, eviction, sweep, close included) reads, changes or removes anything of the other or of foreign data beside it. Providers given the same name see the same sessions.",
 ["configurations", "histories"],
 "all sequences up to the bound over two providers on one database or server with different names (including bucket names that are prefixes of each other and key prefixes that contain pattern characters), with the same name, and beside foreign data",
 "the tests use one provider per database",
 [B, "provider/bolt/option.go", R, "provider/redis/option.go"],
 [("everything below one bucket", "provider/bolt/provider.go store"), ("key prefix on every key", "provider/redis/provider.go keyName")])

prop("C19", "A storage failure never half-applies an operation",
 "When the database file or the redis connection fails at any point of an operation, the operation reports an error rather than a wrong answer, and the store afterwards is either as before or as after the complete operation, never in between. Once the fault is gone every operation works normally again: nothing stays locked, leaked or poisoned.",
 ["fault_sequences"],
 "for every history up to the bound, a failure (refused connection, connection lost before or after the server executed, error reply; failed, short or unsynced file write) at every single point where the operations talk to the storage, with and without client retries",
 "no test injects a failure",
 [B, R],
 [("error returned from the transaction rolls it back", "provider/bolt/provider.go"), ("all effects of an operation in one server transaction", "provider/redis/provider.go")])

prop("C20", "Tokens are never repeated",
 "No two tokens issued by managers of one process, access or refresh, for the same or different identities, by creation or refresh, are ever equal, however fast or concurrently they are issued and even if the clock stands still or steps back. Every issued token has the three-part form that the package's own splitting function takes apart into the identity and signature it was made of.",
 ["histories", "schedules"],
 "all sequences up to the bound of creating and refreshing through one or two managers with the clock standing still, advancing by its smallest step or jumping, and all interleavings up to the preemption bound of two or three concurrent issuers",
 "the tests issue one token at a time in real time",
 ["token.go", "coder.go", "manager.go"],
 [("unique session id in every token", "coder.go newSessionID; token.go createToken")])

prop("C21", "Values survive the round trip through every coder and store",
 "Any value that survives a coder's own standard encoding and decoding, stored at creation or later, is returned equal to what was stored, whichever combination of coder and storage provider is used, through a new handle as well as through the one that stored it, after refresh and after reopening. A value the coder cannot represent is refused with an error and stores nothing.",
 ["inputs", "configurations"],
 "a set of values of every shape (zero values, extremes, empty and nil slices and maps, nested structures, pointers, text with markup, control and non-ASCII characters, large binary) times every coder times every storage provider times every path a value can take, all sequences up to the bound",
 "the tests store an int, a string and a slice with the default coder",
 ["coder.go", "manager.go", "session.go", M, BM, R],
 [("encode on the way in, decode on the way out", "coder.go, manager.go Create, session.go Put/Get")])

prop("C22", "A refused operation changes nothing",
 "An operation that reports an error because of what it was given (malformed, expired, unknown or mismatching tokens, reserved or unusable keys, unencodable values, closed provider) leaves every session, its data, deadlines, age order and index exactly as before, apart from reclaiming sessions already dead. This holds also when only a later part of its arguments is unacceptable.",
 ["inputs", "histories"],
 "all sequences up to the bound in which every kind of refused call is made at every position, the complete observable state and the following history compared with a run in which the call was not made, on every storage provider and through managers and handles",
 "the tests check the error of a few refused calls, not the state afterwards",
 [M, B, BM, R, "manager.go", "session.go"],
 [("validation before modification, transaction rollback", "every operation")])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
