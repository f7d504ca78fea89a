#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=["src/core/"+f if "/" not in f else f for f in files],
        state=[dict(name=a, meaning=b, where="src/core/"+c) for a,b,c in state],
        mechanism=[dict(name=a, where="src/core/"+b) for a,b in mech],
        observe_at=list(observe), hook_needed=hook)))

CONF="replies on the cache socket"; ST="counters of GET /"

prop("C01","A read returns the last acknowledged value of exactly that key",
 "After an upload of a key is acknowledged with 200, every GET of that key returns byte for byte the uploaded value with its exact Content-Length (and HEAD the same headers without a body) until the key is overwritten, deleted, expired or evicted, and 404 after it is gone. This holds for any history of uploads, overwrites with values of other sizes (across the 4096 byte boundary between block and file storage), deletes and reads on any number of connections.",
 ["histories","inputs"],"every history of PUT/GET/HEAD/DELETE over several tables and keys, every value size from 1 byte to several buffers, overwriting in every direction between small and large values",
 "The scenarios put and get a handful of fixed keys with fixed sizes in one order; a wrong value after a particular sequence (block reuse after a size change, stale descriptor, wrong offset) needs histories nobody wrote down.",
 ["http_parse_cache.cpp","http_respond.cpp","db.cpp"],
 [("db_entry_get_read / db_entry_get_write","db.cpp"),("db_target_open: file, or offset of the block","db.cpp"),("http_cache_handle_request_body, http_respond_contentbody","http_parse_cache.cpp")],
 [("cache_entry","key, size, block or file, expiry","db_structures.h")],[CONF])
prop("C02","Keys and tables never alias, also when their hashes collide",
 "Operations on one key of one table never change or reveal another key or another table: a key or a table name is equal to another only if it is the same byte string. Keys whose hashes collide may displace one another in the cache, but a request for a key is never answered with another key's value and never deletes another key, and tables whose name hashes collide are fully independent.",
 ["inputs","histories"],"all pairs of key and table names, in particular names with equal 32 bit hashes, names that are prefixes of one another, very long names and names with unusual bytes, in all histories",
 "No test uses colliding names; collisions of the 32 bit hash do not occur by chance in tests.",
 ["db.cpp","hash.cpp"],[("name comparison after hash lookup","db.cpp db_entry_get_read/db_entry_get_delete"),("open addressing of tables, db_table_find","db.cpp")],
 [("cache_hash_set, tables","hash to entry / table","db_structures.h")],[CONF,ST])
prop("C03","A response once begun delivers one complete version of the value",
 "A GET that has resolved its key delivers exactly the value, length and remaining ttl that key had at that moment, however slowly the client reads and whatever is done to the key, its table or the storage meanwhile (overwrite, delete, table delete, expiry, eviction, save, reuse of freed space). A value that is being delivered is never mixed with another one.",
 ["schedules","histories"],"every interleaving of a slow or stalled reader (stalled before the end of its headers or inside the body) with any operations of other connections",
 "Tests read responses at once, on one connection; the interesting schedules stall a reader while its storage is freed and reused.",
 ["db.cpp","http_respond.cpp","http_parse_cache.cpp"],[("reference counts delay freeing of blocks and entries","db.cpp db_entry_incref/db_entry_deref"),("open descriptor outlives the unlinked file","db.cpp db_target_open")],
 [("refs, deleted","entry lifetime","db_structures.h"),("free_blocks","blocks that may be reused","db.cpp")],[CONF,ST])
prop("C04","Uploads are atomic: all or nothing, one writer at a time",
 "A value becomes visible only when its whole body has been received, and then completely: while a key is being uploaded it is answered 404, an upload that ends early (connection lost, server stopped) leaves the key absent, and starting an upload removes the previous value. A second upload of a key while a first one is in progress is accepted and acknowledged but never stored or mixed in, and an upload whose key or table is deleted while it runs is acknowledged but leaves the key absent.",
 ["schedules","histories"],"every interleaving of several uploads of the same and different keys at any stage (table, key, headers, parts of the body) with reads, deletes, table deletes, aborts and collection",
 "The tests have a few interleavings of two connections (put-put, put-delete); stages and orders beyond those are not reached.",
 ["http_parse_cache.cpp","db.cpp"],[("entry->writing, connection->is_writing","http_parse_cache.cpp http_cache_handle_request_body, cache_destroy"),("db_complete_writing","db.cpp")],
 [("writing, deleted","upload in progress / key gone","db_structures.h")],[CONF,ST])
prop("C05","Deletes remove exactly what they name",
 "DELETE of a key answers DELETED and removes that key if it is present, and 404 otherwise; DELETE of a table answers DELETED and removes all of its keys, including ones being uploaded, and 404 if there is no such table; BULK removes exactly the named keys that are present. Nothing else is removed, and a table exists exactly as long as it holds keys (or a request is just storing its first), whichever requests are in flight on it.",
 ["histories","schedules"],"all histories and interleavings of key deletes, table deletes, bulk deletes (any set of present and absent keys), uploads and reads in any stage on several connections",
 "Tests delete one key or one table between complete requests; deletes that meet requests in flight or tables that become empty and are created again are not reached.",
 ["db.cpp","http_parse_cache.cpp"],[("db_entry_handle_delete, db_table_handle_delete","db.cpp"),("db_table_refresh","db.cpp")],
 [("table refs, deleted","table lifetime","db_structures.h")],[CONF,ST,"files directory"])
prop("C06","A table listing names every key exactly once and nothing else",
 "GET of a table lists each key of the table exactly once and no other key, with X-Entries telling their number, and then closes the connection; X-Limit bounds the number of keys and X-Start skips that many, so that consecutive pages over an unchanged table partition its keys. A missing table is answered 404, and the listing is right whatever was inserted and deleted before and whatever is deleted while it is sent.",
 ["histories","inputs"],"all contents a table can reach through inserts and deletes (any number of keys, any bucket layout), all X-Start and X-Limit values, slow readers",
 "The tests list tables of two keys; the layout of the hash table, its growth and deletions decide what a listing visits.",
 ["http_respond.cpp","http_parse_cache.cpp"],[("http_respond_listing*","http_respond.cpp")],
 [("cache_hash_set","keys of a table","db_structures.h")],[CONF])
prop("C07","Time to live is exact, reported, and survives restarts",
 "A key uploaded with X-Ttl t at time s (seconds) is served until and including second s+t, reporting the remaining seconds as X-Ttl, and from second s+t+1 on is answered 404 and collected; a key uploaded without a ttl never expires and reports 0, also if the value it replaces had one. The deadline counts from the upload, is unaffected by reads and by saving and loading, and the expiry of one key never affects another.",
 ["histories","inputs"],"all ttl values, all points in time relative to the deadline, all histories including overwrite with and without ttl, restart before and after the deadline, and collection passes over several tables",
 "Tests wait a second or two of real time for one key; the boundary second, overwrites and restarts are not visited.",
 ["db.cpp","http_parse_cache.cpp","http_respond.cpp"],[("expires check on read","db.cpp db_entry_get_read"),("expire cursor","db.cpp db_expire_cursor"),("X-Ttl","http_respond.cpp http_respond_expires")],
 [("expires","deadline, 0 for none","db_structures.h")],[CONF,ST])
prop("C08","The size limit is enforced by evicting least recently used values",
 "When a collection runs with more bytes stored than the configured maximum, values are removed in the order of their last use (completed upload or successful GET or HEAD), least recent first, until at least the excess plus the configured fraction of the maximum has been removed, and no further; below the maximum nothing is evicted. Expired values go first, uploads in progress are not evicted, values being sent are still delivered, and collections run often enough that a stream of uploads keeps the store bounded.",
 ["histories","configurations"],"all histories of uploads, reads and deletes with any sizes, all maxima and fractions",
 "The lru test only checks that the server does not crash.",
 ["db.cpp","settings.cpp"],[("db_lru_gc, db_lru_cleanup_percent","db.cpp"),("db_lru_hit, db_lru_insert","db.cpp")],
 [("lru_head..lru_tail","order of use","db.cpp"),("db_size_bytes","bytes stored","db.cpp")],[CONF,ST])
prop("C09","Accounting is exact and nothing leaks",
 "The reported numbers of keys, tables, stored bytes, used blocks (existing minus free), gets, inserts and deletes always equal what the requests so far imply, counting uploads in progress. When no request is in flight, every used block and every file of the store belongs to a present key (blocks to values up to 4096 bytes, files to larger ones), so space and descriptors are released whenever a value is overwritten, deleted, expired, evicted or its upload fails, and freed blocks are used again before the block file grows.",
 ["histories","schedules"],"all histories and interleavings, including hundreds of keys (so that the block file shrinks), aborted uploads and deletes of keys that are being uploaded or read",
 "Tests do not look at the counters or the disk after complex histories; leaks show only in the sums.",
 ["db.cpp"],[("db_block_allocate_new, db_block_free","db.cpp"),("db_entry_handle_delete, db_entry_handle_softdelete, db_target_write_allocate","db.cpp")],
 [("db_details","counters and free list","db.h")],[ST,"files directory","open descriptors"])
prop("C10","Framing is independent of how bytes are split or spaced",
 "The effect of a request and its reply depend only on its bytes, not on how they are cut into network reads: any split of a request or a pipelined sequence of requests, at any byte and relative to the internal buffer, gives the same replies and the same state as sending it at once. Line ends may be CRLF or LF, header names known to the server act wherever they stand among others, and unknown headers are ignored.",
 ["inputs","schedules"],"every way to cut a byte stream into reads, every alignment of it with the circular input buffer, requests of every legal shape up to the buffer size",
 "Tests send most requests in one write, a few with one split; cut points inside tokens and buffer wrap-around are not enumerated.",
 ["http.cpp","http_parse.cpp","http_parse_cache.cpp","read_buffer.h","read_buffer.cpp"],[("incremental handlers, RBUF_ITERATE","http_parse_cache.cpp"),("http_read_handle loop","http.cpp")],
 [("handler, state","parser position of a connection","connection_structures.h")],[CONF,ST])
prop("C11","Pipelined requests are answered in order, each exactly once",
 "On a kept-alive connection every complete request gets exactly one reply, replies come in the order of the requests, and every request sees the effects of the ones before it, however many requests are sent ahead and even if the client shuts down its sending side after the last one. A reply is followed by nothing but the next reply.",
 ["inputs","histories","schedules"],"all sequences of requests of all kinds sent ahead (any total size), with or without waiting, with or without half close, on several connections",
 "Tests wait for each reply before sending the next request.",
 ["http.cpp","http_respond.cpp","connection.cpp"],[("http_register_read runs what is already buffered","http_respond.cpp"),("http_read_handle","http.cpp")],
 [("input, epollin, epollout","what a connection is doing","connection_structures.h")],[CONF])
prop("C12","A clean stop and start preserves the whole cache",
 "After a stop by SIGTERM or SIGINT and a start on the same directory, exactly the keys that were completely uploaded and still present are there, with the same values, tables and deadlines, for every name and size and however often this is repeated; uploads in progress are gone. The new process accounts for exactly these keys, and continues to store, overwrite and delete without harming any of them.",
 ["histories","inputs"],"all cache contents reachable by any history (names of any length and bytes a request line can carry, sizes on both sides of 4096), any number of stop/start cycles with changes between them",
 "No test restarts the server.",
 ["db.cpp"],[("db_close, db_index_flush","db.cpp"),("db_load_from_save","db.cpp")],
 [("index.save, blockfile.db.save","saved state","db.cpp")],["replies after restart",ST,"files directory"])
prop("C13","A crash at any instant leaves a loadable, consistent save",
 "If the server or its saving child is killed at any file system operation or between them, the next start succeeds and serves exactly the contents of the last finished save or of the one in progress (or, only within the switch from one to the other, nothing), except that large values deleted or overwritten since may be missing. No key is ever answered with a value that was not uploaded under that key, and values never mix.",
 ["crash_points","histories"],"every file system operation of a save (in the server and in its child) and of ordinary operation as crash point, for histories with several saves, overwrites and deletes between them",
 "No test kills the server.",
 ["db.cpp"],[("write temp files, then rename block file and index","db.cpp db_index_flush"),("db_load_from_save ignores what does not exist","db.cpp")],
 [("index.temp/.save, blockfile.db.temp/.save","steps of a save","db.cpp")],["replies after restart"])
prop("C14","A background save is a consistent cut",
 "A save records the contents at the moment it was started: requests handled while it is written (uploads, overwrites, deletes, reuse of space) do not leak into it or damage it, except that large values removed meanwhile may be missing from it. While one save is running no second one is started, every save ends, and serving requests never waits for the writing child.",
 ["schedules","crash_points"],"every interleaving of a save in progress with requests of all kinds, including further collections",
 "Tests never look at what was saved.",
 ["db.cpp","timer.cpp"],[("copy of the block file and fork","db.cpp db_index_flush"),("currently_flushing, SIGCHLD","db.cpp")],
 [("current_flush","running save","db.cpp")],["replies after restart","files"])
prop("C15","Monitoring streams count every period and survive stuck peers",
 "Each connection that asked for /conn on the monitoring port gets one header and then, every 5 seconds from its own start, the next number 0, 1, 2, ... each on a line, with no number lost, repeated or out of order, ended by a line q when the server stops; other URLs are answered at once, and what clients send while streaming is ignored. A peer that does not take its data for a whole period is disconnected, without any effect on the other streams or on the cache.",
 ["schedules","fault_sequences"],"all numbers of streams, start times, disconnects and stalls at any period, clock steps, and interleavings with cache requests",
 "No test uses the monitoring port over time.",
 ["http_parse_mon.cpp","timer.cpp","connection.cpp"],[("monitoring_check, monitoring_add, monitoring_destroy","http_parse_mon.cpp"),("timer_handler","timer.cpp")],
 [("mon_head..mon_tail, scheduled, current","streams by next due time","http_parse_mon.cpp")],["replies on the monitoring socket"])
prop("C16","Malformed or aborted input hurts only its own connection",
 "Whatever bytes a client sends and whenever it disconnects, the server keeps running and answering the others, no key that the connection was not legitimately changing is changed, and nothing stays allocated for the connection. Invalid requests are answered with 400 and the connection is closed, without running any of the remaining bytes as requests; in particular body bytes are never taken for requests.",
 ["inputs","fault_sequences"],"all byte sequences (bad methods, URLs, lengths, numbers, over-long lines), cut off at every byte, on any number of connections",
 "Tests send well formed requests, and close connections in a few places.",
 ["http_parse_cache.cpp","http_parse.cpp","http.cpp","connection.cpp"],[("400 templates and close_after_write","http_parse_cache.cpp"),("cache_destroy","http_parse_cache.cpp")],
 [("handler, input","parser position and unread bytes","connection_structures.h")],[CONF,ST,"open descriptors"])
prop("C17","Shutdown is prompt, complete and clean",
 "On SIGTERM or SIGINT at any moment (idle, requests in any stage, slow readers, monitoring streams, a save in progress) the server stops by itself within a bounded time with status 0, closes every connection, tells streams q, removes its pid file unless told to leave it, and has saved the cache. While running, the pid file holds its pid.",
 ["schedules","configurations"],"every state of connections and saves at the moment of the signal, with and without pid file options",
 "The tests only stop the server at the end, and check neither its status nor what it left.",
 ["connection.cpp","signal_handle.cpp","db.cpp","src/server/scache.cpp"],[("stop_soon","signal_handle.cpp"),("connection_cleanup, db_close","connection.cpp")],
 [("stop_soon","stop requested","signal_handle.cpp")],["exit status","pid file","save"])
prop("C18","The input buffer is an exact bounded FIFO of bytes",
 "The circular input buffer returns exactly the bytes put into it, in order, for every sequence of writes and reads and every position of its 16 bit cursors (including full, empty, wrapped buffers and cursor overflow): the amounts readable and writable always sum to its size, copying and comparing see the same bytes as reading one by one, and parsing a number yields the decimal value of exactly the given digits or fails if there is another byte or it does not fit.",
 ["histories","inputs"],"all sequences of operations, all cursor positions and all buffer sizes that are powers of two",
 "The unit tests visit some dozens of positions; the combinations of wrap, full and lengths are not enumerated.",
 ["read_buffer.cpp","read_buffer.h"],[("RBUF_* macros and rbuf_* functions","read_buffer.h")],
 [("read_position, write_position","cursors","read_buffer.h")],["return values"])
prop("C19","Responses arrive complete and unaltered through any short write",
 "However few bytes the socket accepts at a time, and however often it accepts none, every response (headers, body, listing, statistics, fixed replies, monitoring lines) arrives exactly once, complete, in order and unaltered, and the connection can then be used for the next request. A client that stops reading does not keep others from being served.",
 ["fault_sequences","inputs"],"every sequence of partial writes and refused writes, for every kind of response and every size",
 "The loopback sockets in tests take any response in one write.",
 ["http.cpp","http_respond.cpp"],[("http_write_handle","http.cpp"),("http_respond_contentbody: sendfile from a position","http_respond.cpp")],
 [("output_buffer, output_length, position","what is left to send","connection_structures.h")],[CONF])
prop("C20","A storage failure is never acknowledged and never served",
 "If a value can not be stored completely (a write to the store fails or is short at any point), its upload is not acknowledged with 200 and the key reads as 404, all other keys keep their values, and the server keeps serving; storing works again as soon as the failure is over. If a save fails, the last good save stays what a restart loads.",
 ["fault_sequences","histories"],"every point at which writing a value or a save can fail or be cut short, for small and large values, in any history",
 "Tests never see a failing disk.",
 ["http_parse_cache.cpp","db.cpp"],[("result of write checked","http_parse_cache.cpp http_cache_handle_request_body"),("full_write, renames only after a complete index","db.cpp db_index_flush")],
 [("position","bytes stored so far","connection_structures.h")],[CONF,ST])
prop("C21","The server listens exactly where it is told, and nowhere else",
 "For every list of addresses given with -b and -B (IPv4 and IPv6 addresses with a port, paths of Unix sockets, any number of them in any order) the server listens on exactly the endpoints listed and no others: those of -b take cache requests, those of -B only monitoring requests, and every user may connect to the Unix sockets. A list of which any element is not such an address (no or a bad address, no port or one that does not exist, a path that does not fit into a socket address) makes the start fail with a non-zero status: the server never listens on something else instead. After any end, a kill too, it can be started again at once on the same endpoints.",
 ["configurations","inputs"],"every list of endpoints for both options, right ones and ones with a mistake anywhere, and repeated starts after stops and kills",
 "The tests always use one and the same -b address; another kind of address, a second one, or a mistake in a list is never tried.",
 ["settings.cpp","connection.cpp"],[("parse_binds: the list one character after the other","settings.cpp parse_binds"),("one listener per element, of its kind","connection.cpp connection_setup, connection_open_bind")],
 [("scache_bind: family, address, port","one element of a list","settings.h"),("scache_listeners","sockets and their kind","connection.cpp")],["listening sockets of the process","exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
