#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))


prop('C01', 'An inter-thread pipe delivers exactly the bytes written to it',
     'The bytes a pipe hands to its readers (sized reads, reads into a buffer, read-to-end and '
     'read-until-delimiter) are, in order, exactly the bytes its write calls reported as accepted: nothing is '
     'lost, duplicated, reordered or invented. End of file is reported only when EOF was written and every '
     'accepted byte has been read, and nothing is accepted after EOF or close. The buffered amount and the '
     'writable space it reports always follow from bytes accepted, bytes read and the configured size.',
     ['schedules', 'inputs', 'histories'],
     'every interleaving of a writer thread, one or more reader threads and observer threads, every chunking of '
     'the data, every buffer size, and blocking and non-blocking modes on either end',
     'unit tests drive the pipe from one thread, or from two threads under whichever interleaving the OS picks, '
     'with a handful of fixed chunkings',
     ['pyslet/streams.py'],
     [('condition variable around the chunk list, size counter and read offset', 'pyslet/streams.py Pipe')],
     ['return values of the read and write calls, and of the buffered/canwrite/canread/empty queries'])
prop('C02', 'Pipe operations wake, time out and never hang',
     'A blocked pipe read, write, flush or wait returns once data, space, EOF or close makes it possible; '
     'otherwise it raises a timeout error no earlier than its timeout and promptly after it, and an operation on '
     'an end in non-blocking mode never blocks. Blocking modes change only when the caller changes them. The '
     'reader-arrival event is set whenever a reader reads or the pipe closes, so a writer that was told the pipe '
     'is full and then waits on the event is always released.',
     ['schedules', 'histories', 'configurations'],
     'every interleaving of readers, writers, waiters and a closer, and every timeout setting including none',
     'a missed wake-up needs one particular interleaving and then shows as a hang; tests cannot enumerate schedules '
     'or wait out time-outs',
     ['pyslet/streams.py'],
     [('notify_all on every state change, state counters', 'pyslet/streams.py Pipe.write/read/readmatch/close'),
      ('deadline loops', 'pyslet/streams.py Pipe.wait, write, flush, readinto, readmatch')],
     ['simulated time at which each operation returns or raises'])
prop('C03', 'Stream wrappers reproduce their source however it fragments or blocks',
     'A buffering stream wrapper returns exactly the bytes of its source in order, whatever read sizes the caller '
     'uses and however the source fragments its reads or reports that it would block; a block is reported as a '
     'block and never as end of file. It is seekable, with a length, exactly when the end of the source was '
     'reached before its buffer filled, and then seek, tell, peek and read behave as on a file holding those bytes.',
     ['inputs', 'histories', 'fault_sequences'],
     'every source content, fragmentation, blocking pattern, buffer size and sequence of read/seek/peek calls',
     'tests use a few well-behaved sources; the guarantee is over every fragmentation and would-block pattern',
     ['pyslet/streams.py'],
     [('initial fill loop, overflow flag, fall-through to the source', 'pyslet/streams.py BufferedStreamWrapper')],
     ['bytes and positions returned'])
prop('C04', 'HTTP messages survive any fragmentation of the connection',
     'A received HTTP request or response yields the same start line, headers and exact entity body, and consumes '
     'exactly its own bytes from the connection, however the byte stream is split and wherever reads or body '
     'writes would block, for content-length, chunked and read-until-close framing. A message sent produces a '
     'well-formed byte stream that decodes to the same headers and body whatever the body source and however the '
     'output is consumed. A message cut off by the end of the connection raises an error, or is left incomplete, '
     'and is never presented as complete.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every message, fragmentation, would-block pattern of source and sink, and truncation point',
     'tests feed whole messages or one fixed split; the split points, blocked sinks and truncation points are '
     'unbounded',
     ['pyslet/http/messages.py'],
     [('receive state machine', 'pyslet/http/messages.py Message.recv_mode/recv'),
      ('send state machine', 'pyslet/http/messages.py Message.send_*'),
      ('chunk decoding/encoding', 'pyslet/http/messages.py ChunkedReader/ChunkedSender')],
     ['parsed message fields, body bytes delivered, bytes put on the wire'])
prop('C05', 'A server request body reader yields exactly the request body',
     'The request-body stream a web application reads from (content-length, chunked or empty) yields exactly the '
     'body sent, for any mix of read, readline, iteration and seek-back calls and however the server\'s input '
     'fragments; it never consumes bytes beyond the end of the body and reports end of file only there. A chunked '
     'body cut short by the end of the input raises an error rather than ending as if complete.',
     ['inputs', 'histories', 'fault_sequences'],
     'every body, framing, input fragmentation, truncation point and sequence of read calls',
     'tests use complete in-memory inputs that always return the full amount asked for',
     ['pyslet/http/messages.py'],
     [('input wrapper', 'pyslet/http/messages.py WSGIInputWrapper'),
      ('chunked reader', 'pyslet/http/messages.py ChunkedReader')],
     ['bytes returned to the application, bytes consumed from the server input'])
prop('C06', 'Every HTTP client request gets its own response or fails visibly',
     'When an HTTP client request finishes with a status, its status, headers and body are exactly those the '
     'server produced for that request, whichever threads share the client and whatever the connection reuse, '
     'fragmentation, resets, stalls and interim responses. A response cut short by a lost connection is never '
     'presented as a complete success. A request that cannot be completed ends with an error recorded rather than '
     'with another request\'s data.',
     ['schedules', 'fault_sequences', 'histories'],
     'every interleaving of client threads and server, and every sequence of connection faults',
     'tests use one loopback server and fault-free connections; mixed-up or truncated responses need a particular '
     'fault at a particular byte',
     ['pyslet/http/client.py', 'pyslet/http/messages.py'],
     [('request queue, connection task state machine', 'pyslet/http/client.py Connection.connection_task'),
      ('response/request pairing', 'pyslet/http/client.py Connection.response_queue')],
     ['status, headers, body and error of each request; requests seen by the server'])
prop('C07', 'The HTTP client only repeats requests that are safe to repeat',
     'However connections fail, a request whose method is not idempotent is never delivered to the server a second '
     'time by the client\'s automatic resend once any of it may have been processed, unless the server itself asked for it (an '
     'authentication challenge or a redirect). Idempotent requests that hit a connection closed before any '
     'response are retried a bounded number of times and succeed when a later connection works. A request body is '
     'resent from its beginning, byte for byte.',
     ['fault_sequences', 'schedules'],
     'every method, body, connection failure point, connection reuse history and timing',
     'a double POST needs a connection to fail after the request was sent but before the response; tests never '
     'inject that',
     ['pyslet/http/client.py'],
     [('retry decision', 'pyslet/http/client.py ClientRequest.disconnect, Connection.close'),
      ('idempotency table', 'pyslet/http/messages.py/Request')],
     ['requests parsed by the server, keyed by a unique id per request'])
prop('C08', 'The HTTP client pool stays within limits and always makes progress',
     'A client never has more simultaneous connections than its maximum, never lets two threads drive the same '
     'connection at once, and every request waiting for a connection is served once one becomes free or fails '
     'with its stated time-out. After faults stop, every queued request finishes within bounded time; a silent '
     'peer is abandoned after the time-out. Closing the client, or cleaning up idle or overdue connections, closes their '
     'sockets and releases waiting threads.',
     ['schedules', 'fault_sequences', 'configurations'],
     'every interleaving of threads using, cleaning up and closing one client, every pool size and time-out',
     'pool accounting errors need particular interleavings of threads, idle clean-up and failures',
     ['pyslet/http/client.py'],
     [('connection pool lists and lock', 'pyslet/http/client.py Client.queue_request/_start_thread/_delete_idle'),
      ('time-outs', 'pyslet/http/client.py Client.thread_task, active_cleanup, idle_cleanup')],
     ['simulated sockets open per client, completion time of each request'])
prop('C09', 'The HTTP server answers each request once, in order, with its own body',
     'On every connection the server sends one response per request, in request order, each carrying exactly what '
     'the application produced for that request, and calls the application exactly once per complete request with '
     'exactly that request\'s method, target, headers and body, however the bytes fragment, pipeline or interleave '
     'with other connections. An application failure yields an error response or a visibly broken connection, never a '
     'response that looks complete but is not, and it does not disturb other connections. A request to close the '
     'connection is honoured.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every interleaving of connection, application and client steps, every fragmentation and pipelining',
     'tests use one thread at a time over scripted buffers; order and isolation depend on schedules and on where '
     'bytes split',
     ['pyslet/http/server.py', 'pyslet/http/messages.py', 'pyslet/streams.py'],
     [('per-connection reader/app/writer state machine', 'pyslet/http/server.py Connection'),
      ('pipes between connection and app threads', 'pyslet/streams.py Pipe')],
     ['bytes read by simulated clients, calls seen by the application'])
prop('C10', 'The HTTP server bounds its connections and releases them',
     'The server never serves more simultaneous connections than configured, turns away the excess with a service '
     'unavailable response, and accepts again once connections end. A stalled or vanished client is dropped after '
     'the time-out, its connection slot and threads are released, and other clients keep being served in bounded '
     'time throughout.',
     ['schedules', 'fault_sequences', 'configurations'],
     'every connection limit, interleaving, and pattern of stalled, reset or half-closed clients',
     'leaks show only after particular failures; tests never stall a client for the time-out or count slots '
     'after faults',
     ['pyslet/http/server.py'],
     [('connection table and limit', 'pyslet/http/server.py Server'),
      ('time-outs', 'pyslet/http/server.py Connection')],
     ['connections served at once, threads alive, time to serve a probe request'])
prop('C11', 'A block store returns exactly the block stored under a key',
     'A block retrieved from a block store under a key is byte for byte the block whose hash is that key, or a '
     'block-missing error: never torn, empty or other data, whatever crash, disk error or concurrent store and '
     'delete happens at any point. A block acknowledged by store and not deleted since is retrieved intact, also '
     'after a restart; storing an existing block changes nothing, and a block over the maximum size is refused and '
     'leaves no trace.',
     ['crash_points', 'schedules', 'fault_sequences', 'histories'],
     'every crash point inside a store, every disk fault, every interleaving of stores, retrieves and deletes',
     'tests store and read back on a healthy disk from one thread at a time',
     ['pyslet/blockstore.py'],
     [('write to a temporary file then rename', 'pyslet/blockstore.py FileBlockStore.store'),
      ('insert-if-absent', 'pyslet/blockstore.py EDMBlockStore.store')],
     ['retrieve results; files visible after a simulated crash'])
prop('C12', 'A named lock has one holder at a time',
     'While a lock obtained from the lock store is younger than its lifetime no other thread or process obtains '
     'it; once released, or older than its lifetime because its holder died, a contender obtains it. At most one '
     'contender takes over a stale lock, a release only ever removes the caller\'s own lock, and an attempt either '
     'succeeds or raises the lock error within about its time-out.',
     ['schedules', 'crash_points', 'histories'],
     'every interleaving of contenders in several processes, holders that crash or stall, and small clock skews',
     'mutual exclusion is a statement over all schedules; tests take locks from one or two threads under one '
     'schedule',
     ['pyslet/blockstore.py', 'pyslet/odata2/sqlds.py', 'pyslet/odata2/memds.py'],
     [('insert with unique key', 'pyslet/blockstore.py LockStore.lock'),
      ('optimistic update of created time', 'pyslet/blockstore.py LockStore.lock/unlock')],
     ['lock/unlock history in simulated time'])
prop('C13', 'A stored stream reads back exactly what was written to it',
     'A stream in the stream store behaves as a file: after any sequence of writes, seeks, overwrites, truncating '
     're-opens and appends, reading it returns exactly the bytes of the reference file, and its recorded size '
     'and (where present) MD5 match them. Deleting or changing one stream never removes or alters data another '
     'stream still refers to, under any interleaving, and data no stream refers to is removed.',
     ['schedules', 'histories', 'inputs'],
     'every operation sequence, block size and interleaving of threads working on streams that share blocks',
     'tests write and read two or three fixed streams from one thread',
     ['pyslet/blockstore.py'],
     [('block lists, reference check under lock', 'pyslet/blockstore.py StreamStore'),
      ('block-aligned buffered file', 'pyslet/blockstore.py BlockStream')],
     ['bytes read, size and md5 properties, keys present in the block store'])
prop('C14', 'The in-memory data service is linearizable and referentially intact',
     'Concurrent operations on an in-memory entity container (insert, read, update, delete, stream and link '
     'operations) are equivalent to some one-at-a-time order consistent with real time: no lost or half-applied '
     'change, no duplicate key, and automatic keys are unique. Both ends of every association always agree, its '
     'multiplicity limits are never exceeded, no link refers to an entity that is gone, and a failed operation '
     'changes nothing.',
     ['schedules', 'histories'],
     'every interleaving of threads operating on linked entity sets',
     'the container promises thread-safety, which only schedule exploration can confirm; tests are single threaded',
     ['pyslet/odata2/memds.py'],
     [('container lock and deletion marks', 'pyslet/odata2/memds.py EntityStore/InMemoryEntityContainer'),
      ('association index pairs', 'pyslet/odata2/memds.py AssociationIndex')],
     ['results of operations from each thread, final state of all sets and links'])
prop('C15', 'SQL data service changes are atomic, durable and equal to the model',
     'An insert, update, delete or link change in the SQL data service, including one that touches several tables, '
     'happens completely or not at all, whichever statement, commit or connection fails and wherever the process '
     'crashes. Once the call returns the change survives a crash and every later read from any thread sees it; if '
     'the call raised, reads see the state before it (or, only where the commit itself failed, after it).',
     ['crash_points', 'fault_sequences', 'histories'],
     'every operation sequence over linked entity sets, every failing SQL statement or commit, every crash point',
     'tests never make an SQL statement, commit or connection fail part-way nor reopen after a crash',
     ['pyslet/odata2/sqlds.py'],
     [('transaction begin/execute/commit/rollback', 'pyslet/odata2/sqlds.py SQLTransaction'),
      ('multi-table insert/update/delete', 'pyslet/odata2/sqlds.py EntityCollection')],
     ['rows visible through a fresh container after each operation, fault or crash'])
prop('C16', 'SQL connection pool: exclusive use, bounded size, no leaks',
     'The SQL container never lets two threads use one pooled database connection at the same time, never opens '
     'more connections than the configured maximum, and serves every thread that waits for one once another is '
     'released. Failures to connect, failing statements and threads that end while holding a connection never '
     'reduce the number of connections available later, and closing the container closes every connection.',
     ['schedules', 'fault_sequences', 'configurations'],
     'every interleaving of threads opening nested collections, failing, dying and closing',
     'pool corruption needs particular interleavings and failures; the tests open a few collections in order',
     ['pyslet/odata2/sqlds.py'],
     [('pool lists and lock', 'pyslet/odata2/sqlds.py SQLEntityContainer.acquire_connection/release_connection'),
      ('pool cleaner', 'pyslet/odata2/sqlds.py SQLEntityContainer.pool_cleaner/close')],
     ['connections open and in use by thread'])
prop('C17', 'Optimistic concurrency never loses an update',
     'When entities carry a fixed-concurrency property and several clients of a data service read, modify and '
     'write back the same entity, each successful update was based on the version immediately before it: a '
     'write based on an out-of-date version is refused with a concurrency (constraint) error and changes nothing. After a '
     'successful update the caller\'s copy carries the new version, so its next update succeeds if nobody else '
     'changed the entity.',
     ['schedules', 'histories'],
     'every interleaving of read-modify-write cycles by several threads, processes and containers',
     'a lost update needs two overlapping cycles; tests update from one thread',
     ['pyslet/odata2/sqlds.py', 'pyslet/odata2/csdl.py', 'pyslet/odata2/memds.py'],
     [('concurrency token in the WHERE clause', 'pyslet/odata2/sqlds.py EntityCollection.update_entity'),
      ('token generation', 'pyslet/odata2/csdl.py Entity.set_concurrency_tokens')],
     ['versions read and written by each client'])
prop('C18', 'Remote OData operations match the served data and survive bad networks',
     'An operation through the OData client that succeeds has exactly the effect and result of the same operation '
     'on the served container; one that raises leaves the served container either unchanged or with that one '
     'operation applied in full, never partly applied or applied twice. Paged and streamed reads return every entity and '
     'byte exactly once or raise, whatever the fragmentation, delay or loss of connections.',
     ['fault_sequences', 'schedules', 'histories'],
     'every sequence of remote operations by several threads, every connection fault',
     'tests use a perfect in-process or loopback connection',
     ['pyslet/odata2/client.py', 'pyslet/odata2/server.py', 'pyslet/http/client.py'],
     [('request per operation', 'pyslet/odata2/client.py'),
      ('request dispatch', 'pyslet/odata2/server.py Server.handle_request')],
     ['client results against direct reads of the served container'])
prop('C19', 'Data encrypted or signed by an application stays readable across key changes',
     'Data encrypted or signed by any instance of an application cipher is decrypted or verified to the same bytes '
     'by every instance sharing the key store that is configured with the same key or one it was later changed to, '
     'however many changes came in between. The old key is used until the time of the change and the new one after '
     'it, by instances started before or after that time; a change that fails, or loses a race with another one, '
     'has no effect. A signature is never valid for a message that was not signed, anything altered is refused with '
     'ValueError, and concurrent use by several threads gives the same results as sequential use.',
     ['schedules', 'histories', 'configurations'],
     'every sequence and interleaving of encrypt, decrypt, sign, check and key-change operations on several '
     'instances and every clock reading around the key expiry times',
     'key changes take effect at a time; tests make one change on one instance with no concurrency',
     ['pyslet/wsgi.py'],
     [('key table and in-memory cipher cache', 'pyslet/wsgi.py AppCipher'),
      ('change_key', 'pyslet/wsgi.py AppCipher.change_key')],
     ['decrypted bytes, key numbers used'])
prop('C20', 'Web sessions expire, stay bound to their browser and resist forgery',
     'A request is given an existing session only when its cookie carries an intact signature made by the '
     'application, and the session is younger than the time-out since last seen (two minutes if not yet '
     'established); otherwise it gets a fresh one with a new identifier. An identifier exposed before '
     'establishment never remains valid after it, and a form post is accepted only with the token of the '
     'session in its own cookie.',
     ['histories', 'inputs', 'schedules'],
     'every sequence of requests from several browsers and an attacker, at every elapsed time, with lost, replayed '
     'or altered cookies',
     'time-outs and replay depend on histories over time; tests follow a few scripted flows in real time',
     ['pyslet/wsgi.py', 'pyslet/http/cookie.py'],
     [('signed session cookie', 'pyslet/wsgi.py SessionApp.set_session'),
      ('cookie test redirect', 'pyslet/wsgi.py SessionApp.session_page/ctest/wlaunch'),
      ('CSRF check', 'pyslet/wsgi.py SessionApp.session_wrapper')],
     ['session identifiers and status codes seen by simulated browsers'])
prop('C21', 'An LTI launch is accepted at most once and only when authentic',
     'A launch message is accepted only if it is signed with the secret of a known consumer and its timestamp is '
     'current, and the same launch (consumer, nonce) is accepted at most once within the replay window even when copies '
     'arrive concurrently, at other instances sharing the data store, or after a restart. A rejected '
     'launch creates no visit, and an authentic fresh launch is accepted.',
     ['schedules', 'histories', 'crash_points'],
     'every interleaving and delay of original, duplicated, altered and late launches at several instances',
     'tests send each launch once, in sequence',
     ['pyslet/imsbltiv1p0.py', 'pyslet/odata2/memds.py', 'pyslet/odata2/sqlds.py'],
     [('nonce table', 'pyslet/imsbltiv1p0.py ToolProvider.validate_timestamp_and_nonce')],
     ['accept/reject result per delivered copy'])
prop('C22', 'The cookie store sends exactly the live cookies that apply',
     'A search of the client cookie store returns exactly the stored cookies whose domain, path and security '
     'attributes match the URL and that have not expired at the current time, longest path then oldest first; a '
     'replacement keeps the age of the original and an expired or zero-age replacement removes it. This holds under '
     'concurrent setting, searching and expiry, and a cookie once expired, or dropped at session end, never '
     'comes back.',
     ['histories', 'schedules', 'inputs'],
     'every history of set, search, expire and end-of-session operations at every elapsed time and from several '
     'threads',
     'expiry depends on elapsed time and interleaving; tests check single cookies with a fixed now',
     ['pyslet/http/cookie.py'],
     [('domain tree under a lock', 'pyslet/http/cookie.py CookieStore'),
      ('expiry', 'pyslet/http/cookie.py Cookie.expired')],
     ['cookies returned by search against a flat reference list'])
prop('C23', 'Parsing an XML stream does not depend on how the stream is delivered',
     'Parsing an XML document from a file-like source or an HTTP response gives the same element tree as parsing '
     'the same characters from memory, for any size of the pieces in which the source returns them and any '
     'supported encoding; an interrupted source raises an error or yields a parse error, never a silently '
     'truncated document.',
     ['inputs', 'fault_sequences'],
     'every document, encoding, piece size and interruption point',
     'tests read local files with the default buffer size',
     ['pyslet/xml/structures.py', 'pyslet/xml/parser.py'],
     [('chunked entity reader', 'pyslet/xml/structures.py XMLEntity')],
     ['canonical output of the parsed document'])
prop('C24', 'The in-memory file system is a consistent shared file tree',
     'Concurrent operations on the in-memory file system (create, write, read, list, make and remove directories, '
     'remove files, temporary directories) are equivalent to some sequential order on a file tree: every closed '
     'write is read back in full, an open file is neither removed nor opened twice, every entry has a parent '
     'directory, and temporary directories are unique.',
     ['schedules', 'histories'],
     'every interleaving of threads operating on overlapping paths',
     'tests run one thread',
     ['pyslet/vfs.py'],
     [('global directory table under a lock', 'pyslet/vfs.py MemFilePath')],
     ['results of operations, listing of the tree'])
# ---- properties this technique cannot address
prop('C90', 'Date, time and duration arithmetic follows ISO 8601',
     'Parsing, formatting and arithmetic on ISO 8601 dates, times and durations round-trip and agree with the '
     'calendar for every valid value, and every invalid string is refused.',
     ['inputs'], 'every date/time string and value',
     'tests sample a few dates',
     ['pyslet/iso8601.py'], [('calendar arithmetic', 'pyslet/iso8601.py')])
prop('C91', 'URI resolution and relativisation are inverse and follow RFC 2396',
     'Resolving a relative reference against a base and making the result relative again gives an equivalent '
     'reference for every URI, and parsing then formatting a URI preserves it.',
     ['inputs'], 'every URI and base', 'tests sample the RFC examples',
     ['pyslet/rfc2396.py', 'pyslet/urn.py'], [('resolve/relative', 'pyslet/rfc2396.py URI')])
prop('C92', 'QTI response processing computes the outcomes the item defines',
     'For every item and candidate response, response processing assigns exactly the outcome values the '
     'assessment item\'s rules define, with typed expression semantics and NULL propagation.',
     ['inputs', 'programs'], 'every item and response',
     'tests sample the specification examples',
     ['pyslet/qtiv2/processing.py', 'pyslet/qtiv2/expressions.py'],
     [('expression evaluation', 'pyslet/qtiv2/expressions.py')])
prop('C93', 'OData literals, URIs and filter expressions mean the same on every back end',
     'Every literal, URI and filter expression parses to one meaning, formats back to an equivalent text, and '
     'selects the same entities whether evaluated in Python or translated to SQL.',
     ['inputs', 'programs'], 'every literal and expression',
     'tests sample expressions',
     ['pyslet/odata2/core.py', 'pyslet/odata2/csdl.py', 'pyslet/odata2/sqlds.py'],
     [('expression parser and evaluators', 'pyslet/odata2/core.py')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
