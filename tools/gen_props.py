#!/usr/bin/env python3
"""Single source of properties.jsonl (kept in git; run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": state, "meaning": "shared state the property is about"}]
    if observe: anchors["observe_at"] = [observe]
    if hook: anchors["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

NET = "in-memory TCP stand-in so that the harness is the server (cfg clickhouse_verif)"
SYN = "scheduling points in the queue/atomic/mutex operations of the pool (cfg clickhouse_verif)"

p("C01", "Query results are exactly the rows the server sent, in order",
  "Reading a query result as one block, as a stream of blocks or as a stream of rows yields exactly the rows of the reply, once each and in the order sent, with the reply's column names and types. This does not depend on how the server splits the rows into blocks, on empty blocks, or on progress and profile packets interleaved anywhere in the reply. A reply without any column (a statement without result) gives an empty result, not a failure.",
  ["inputs", "histories"],
  "every split of a result into data blocks (including empty ones) x every placement of progress/profile packets x reading style x compression on/off x server revision",
  "tests need a live server whose splits and packet placement they cannot choose; none of the 153 stable tests exchanges a packet with a server",
  ["src/types/query_result/mod.rs", "src/types/query_result/stream_blocks.rs", "src/types/block/mod.rs", "src/types/column/concat.rs", "src/binary/parser.rs"],
  [("block stream state machine", "src/types/query_result/stream_blocks.rs BlockStream::poll_next"),
   ("concatenation of chunks", "src/types/block/mod.rs Block::concat, src/types/column/concat.rs"),
   ("row iteration", "src/types/block/row.rs")],
  "public API: query().fetch_all()/stream_blocks()/stream()", hook=NET)

p("C02", "Behaviour does not depend on how the network segments bytes",
  "For a given byte stream from the server, every way of cutting it into reads (including reads that would block first) produces the same outcome of connecting, pinging, querying, executing and inserting, and for every way in which writes are accepted only partly or not yet, the server receives the same request bytes. No operation hangs once all the bytes it needs have arrived.",
  ["inputs", "schedules"],
  "every cut of the reply at one or two positions, one-byte reads, every pattern of pending reads and of short or blocked writes within the deviation bound, for every kind of operation, compressed and not",
  "loopback sockets deliver whole packets; the parser's resume logic only matters at cut positions tests never produce",
  ["src/io/transport.rs", "src/io/read_to_end.rs", "src/io/stream.rs", "src/binary/read_ex.rs", "src/types/block/compressed.rs"],
  [("incremental parse and restart", "src/io/transport.rs ClickhouseTransport::poll_next, try_parse_msg"),
   ("reading until would-block", "src/io/read_to_end.rs"),
   ("flushing of partial writes", "src/io/transport.rs wr_flush/send")],
  "results of the public API and the bytes seen by the server", hook=NET)

p("C03", "A lost connection is reported as an error, never as success or a crash",
  "If the server closes the connection, or reading or writing on it fails, at any byte position of any exchange (handshake, ping, query, execute, insert), the operation in progress returns an error: it does not panic, does not hang, and does not pass off a truncated reply as a complete one. Packets that arrived completely before the close, such as a server exception or the end of a finished result, are still honoured. Afterwards the same handle and the pool can be used again and work against a healthy server.",
  ["fault_sequences", "crash_points"],
  "every byte offset of the server's replies and every write call x {orderly close, read error, write error} x operation x options",
  "tests never cut a connection; a real server offers no control over the byte at which it dies",
  ["src/lib.rs", "src/io/transport.rs", "src/types/query_result/stream_blocks.rs", "src/retry_guard.rs"],
  [("end-of-input handling", "src/io/transport.rs poll_next (done)"),
   ("per-operation packet loops", "src/lib.rs hello/ping/execute_/send_insert_query_; src/io/transport.rs read_block/clear"),
   ("error state of the block stream", "src/types/query_result/stream_blocks.rs")],
  "public API result of the interrupted and of the following operations", hook=NET)

p("C04", "An operation only ever sees the answer to its own request",
  "Whatever happened before on the same handle or on a pooled connection (results read to the end, streams dropped half way, futures dropped at any suspension point, timeouts, server exceptions), an operation that completes successfully returns exactly the reply to its own request and its request reaches the server intact. Leftovers of an earlier request are never delivered to a later one, through the handle or through the pool, with pinging before queries on or off.",
  ["histories", "schedules"],
  "every sequence of operations up to the depth bound over the operation alphabet, each ended normally or abandoned at every suspension point, x server that answers at once or waits for cancellation x ping_before_query x one or two handles of a pool",
  "needs an operation abandoned at an exact point followed by another on the same connection; tests do neither",
  ["src/lib.rs", "src/io/transport.rs", "src/types/query_result/stream_blocks.rs", "src/pool/mod.rs"],
  [("inconsistent flag and draining with Cancel", "src/io/transport.rs clear"),
   ("hand-back of a half-read transport", "src/types/query_result/stream_blocks.rs Drop"),
   ("attach/detach of a handle", "src/pool/mod.rs PoolBinding, return_conn")],
  "results of later operations; request bytes decoded by the reference server", hook=NET)

p("C05", "Server exceptions reach the caller unchanged and leave the client usable",
  "Whenever the server answers with an exception, at any point of the reply (handshake, ping, before or between data blocks, before or after insert data), the operation fails with a server error carrying the exception's code, name, message and stack trace unchanged, after delivering the rows that came before it when streaming. The handle and the pool remain usable: the next operation works, and the failed connection is not handed out again in a state that would disturb it.",
  ["histories", "inputs"],
  "operation x position of the exception in the reply x exception content x what is done next (same handle, new handle) x options",
  "the stable tests never receive an exception packet; live tests only see it as the first packet",
  ["src/lib.rs", "src/binary/parser.rs", "src/errors/mod.rs", "src/types/query_result/stream_blocks.rs", "src/io/transport.rs"],
  [("exception parsing", "src/binary/parser.rs parse_exception"),
   ("exception in each packet loop", "src/lib.rs, src/io/transport.rs read_block/clear, stream_blocks.rs")],
  "Error::Server value; following operations", hook=NET)

p("C06", "An insert delivers exactly the block's rows, once, under the right columns",
  "A successful insert makes the server receive exactly the rows of the given block, in order, each once, under the given column names in the statement and with the column types the server asked for; rows beyond the chunk limit follow in further inserts and nothing is lost, repeated or altered at a chunk boundary. If a column cannot be converted to the requested type, the insert fails without sending any data. The request sequence is one a server accepts: a statement, the data, one end marker, and success is only reported after the server confirmed.",
  ["inputs", "histories"],
  "every row count around the chunk limit and its multiples x column type x compression x header types equal, castable or not castable x repeated inserts on one handle",
  "a chunk has 1,048,576 rows; no test inserts more than one chunk or has a server to check what was received",
  ["src/lib.rs", "src/types/block/chunk_iterator.rs", "src/types/column/chunk.rs", "src/types/block/mod.rs", "src/types/column/mod.rs"],
  [("chunked insert", "src/lib.rs insert_, insert_tail_, insert_block_"),
   ("slicing columns", "src/types/column/chunk.rs, column_data save(start, end)"),
   ("conversion to the header types", "src/types/block/mod.rs cast_to; src/types/column/mod.rs cast_to")],
  "rows decoded by the reference server", hook=NET)

p("C07", "Values written to the server have ClickHouse's native encoding",
  "For every supported column type (numbers, strings, fixed strings, dates, times, decimals, enums, UUIDs, IP addresses, nullable, array, map, low-cardinality and simple-aggregate wrappers and their nestings) and every value, the bytes an insert sends decode, by ClickHouse's native column format, to exactly the values put into the block, and the column's type name denotes that type. This holds for blocks built column-wise, row-wise, or obtained from an earlier query.",
  ["inputs"],
  "every supported type up to nesting bound x all tuples of boundary values up to length bound x construction style",
  "unit tests encode a few values per type and compare with the library's own decoder",
  ["src/types/column", "src/types/block/builder.rs", "src/types/marshal.rs", "src/binary/encoder.rs", "src/types/mod.rs"],
  [("column serialisation", "src/types/column/*.rs save"), ("scalar encoding", "src/types/marshal.rs, src/binary/encoder.rs"),
   ("type names", "src/types/mod.rs SqlType::to_string")],
  "insert bytes decoded by an independent decoder", hook=NET)

p("C08", "Values read from the server are decoded exactly, by every accessor",
  "For every supported column type and every value encoded in ClickHouse's native format, reading a query result gives exactly that value through every accessor: by cell, by row, by typed column iterator and as dynamic value, for single-block and multi-block results alike. All accessors agree with each other, and indexing outside the result is reported as such and never returns another cell's data.",
  ["inputs"],
  "every supported type up to nesting bound x all tuples of boundary values up to length bound x block split x accessor",
  "unit tests decode a handful of bytes per type and rarely compare accessors",
  ["src/types/column", "src/types/from_sql.rs", "src/types/value_ref.rs", "src/types/unmarshal.rs", "src/types/block/row.rs"],
  [("column loading", "src/types/column/factory.rs load_data and per-type load"), ("cell access", "ColumnData::at, src/types/from_sql.rs"),
   ("typed iteration", "src/types/column/iter/mod.rs")],
  "Block::get, rows(), Row::get, Column::iter", hook=NET)

p("C09", "Compression is transparent and corrupted compressed data is rejected",
  "With LZ4 compression on, the same requests and replies carry the same values as without it, for data of any size and content, and what is sent is a frame with a correct checksum, sizes and payload. A compressed frame from the server in which any byte was altered makes the operation fail; it never yields altered data, a panic, or a hang once the connection has delivered all it will.",
  ["inputs", "fault_sequences"],
  "payload sizes covering every branch of the hash and of the frame code x contents; every bit flip and byte substitution of a frame; several frames per block",
  "unit tests decompress two fixed frames; corruption is not tested",
  ["src/types/block/compressed.rs", "src/types/block/mod.rs", "clickhouse-rs-cityhash-sys/src"],
  [("frame decoding and checksum", "src/types/block/compressed.rs"), ("frame encoding", "src/types/block/mod.rs write"), ("CityHash128", "clickhouse-rs-cityhash-sys/src/cc")],
  "results through the public API; frames checked by an independent CityHash/LZ4", hook=NET)

p("C10", "The pool never exceeds its maximum and never shares a connection",
  "At every moment, under every interleaving of threads that take, use, drop and lose handles, the number of connections a pool holds open (being opened, idle and handed out) is at most its configured maximum, and a connection is held by at most one handle. No interleaving makes the pool panic.",
  ["schedules"],
  "every interleaving of the pool's shared-memory steps up to the preemption bound, for 2-3 threads taking, returning, breaking and cancelling, over small pool limits",
  "needs particular preemptions between two atomic operations",
  ["src/pool/mod.rs", "src/pool/futures/get_handle.rs", "src/io/transport.rs"],
  [("connection accounting", "src/pool/mod.rs conn_count, take_conn, return_conn, release_conn"), ("construction slot", "src/pool/mod.rs handle_futures")],
  "connections open at the reference server; handles held", hook=NET + "; " + SYN,
  state="queues new/idle/tasks and counter ongoing of the pool")

p("C11", "Every waiter for a pooled handle is eventually served",
  "A task waiting for a handle is woken and served (with a handle or an error) whenever a connection is returned, dropped, breaks, finishes connecting or fails to connect: no interleaving, cancellation of another waiter, or connect failure leaves a task waiting for ever while capacity is available.",
  ["schedules", "fault_sequences"],
  "every interleaving up to the preemption bound of getters, droppers and cancelled getters x connect outcome (success, refused, hand-shake failure, closed) x pool limits",
  "a lost wake-up needs a preemption between the capacity check and the registration of the waiter",
  ["src/pool/mod.rs", "src/pool/futures/get_handle.rs"],
  [("waiter registration and wake-up", "src/pool/mod.rs poll, return_conn, release_conn"), ("connect completion", "src/pool/mod.rs handle_futures")],
  "completion of get_handle futures", hook=NET + "; " + SYN, state="queue of waiting tasks")

p("C12", "The pool reuses healthy connections, drops broken ones, keeps pool_min idle",
  "A handle dropped in a clean state makes its connection available for the next request instead of opening a new one, and never more than the configured minimum of connections are kept idle. A connection that failed, or whose request was interrupted in a way that cannot be drained, is closed and never handed out again; new connections go to the configured hosts in turn. Once all handles are gone no capacity has leaked: the pool can again hand out its maximum.",
  ["histories"],
  "every sequence up to the depth bound of get / use / fail / abandon / drop over several handles, x pool limits x hosts",
  "needs histories of several handles with failures between them and a view of the server side",
  ["src/pool/mod.rs", "src/lib.rs", "src/io/transport.rs"],
  [("return or release of a connection", "src/pool/mod.rs return_conn, Drop for ClientHandle; src/io/transport.rs Drop for TransportStatus"), ("host rotation", "src/pool/mod.rs get_addr")],
  "connections seen by the reference servers", hook=NET, state="idle queue, ongoing counter, binding of a handle")

p("C13", "Configured timeouts bound every operation and an unset timeout does not",
  "Connecting, pinging, fetching a whole result, executing and inserting fail with a timeout error no later than the configured limit when the server stops answering at any point of the exchange, and never earlier; an operation for which no limit is configured is not cut short. After a timeout the handle and the pool can be used again.",
  ["fault_sequences", "histories"],
  "operation x the packet (and byte) at which the server stalls x timeout option values, in virtual time",
  "needs a stalling server and real waiting; tests have neither",
  ["src/lib.rs", "src/types/query_result/mod.rs", "src/types/options.rs", "src/retry_guard.rs"],
  [("timeout wrapper", "src/lib.rs with_timeout"), ("per-operation limits", "src/lib.rs open/ping/execute_/insert_, query_result fetch_all")],
  "virtual time at which the operation returns", hook=NET)

p("C14", "Lost connections are replaced transparently, within the retry limits",
  "When a connection has died while idle, the next operation with ping-before-query replaces it and succeeds on a healthy server, and the request itself is sent exactly once. When the server cannot be reached the operation fails after the configured number of retries, waiting the configured pause between attempts, and a later operation on the same handle tries again.",
  ["fault_sequences", "histories"],
  "how and when the idle connection dies x outcome of each reconnection attempt x number of retries x operation, pooled and unpooled handles",
  "needs a connection that dies between operations and a sequence of failing connects",
  ["src/retry_guard.rs", "src/lib.rs"],
  [("check and reconnect loop", "src/retry_guard.rs"), ("ping before each operation", "src/lib.rs wrap_future, wrap_stream, check_connection")],
  "connect attempts with virtual timestamps and requests seen by the reference server", hook=NET)

p("C15", "Blocks are rectangular, and clones and slices are independent copies",
  "Every sequence of building steps (adding columns, pushing rows in any construction style, cloning, pushing to the clone, concatenating) gives a block whose cells are exactly the values put in, all columns of equal length, or reports an error and leaves a block that is still consistent. Changing a clone never changes or corrupts the original, and equality of blocks means equality of all their cells.",
  ["histories", "inputs"],
  "every sequence of building operations up to the depth bound over rows that do and do not fit the block, for every column type",
  "tests build well-formed blocks in one style and do not modify clones",
  ["src/types/block/builder.rs", "src/types/block/mod.rs", "src/types/column/mod.rs", "src/types/value.rs", "src/types/value_ref.rs"],
  [("row builder", "src/types/block/builder.rs"), ("copy on write", "src/types/column/mod.rs push/clone, ColumnData::clone_instance"), ("equality", "src/types/value_ref.rs PartialEq, src/types/block/mod.rs PartialEq")],
  "Block accessors")

p("C16", "Asking for the wrong type is an error, never a reinterpretation",
  "Reading a cell or a column as a Rust type that does not correspond to its ClickHouse type, or a null as a non-optional type, or naming a column that does not exist, returns an error; it never returns a value reinterpreted from other bytes and never panics.",
  ["inputs"],
  "every pair of supported column type and Rust type x accessor (cell, row, column iterator) x single- and multi-block results",
  "the matrix has over a thousand pairs; tests check a few",
  ["src/types/from_sql.rs", "src/types/column/iter/mod.rs", "src/types/value_ref.rs"],
  [("typed access", "src/types/from_sql.rs"), ("typed iteration checks", "src/types/column/iter/mod.rs")],
  "result of Block::get, Row::get, Column::iter", hook=NET)

p("C17", "Connection strings are parsed exactly as documented",
  "A connection string sets host, port, user, password, database and each documented parameter to exactly the value written, whatever other parameters are present and in whatever order, leaves the others at their documented defaults, and gives the same options as the corresponding builder calls. A malformed value or unknown parameter is reported as an error instead of being ignored or replaced by a default.",
  ["inputs", "configurations"],
  "every documented parameter x valid and malformed values x all ordered pairs of parameters x credential/database/host forms",
  "tests parse about a dozen strings",
  ["src/types/options.rs", "README.md"],
  [("DSN parsing", "src/types/options.rs from_url, set_params, parse_param, parse_duration ...")],
  "behaviour of connections opened with the string: addresses, hello, settings, timeouts, pool limits", hook=NET)

p("C18", "Requests follow the protocol for the server's announced revision",
  "For every server revision, the client's handshake and query packets are exactly those the native protocol prescribes for that revision: credentials and database, client info with the optional fields the revision calls for, every configured setting once with its value and importance in the form for that revision, the compression flag, the query id and the unmodified statement text. Replies whose fields depend on the revision are read accordingly.",
  ["configurations", "inputs"],
  "every revision around each threshold x settings of every type x query id x statement text x compression",
  "a live server has one revision; packets are not examined by tests",
  ["src/types/cmd.rs", "src/client_info.rs", "src/binary/parser.rs", "src/binary/protocol.rs", "src/types/query.rs"],
  [("request encoding", "src/types/cmd.rs"), ("revision-dependent parsing", "src/binary/parser.rs")],
  "request bytes decoded by an independent decoder", hook=NET)

p("C19", "Column type names are understood and reproduced, at any nesting",
  "Every type name the server may use for a supported type, including nested wrappers, decimals with any precision and scale, timestamps with time zones, and enums with any labels, is read as that type; a column read from the server and inserted again is announced with a name denoting the same type and the same values. An unsupported or malformed type name is reported as an error, not mistaken for another type, and does not panic.",
  ["inputs"],
  "every type term up to the nesting bound, with spacing and quoting variants, and every single-character corruption of the names",
  "tests parse a few names",
  ["src/types/column/factory.rs", "src/types/mod.rs"],
  [("type-name parsing", "src/types/column/factory.rs"), ("type-name rendering", "src/types/mod.rs SqlType Display/to_string")],
  "Column::sql_type of a query result; name in the insert data", hook=NET)

p("C20", "Dates and times keep their instant across time zones and precisions",
  "A date, timestamp or sub-second timestamp denotes the same day or instant on the wire, in the dynamic value, through cell access and through iteration, for every server or column time zone and for every value the type can hold, including instants before 1970 and the type's limits. Writing a value of the host language and reading it back gives the same instant truncated to the column's precision.",
  ["inputs", "configurations"],
  "boundary values of each type x time zones with positive, negative, fractional offsets and DST x precision 0-9 x accessor",
  "tests use one time zone and positive values",
  ["src/types/column/date.rs", "src/types/column/chrono_datetime.rs", "src/types/column/datetime64.rs", "src/types/column/iter/mod.rs", "src/types/date_converter.rs", "src/types/value.rs", "src/types/value_ref.rs"],
  [("conversions", "src/types/column/datetime64.rs, src/types/date_converter.rs"), ("date iterators", "src/types/column/iter/mod.rs")],
  "cells and iterators against calendar arithmetic done independently", hook=NET)

p("C21", "Decimals keep their exact value",
  "A decimal built from an integer, a float or text-like parts, converted between scales, compared, displayed or sent and read back keeps its exact value (apart from digits a smaller scale cannot hold), for positive and negative values, for every precision, scale and storage width; values that do not fit are reported and not wrapped.",
  ["inputs"],
  "boundary values x every scale pair x storage width x operation",
  "tests use a few positive values",
  ["src/types/decimal.rs", "src/types/column/decimal.rs"],
  [("decimal arithmetic", "src/types/decimal.rs"), ("decimal columns", "src/types/column/decimal.rs")],
  "Decimal accessors, Display, wire values against big-integer arithmetic", hook=NET)

p("C22", "Malformed replies are errors, never crashes, hangs or wrong successes",
  "If the server sends bytes that are not a well-formed reply (an unknown packet, an impossible number, an unexpected packet for the state, invalid text, an out-of-range index or type, any single corrupted byte in an uncompressed reply), the operation ends with an error or, where the corruption only changes a value, with that value: it does not panic or hang once the connection has delivered all it will. After an error the damaged connection is not used again.",
  ["inputs", "fault_sequences"],
  "every substitution of one byte from a boundary alphabet at every position of reference replies x operation; every unexpected packet kind in every state",
  "tests never see malformed bytes",
  ["src/binary/parser.rs", "src/binary/read_ex.rs", "src/types/column", "src/io/transport.rs", "src/lib.rs"],
  [("packet parsing", "src/binary/parser.rs, src/binary/read_ex.rs"), ("column loading", "src/types/column/*.rs load"), ("unexpected packets", "src/lib.rs, src/io/transport.rs")],
  "outcome of the operation and of the next one", hook=NET)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
