#!/usr/bin/env python3
# Writes properties.jsonl (kept as code so that the text stays easy to review).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("S01", "A journal replays exactly the events that were written to it",
 "Replaying a journal up to its checkpoint delivers exactly the sequence of events that was written (same operations, same ids, same values, same order), whether the events are read at once or in several pulls and steps, and whether they were written in one session or across several openings of the file. Starting again from the beginning delivers the same sequence again, and the database built by a replay equals the database that was live while writing.",
 ["inputs", "histories"], "every sequence of valid events of every type, every split into checkpoints, reopenings, pulls and partial replays, every value of every field type including strings and vectors larger than the buffer (vector updates of zero rows excepted: nothing is written for them)",
 "unit tests write short fixed sequences; the encoding depends on the previous operation and on buffer boundaries, so a wrong compression or a lost context needs a specific pair of operations around a specific boundary or reopening",
 ["src/joedb/journal/Writable_Journal.cpp", "src/joedb/journal/Readonly_Journal.cpp", "src/joedb/journal/File_Buffer.h", "src/joedb/journal/Buffer.h"],
 [("relative encoding of inserts and updates", "Writable_Journal::insert_into, generic_update"), ("decoder", "Readonly_Journal::one_step"), ("buffer", "File_Buffer::read_data, write_data, set_position")],
 state=[("context of the last operation", "table, record and field that the next compressed entry refers to", "Readonly_Journal.h")])

prop("S02", "A process crash loses no checkpointed transaction and exposes no partial one",
 "If the process stops at any point between two file operations (or in the middle of a write), reopening the file finds every transaction whose checkpoint call had returned, and nothing of a transaction whose checkpoint had not been started. Replaying the recovered file gives exactly the events of a prefix of the transactions, and writing can go on from there, any number of crashes later.",
 ["crash_points", "histories"], "every history of transactions with soft and hard checkpoints, every crash point at every write or synchronization of the file, also inside recovery and after earlier crashes",
 "the tests have a few hand-made damaged files; they do not stop the writer at each write of a history",
 ["src/joedb/journal/Writable_Journal.cpp", "src/joedb/journal/Readonly_Journal.cpp", "src/joedb/journal/Journal_Construction_Lock.cpp"],
 [("soft checkpoint slots", "Writable_Journal::soft_checkpoint_at"), ("hard checkpoint in two copies", "Writable_Journal::hard_checkpoint_at"), ("choice of the checkpoint", "Readonly_Journal::read_checkpoint")],
 state=[("four checkpoint values", "two pairs; equal positive pair: hard checkpoint; negative: soft", "Header.h")])

prop("S03", "After a power failure the last hard checkpoint is fully recoverable",
 "Once a hard checkpoint call has returned, no later history of writes and soft or hard checkpoints followed by a power failure (un-synchronized writes lost, kept or torn in any combination) can lose it: the surviving file opens, reports a hard checkpoint at least as recent, and its content up to that hard checkpoint is byte for byte what was written. During a hard checkpoint, either the previous or the new one is found.",
 ["crash_points", "fault_sequences"], "every history of transactions, every failure point, every subset and tearing of the writes issued since the last synchronization (an aligned 8-byte checkpoint value is never torn)",
 "no test loses or reorders un-synchronized writes",
 ["src/joedb/journal/Writable_Journal.cpp", "src/joedb/journal/Readonly_Journal.cpp", "src/joedb/journal/Posix_File.cpp"],
 [("write data and first copy, sync, second copy, sync", "Writable_Journal::hard_checkpoint_at"), ("soft checkpoints never overwrite the hard checkpoint", "Writable_Journal::soft_checkpoint_at"), ("validity of a pair", "Readonly_Journal::read_checkpoint")])

prop("S04", "An uncheckpointed tail is refused, ignored or overwritten as requested",
 "A file that is longer than its checkpoint is refused for writing by default and left untouched, can be read up to its checkpoint, can be read to its very end when ignoring the header, and when overwriting is requested can be written again from the checkpoint on. After such a recovery every reader, old or new, sees only the checkpointed events followed by the new transactions, and never a mixture with the abandoned tail.",
 ["histories", "configurations"], "every history ending in an aborted transaction of any length, every recovery mode, every later history of transactions shorter or longer than the abandoned tail, readers opened before or after (the listed finding KF1 concerns power failures)",
 "the tests try one tail per mode; leftovers of the old tail show only when later writes have particular lengths",
 ["src/joedb/journal/Writable_Journal.cpp", "src/joedb/journal/Readonly_Journal.cpp", "src/joedb/journal/Journal_Construction_Lock.h"],
 [("size against checkpoint", "Writable_Journal constructor"), ("ignore_header", "Readonly_Journal constructor")])

prop("S05", "Reading a corrupted journal is safe",
 "Whatever bytes a journal file contains, opening and replaying it in a database either works or throws a regular exception: no invalid memory access, no internal assertion, no endless loop and no unbounded allocation. Opening it for reading never changes the file.",
 ["inputs"], "every byte string as file content, in particular valid journals with a few bytes, lengths or ids altered, truncated or spliced (pulling from a file whose header is corrupted under an open journal is not covered)",
 "a few fuzzing seeds are replayed; arbitrary corruption of arbitrary journals is not",
 ["src/joedb/journal/Readonly_Journal.cpp", "src/joedb/interpreted/Database.cpp", "src/joedb/interpreted/Table.cpp", "src/joedb/Freedom_Keeper.h"],
 [("bounded strings and vectors", "Readonly_Journal::safe_read_string, one_step"), ("id checks", "Database, Table")])

prop("S06", "Every kind of file behaves like the same array of bytes",
 "Any sequence of reads, writes, copies and comparisons gives the same bytes and sizes on every writable file implementation (memory, system file, standard stream) as on a plain byte array, including reads across the end, writes beyond the end and empty operations. Read-only views (memory, slice, blob) of the same bytes agree with it, and files that read less than asked per call give the same results.",
 ["inputs", "configurations"], "every sequence of offsets and sizes, every implementation, every pattern of short reads (writes of zero bytes beyond the end excepted)",
 "each implementation is tested on a few fixed offsets, and short reads do not happen on a local disk",
 ["src/joedb/journal/Abstract_File.cpp", "src/joedb/journal/Memory_File.cpp", "src/joedb/journal/Posix_File.cpp", "src/joedb/journal/Stream_File.cpp", "src/joedb/journal/File_Slice.h", "src/joedb/journal/Readonly_Memory_File.h"],
 [("pread and pwrite", "each file class"), ("copy_to, equal_to, read_blob", "Abstract_File.cpp")])

prop("S07", "Compressed and encoded files give back exactly what was written",
 "A file stored through an encoding layer (compression included) reads back byte for byte what a plain file would hold, for any sequence of writes, checkpoints and reopenings, read at any offset and size, by the writer itself or by a read-only opening. A database kept in such a file behaves as in a plain file.",
 ["inputs", "histories"], "every sequence of sequential and overwriting writes, flushes, reopenings, and reads at any position, with and without compression",
 "tests compress one journal and read it sequentially",
 ["src/joedb/journal/Encoded_File.cpp", "src/joedb/journal/Readonly_Encoded_File.cpp", "src/joedb/journal/Brotli_Codec.cpp", "src/joedb/db/encoded_file.joedbi"],
 [("write buffer and list of encoded ranges", "Encoded_File::pwrite, sync"), ("range lookup", "Readonly_Encoded_File::pread")])

prop("S08", "The standard-stream adapter over a file behaves like a standard file stream",
 "Reading, writing, seeking, telling, flushing and putting back characters through the stream interface over any joedb file gives the same data, positions and stream states as the same operations on an in-memory byte array, and the underlying file ends with exactly the written bytes.",
 ["inputs", "histories"], "every interleaving of formatted and unformatted reads, writes, seeks, flushes and put-backs, with blocks smaller and larger than the buffer, with a seek, tell or flush between reading and writing as the standard requires",
 "tests cover a handful of fixed sequences; switching direction at a buffer boundary is where such adapters break",
 ["src/joedb/journal/filebuf.cpp", "src/joedb/journal/filebuf.h", "src/joedb/journal/fstream.h"],
 [("buffer management", "filebuf::underflow, overflow, seekoff, xsgetn, xsputn")])

prop("S09", "The file format is the documented one",
 "The bytes of a journal follow the documented format: a 41-byte little-endian head (checkpoints, version, signature) followed by entries with the published operation codes, compact numbers, strings and values. An independent decoder of that format recovers the written events from any journal, and journals produced by an independent encoder are read correctly.",
 ["inputs"], "every event, every value, every compact number up to 61 bits, in both directions",
 "tests go through the reader and the writer of the same version, so a matching change in both goes unnoticed while old files become unreadable",
 ["src/joedb/journal/Readonly_Journal.h", "src/joedb/journal/Buffer.h", "src/joedb/journal/Header.h", "src/joedb/TYPE_MACRO.h", "src/joedb/Type.h"],
 [("operation codes", "Readonly_Journal::operation_t"), ("compact numbers", "Buffer::compact_write, compact_read")])

prop("D01", "The interpreted database applies valid events and rejects invalid ones",
 "After any sequence of events the interpreted database holds exactly the tables, fields, types, rows and values that the valid events define. An invalid event (unknown or duplicate names, unknown tables, fields or rows, wrong types, out-of-range sizes) throws an exception and leaves schema and data as they were.",
 ["inputs", "histories"], "every sequence of schema and data events, valid or not, over any ids (events on zero rows may be accepted or rejected)",
 "tests check a few invalid events on a fixed schema",
 ["src/joedb/interpreted/Database.cpp", "src/joedb/interpreted/Database_Schema.cpp", "src/joedb/interpreted/Table.cpp"],
 [("schema checks", "Database_Schema.cpp"), ("row checks", "Table.cpp")])

prop("D02", "Row identifiers are tracked exactly",
 "For any sequence of row allocations, insertions at chosen ids and deletions, single or by vector, a table reports exactly the live rows: membership, count, bounds, forward and backward iteration and emptiness all agree with a set of ids. A newly allocated id is never a live one, and vector allocation returns consecutive free ids.",
 ["histories"], "every sequence of allocations, insertions and deletions of rows and vectors of rows, dense or sparse",
 "the free-list is exercised by short fixed sequences; switching between its dense and sparse forms has many more interleavings",
 ["src/joedb/Freedom_Keeper.h"],
 [("dense counter and linked lists", "Dense_Freedom_Keeper, List_Freedom_Keeper, Freedom_Keeper")])

prop("D03", "A compiled database equals its model, live and after reopening",
 "For any sequence of operations through the generated API (creating, deleting and updating rows and vectors of every field type, clearing tables, comments, checkpoints), reads, iteration order and sizes agree with a simple in-memory model. Reopening the file, opening it read-only, replaying it in an interpreted database, or following it incrementally gives the same content.",
 ["histories", "inputs"], "every sequence of generated-API operations over a schema with every field type, references, renamed and dropped fields, single-row tables, vectors (row ids smaller than the file, see the listed finding KF2)",
 "tests check a few rows after a few operations",
 ["src/joedb/compiler/generator/Database_h.cpp", "src/joedb/compiler/generator/Database_Writable_h.cpp", "src/joedb/compiler/generator/Writable_Database_h.cpp", "src/joedb/compiler/generator/Readonly_Database_h.cpp", "src/joedb/compiler/generator/Readable_h.cpp"],
 [("generated setters and internal updates", "Database_h.cpp, Writable_Database_h.cpp"), ("generated event listener", "Database_Writable_cpp.cpp")])

prop("D04", "Indexes always agree with table contents and uniqueness is enforced",
 "At every moment of any history each index holds exactly the rows whose indexed values have been set, ordered by those values, so lookup, range search and sorted iteration give what a scan of the table gives. An update that would duplicate a unique key throws, is written neither to the journal nor to the index, and the database recovers with exactly the accepted updates.",
 ["histories", "inputs"], "every sequence of creations, updates, vector updates and deletions over tables with unique and non-unique, single and multi-column indexes, including colliding keys",
 "tests trigger a handful of collisions",
 ["src/joedb/compiler/generator/Database_h.cpp", "src/joedb/compiler/generator/Writable_Database_h.cpp"],
 [("index maintenance", "generated internal_update, internal_delete and index removal code")])

prop("D05", "Schema upgrade preserves data, and foreign schemas are refused",
 "Opening a file whose schema is a prefix of the compiled one upgrades it exactly once: existing data is preserved, new fields have default values, and custom functions run once and in order, also when later reopened. A file whose schema is not a prefix is refused and not modified, a read-only opening never modifies the file, and opening a file with the compiled schema adds nothing.",
 ["histories", "configurations"], "every pair of versions of a schema with added, renamed and dropped tables and fields and custom functions, every data content, every opening mode",
 "tests upgrade from one version with one content",
 ["src/joedb/compiler/generator/Writable_Database_cpp.cpp", "src/joedb/compiler/generator/Readonly_Database_h.cpp", "src/joedb/compiler/generator/Writable_Database_h.cpp", "src/joedb/compiler/generator/Client_h.cpp", "src/joedb/journal/Upgradable_File.h"],
 [("schema comparison and upgrade", "generated check_schema, upgrade code")])

prop("D06", "The compiler produces correct code for any valid schema",
 "For any valid schema (any number of tables, field types, references, renames, drops and re-creations, indexes and table options) the compiler produces code that compiles and reads and writes data of that schema correctly: a database loaded through the generated code has the same content as the interpreted database, and its file is accepted by later openings. Invalid option files are rejected with an error.",
 ["programs"], "every schema definition without references to dropped tables, and every option file",
 "a fixed set of schemas is compiled in the tests",
 ["src/joedb/compiler/joedbc.cpp", "src/joedb/compiler/Compiler_Options_io.cpp", "src/joedb/compiler/generator/Database_h.cpp", "src/joedb/compiler/generator/introspection_h.cpp"],
 [("generators", "src/joedb/compiler/generator"), ("options", "Compiler_Options_io.cpp")])

prop("D07", "Blobs read back exactly and only where they were written",
 "Every blob written to a journal can be read back byte for byte from its position and size, immediately, after any further writes, after reopening, from a read-only opening or a replica, and when it goes through a replay into another journal. Replaying a journal with blobs delivers the surrounding events unchanged, whether or not the listener wants the data.",
 ["inputs", "histories"], "every interleaving of blobs of any size (also empty and larger than any buffer) and other events",
 "tests write a few small blobs",
 ["src/joedb/journal/Writable_Journal.cpp", "src/joedb/journal/Readonly_Journal.cpp", "src/joedb/journal/Abstract_File.cpp", "src/joedb/Blob.h"],
 [("unbuffered blob write", "Writable_Journal::write_blob"), ("blob skipping", "Readonly_Journal::one_step, File_Buffer::ignore"), ("read_blob", "Abstract_File.cpp")])

prop("C01", "Clients of a shared file are serializable and isolated",
 "Any number of clients that open the same file in shared mode, in one or several processes, and run write transactions and pulls in any interleaving, produce a file whose history is some sequential order of the committed transactions. Each client sees after a pull a state between two transactions, never part of one, never going back, and its own copy always equals a fresh replay of the file up to the same point.",
 ["schedules", "histories"], "every interleaving of openings, pulls, transactions (journal-level and database-level) and closings of several clients on one file",
 "tests interleave two clients in a few fixed orders",
 ["src/joedb/concurrency/Writable_Client.h", "src/joedb/concurrency/Writable_Database_Client.h", "src/joedb/concurrency/Writable_Journal_Client.h", "src/joedb/concurrency/Client.cpp", "src/joedb/journal/Journal_Construction_Lock.cpp", "src/joedb/journal/Posix_File.cpp", "src/joedb/compiler/generator/Client_h.cpp"],
 [("tail lock", "Tail_Exclusive_Lock"), ("head lock", "Head_Exclusive_Lock, Head_Shared_Lock"), ("construction lock", "Journal_Construction_Lock.cpp")])

prop("C02", "A failed transaction is never published",
 "If the body of a transaction throws, nothing it wrote is visible to any other client, to the server or to a later opening for reading, the lock is released so that other clients can go on, and the exception reaches the caller. Afterwards the failed client either continues correctly or refuses to write; it never publishes part of the abandoned writes.",
 ["histories", "fault_sequences"], "every position of the failure in the transaction, every later activity of the same and other clients, shared files and connections",
 "tests throw once at the end of a transaction",
 ["src/joedb/concurrency/Writable_Client.h", "src/joedb/concurrency/Client.cpp", "src/joedb/compiler/generator/Client_h.cpp", "src/joedb/journal/Writable_Journal.cpp"],
 [("unlock on exception", "Writable_Client::transaction, Client_Lock"), ("refusal of uncheckpointed data", "Tail_Exclusive_Lock constructor")])

prop("C03", "Replicas converge with their connection and conflicts are always detected",
 "After a successful pull or push, client and connection hold the same history; offline changes are accepted only if the connection has not moved on with different content. When the two histories differ, the content check reports it, the push fails, and neither side is modified beyond its own history.",
 ["histories", "configurations"], "every interleaving of local writes, remote writes, pulls, pushes, reconnections, content-check modes and size differences between a replica and a file or server connection, including histories that diverge in a single byte",
 "tests cover a few hand-made conflicts",
 ["src/joedb/concurrency/Client.cpp", "src/joedb/concurrency/Client.h", "src/joedb/concurrency/File_Connection.cpp", "src/joedb/concurrency/Server_Connection.cpp", "src/joedb/concurrency/Connection.h", "src/joedb/journal/File_Hasher.cpp"],
 [("handshake and content check", "Client constructor, Connection::handshake, File_Hasher"), ("push and pull", "File_Connection.cpp, Server_Connection.cpp")])

prop("C04", "The server serializes its clients",
 "With any number of clients connected to a server, issuing locks, pulls, pushes, reads and disconnections in any order, at most one client holds the lock, lock requests are granted in order and never lost, and the database of the server is a sequential history of the accepted pushes. Every client that pulls receives exactly that history, waiting pulls are answered when data arrives, and data pushed by a client that disconnects half-way is never seen.",
 ["schedules", "fault_sequences"], "every order of requests and disconnections of several clients, including disconnection while holding or waiting for the lock and in the middle of a push",
 "tests connect one or two well-behaved clients",
 ["src/joedb/concurrency/Server.cpp", "src/joedb/concurrency/Server.h", "src/joedb/asio/Server.cpp", "src/joedb/concurrency/Server_Connection.cpp", "src/joedb/concurrency/Server_Client.cpp", "src/joedb/concurrency/Server_File.cpp"],
 [("lock queue", "Server::Session::lock, unlock"), ("push", "Server::Session::push"), ("pull waiters", "Server::Session::pull")])

prop("C05", "Malformed requests never break the server",
 "Whatever bytes a peer sends to a server and whenever it disconnects, the server does not crash, its database is not corrupted, other clients keep being served, and bytes outside the checkpointed database are not disclosed. A read-only or pull-only server is never modified.",
 ["inputs", "fault_sequences"], "every byte stream from a peer: truncated, out-of-range, negative or huge values in any request of the protocol",
 "tests send well-formed requests",
 ["src/joedb/concurrency/Server.cpp", "src/joedb/asio/Server.cpp", "src/joedb/journal/Async_Reader.cpp", "src/joedb/journal/Async_Writer.h"],
 [("request parsing", "Server::Session handlers")])

prop("C06", "A remote procedure call has the effect of a local call, exactly once",
 "Calling a procedure through the remote-procedure-call client has the same result and the same effect on the database of the server as calling it locally, exactly once and atomically, for any arguments and any interleaving of clients. An error thrown by the procedure reaches the caller and leaves the connection usable, and a client with different procedures is refused.",
 ["inputs", "schedules"], "every argument content, every sequence of calls, errors and pings of several clients, malformed requests",
 "tests call each procedure once",
 ["src/joedb/rpc/Server.h", "src/joedb/rpc/Client.h", "src/joedb/rpc/Procedure.h", "src/joedb/rpc/get_hash.cpp", "src/joedb/compiler/generator/RPC_Client_h.cpp"],
 [("call encoding", "rpc::Client::call"), ("dispatch", "rpc::Server")])

prop("C07", "Open modes and locks give the access they promise",
 "Opening a file creates, requires, preserves or truncates it exactly as its open mode says. A file opened for exclusive writing cannot be opened for writing by anyone else meanwhile, in any process, readers can still open it, and all of this is released when the file is closed or its process dies.",
 ["schedules", "configurations"], "every combination and order of openings and closings of the same file in every mode by several handles and processes, existing or not, empty or not",
 "tests try a few pairs of modes",
 ["src/joedb/journal/Posix_File.cpp", "src/joedb/journal/Open_Mode.h", "src/joedb/journal/Stream_File.cpp"],
 [("locks", "Posix_File::exclusive_lock, shared_lock, try_exclusive_lock"), ("modes", "Posix_File::open_file")])

prop("T01", "A text dump read back gives the same database",
 "The textual dump of any database, fed to the interpreter, rebuilds the same tables, fields, types, rows and values, and dumping again gives the same text. This holds for every string content, every integer and every finite floating-point value (database without references to dropped tables).",
 ["inputs"], "every schema and content",
 "tests compare the dumps of a few small databases",
 ["src/joedb/ui/Interpreter_Dump_Writable.cpp", "src/joedb/ui/type_io.cpp", "src/joedb/ui/write_value.cpp", "src/joedb/ui/Command_Interpreter.cpp", "src/joedb/ui/dump.cpp", "src/joedb/ui/Data_Manipulation_Command_Processor.cpp"],
 [("literals", "type_io.cpp"), ("dump", "Interpreter_Dump_Writable.cpp")])

prop("T02", "The JSON export is valid JSON with the content of the database",
 "The JSON export of any database is syntactically valid JSON, and contains for each table its row count and for each field the values of the live rows in order, with references to rows of the database translated to positions and null or dangling references as -1. Strings decode to the original text, or to the original bytes with base64; values that JSON cannot hold are replaced as announced, and the loss is reported.",
 ["inputs"], "every schema and content, including names, control characters, invalid UTF-8, infinities, deleted rows and dangling references",
 "tests compare one expected output",
 ["src/joedb/ui/json.cpp", "src/joedb/ui/base64.cpp", "src/joedb/ui/type_io.cpp"],
 [("writer", "write_json, write_json_string")])

prop("T03", "The SQL export loads into an SQL database with the same content",
 "The SQL export of any database is accepted by an SQL engine and creates the same tables, columns, rows and values, with references pointing to the same rows and null references as NULL (values that were never written may be NULL).",
 ["inputs"], "every schema and content expressible in SQL (names distinct when case is ignored, finite numbers), including quotes, special characters and keywords in strings",
 "tests compare one expected text, which no SQL engine reads",
 ["src/joedb/ui/SQL_Dump_Writable.cpp"],
 [("writer", "SQL_Dump_Writable.cpp")])

prop("T04", "Packing keeps schema and content and drops only history",
 "Packing any journal gives a journal with the same schema history, the same tables, row ids and values, and no more than the current content. Packing is idempotent, works in place with the original kept, and refuses blobs rather than losing them.",
 ["inputs", "histories"], "every history of schema and data events",
 "tests pack one small database",
 ["src/joedb/ui/dump.cpp", "src/joedb/ui/inplace_pack.cpp", "src/joedb/Selective_Writable.h", "src/joedb/ui/joedb_pack.cpp"],
 [("schema filter", "Selective_Writable"), ("data dump", "dump_data")])

prop("T05", "Merging concatenates tables and translates references",
 "Merging databases of the same schema gives, in each table, the live rows of all of them in order with the same values, and every reference still points to the row it pointed to (null stays null, nothing deleted comes back). Databases of a different schema are rejected without affecting the result.",
 ["inputs", "histories"], "every list of databases of a schema with any history of insertions and deletions, including dense, sparse and empty tables, with references to live rows or null",
 "tests merge two small dense databases",
 ["src/joedb/ui/merge.cpp", "src/joedb/ui/joedb_merge.cpp", "src/joedb/ui/dump.cpp"],
 [("dense and sparse copies, reference offsets", "merge()")])

prop("T06", "Any command text is handled safely by the interpreter",
 "Whatever text is given to the interpreter, each line is either executed with its documented effect or reported as an error and without effect, and the interpreter continues with the next line: no crash, no internal assertion, no endless loop, no corruption of the database. The file that results always replays to the database that the interpreter shows.",
 ["inputs"], "every sequence of lines, valid commands, nearly valid commands and noise (a maximum row id is set; a command that stands for several events is executed one event after the other)",
 "tests interpret a fixed script",
 ["src/joedb/ui/Command_Interpreter.cpp", "src/joedb/ui/Command_Processor.cpp", "src/joedb/ui/Readable_Command_Processor.cpp", "src/joedb/ui/Writable_Command_Processor.cpp", "src/joedb/ui/Data_Manipulation_Command_Processor.cpp", "src/joedb/ui/Readable_Writable_Command_Processor.cpp"],
 [("command processors", "src/joedb/ui/*_Command_Processor.cpp"), ("parsing of values", "type_io.cpp")])

prop("T07", "Pushing, converting and backing up copy exactly the requested prefix",
 "Copying a journal with the push and convert tools, up to its checkpoint, up to a requested position or beyond the header, gives a file whose events are exactly the requested prefix of the source, correctly checkpointed and accepted for writing, and leaves the source unchanged. Repeating a push adds only what is new.",
 ["inputs", "histories"], "every journal, every requested end between two events, sources with aborted tails, targets that already hold a prefix, plain and compressed targets",
 "the tools themselves are not run by the unit tests",
 ["src/joedb/ui/process_journal_pair.cpp", "src/joedb/ui/joedb_push.cpp", "src/joedb/ui/joedb_convert.cpp", "src/joedb/concurrency/Client.cpp", "src/joedb/concurrency/File_Connection.cpp", "src/joedb/ui/Parsed_Client.cpp", "src/joedb/ui/File_Parser.cpp"],
 [("copy", "Abstract_File::copy_to, Writable_Journal::pull_from"), ("position handling", "Client::push_if_ahead, process_journal_pair")])

prop("T08", "Event forwarding delivers every event once, in order, to every listener",
 "A multiplexer forwards each event, with all its arguments, exactly once and in order to each of its listeners; a filter forwards exactly the events of its declared kind and reports blobs it has seen; a looping listener sees a vector event as the equivalent sequence of single events. A database fed through any composition of these equals a database fed directly.",
 ["inputs", "programs"], "every sequence of events, every composition of forwarders",
 "tests forward a few events",
 ["src/joedb/Multiplexer.cpp", "src/joedb/Multiplexer.h", "src/joedb/Selective_Writable.h", "src/joedb/Selective_Writable.cpp", "src/joedb/Writable.cpp"],
 [("forwarding of each event kind", "Multiplexer.cpp, Selective_Writable.cpp"), ("default vector handling", "Writable.cpp")])

prop("T09", "A database kept as an editable text file reads back the same",
 "A database that is kept in a human-readable text file holds after each checkpoint, reopening or read-only opening exactly the events that were written to it, blobs included, and the text only grows by the new events. Commands and comments added to the text by hand are read as the corresponding events.",
 ["inputs", "histories"], "every history of events over several sessions and manual edits, every string and finite number",
 "tests open one small text file",
 ["src/joedb/journal/Interpreted_File.cpp", "src/joedb/journal/Interpreted_File.h", "src/joedb/ui/Interpreter_Dump_Writable.cpp", "src/joedb/ui/type_io.cpp"],
 [("text kept beside a journal in memory", "Interpreted_File.cpp"), ("text of each event", "Interpreter_Dump_Writable.cpp")])

prop("U01", "Digests and text encodings match their standards",
 "The SHA-256 digest of any byte string, file range or journal prefix equals the standard one whatever the size of the pieces read; the fast digest is a function of content only and distinguishes files that differ where it samples; base64 encoding and decoding match the standard and are inverse of each other.",
 ["inputs"], "every content, every range, every pattern of short reads",
 "tests hash a few strings",
 ["src/joedb/journal/SHA_256.h", "src/joedb/journal/File_Hasher.cpp", "src/joedb/ui/base64.cpp"],
 [("digest", "SHA_256"), ("ranges", "File_Hasher::get_hash, get_fast_hash"), ("base64", "base64_encode, base64_decode")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
