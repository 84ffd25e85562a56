"""The checks: property -> harness binaries, technique, level, note."""
PBT = "property-based testing: "
CHECKS = {
 "S01": dict(harness="h_journal", technique=PBT + "random event histories, round trip through the journal, recorded listener as oracle",
   note="Histories of up to some hundred events of every kind, ids and values at encoding boundaries, several sessions, several readers with random pulls and short reads. Trusts the memory files of the harness."),
 "S02": dict(harness="h_journal", level="fault_enumeration", technique="fault injection with generated histories: a crash after every file operation and inside writes, oracle is the list of committed transactions",
   note="Crash points are enumerated over the log of file operations of random histories, with repeated crashes. A crash keeps a prefix of the operations, and possibly a prefix of one write."),
 "S03": dict(harness="h_journal", level="fault_enumeration", technique="fault injection with generated histories: power failure model (un-synchronized writes lost, kept or torn), oracle is the list of hard checkpoints",
   note="After each possible point of a random history, random subsets of the writes since the last synchronization survive, possibly torn at any byte, except that one aligned 8-byte checkpoint value is written atomically."),
 "S04": dict(harness="h_journal", technique=PBT + "random histories with abandoned tails in every recovery mode, reference model of the visible events",
   note="Random checkpointed prefix, abandoned tail and recovery mode, followed by more transactions. One known finding (KF1)."),
 "S05": dict(harness="h_format", technique="structure-aware mutation fuzzing under AddressSanitizer and UndefinedBehaviorSanitizer, with internal assertions enabled",
   note="Valid journals with wild ids, then byte, number, operation and header mutations; database, step by step, text dumps, writable opening."),
 "S09": dict(harness="h_format", technique=PBT + "differential testing against an independent encoder and decoder of the format",
   note="Journals written by joedb are decoded by the harness and the reverse, byte for byte where the format leaves no choice."),
 "D01": dict(harness="h_db", technique=PBT + "random valid and invalid events, in-memory reference model",
   note="Every event kind over small schemas with drops and re-creations, ids at boundaries; the model decides which events are invalid. Events with zero rows may be accepted or rejected."),
 "D02": dict(harness="h_db", technique=PBT + "random allocations, insertions and deletions against a set of ids, on both kinds of keepers",
   note="Freedom keepers directly (sparse and dense) and through tables; membership, bounds, forward and backward iteration after every operation."),
 "D07": dict(harness="h_db", technique=PBT + "random journals with blobs, read back from every copy and compared with the written bytes",
   note="Read immediately, after more writes, after reopening, read-only, and after a replay in another journal; listeners that want blobs and that do not."),
 "T08": dict(harness="h_db", technique=PBT + "random compositions of multiplexers and filters against the recorded events",
   note="Trees of multiplexers, schema and data filters, loop adapters; recorded event lists compared with what the declared kind implies."),
 "S06": dict(harness="h_files", technique=PBT + "random operations on ten kinds of files against a plain byte array, differential",
   note="Up to three files of ten kinds (memory, system, portable, streams, slices, short reads) with copies and comparisons between them, and the read and write buffer on top."),
 "S08": dict(harness="h_files", technique=PBT + "random stream operations, differential against an unbuffered stream buffer over a byte array",
   note="Formatted and unformatted operations on the adapter over four kinds of files; a seek, tell or flush between reading and writing."),
 "U01": dict(harness="h_files", technique=PBT + "differential against independent SHA-256 and base64, and metamorphic relations for the fast digest",
   note="Strings, ranges of files read by random pieces, journals, and large files for the fast digest."),
 "S07": dict(harness="h_enc", technique=PBT + "random operations on encoded files against a plain byte array, and journals against a plain file, differential",
   note="Identity, Brotli and a position-dependent codec; overlapping writes, holes, overflow of the write buffer, reopening, and read-only openings at any time."),
 "D03": dict(harness="h_compiled", technique=PBT + "random schemas and transactions, compiled database against the interpreted one and a model (differential)",
   note="Ten generated schemas, compiled from the current compiler; every way of opening the database. One known finding (KF2)."),
 "D04": dict(harness="h_compiled", technique=PBT + "random operations on indexed tables, sorted list of rows as oracle",
   note="Unique and non-unique indexes over one to three fields of every type, updates, vectors, deletions, refused duplicates."),
 "D05": dict(harness="h_compiled", technique=PBT + "random older schemas opened by the current compiled code, oracle is the expected result of the upgrade",
   note="Prefixes of the schema history, with data; custom functions recorded; schemas from another history must be refused and left unchanged."),
 "D06": dict(harness="h_compiled", driver="d06.py", technique=PBT + "random schemas and option files through the compiler, generated code compiled and run against the interpreted database and a model; mutated inputs of the compiler",
   note="24 new schemas per run, with keyword and library names; 400 mutated inputs, refused or compiled."),
 "T01": dict(harness="h_ui", technique=PBT + "random databases and journals through the text dump and the interpreter (round trip), content compared with a model",
   note="Database dumps and journal dumps, in process and through the joedbi and joedb_logdump tools built with sanitizers; 17 digits as the tools use; no references to dropped tables."),
 "T02": dict(harness="h_ui", technique=PBT + "random databases, output parsed by a strict JSON parser and compared with a model",
   note="In process and through joedb_to_json; strings around the boundaries of UTF-8, base64, infinities, deleted rows, dangling references to live tables."),
 "T03": dict(harness="h_sql", technique=PBT + "random journals loaded into SQLite, tables compared with a model (differential)",
   note="SQL text executed by the installed sqlite3 library with foreign keys parsed; finite numbers to 14 digits; names distinct when case is ignored."),
 "T04": dict(harness="h_ui", technique=PBT + "random histories packed, schema events, content and size against a model; idempotence",
   note="pack(), joedb_pack, in-place packing with its backup; refusal of blobs."),
 "T05": dict(harness="h_ui", technique=PBT + "random lists of databases merged, live rows and references against models",
   note="merge() and joedb_merge; dense, sparse and empty tables, deleted last rows; other schemas must be refused without effect."),
 "T06": dict(harness="h_ui", technique="grammar-based and mutation fuzzing of interpreter scripts under sanitizers, model of the effect of each line",
   note="Valid lines with known effect, neutral lines, mutated lines and noise; a line that fails must have no effect, and the file must replay to the database shown. max_record_id is set."),
 "T07": dict(harness="h_push", technique=PBT + "random sources, targets and options for the push and convert tools, byte and event prefixes as oracle",
   note="joedb_push and joedb_convert built with sanitizers; plain and Brotli sources and targets, aborted tails, divergent targets, every check and recovery mode; differential of --db dump and sql with joedb_logdump."),
 "T09": dict(harness="h_ui", technique=PBT + "random sessions on text files, events read back compared with those written; mutated text",
   note="Several sessions of writing, checkpoints, read-only openings, blobs; events appended to the text as commands."),
 "C01": dict(harness="h_clients", technique=PBT + "random clients and transactions under a deterministic scheduler that generates the interleaving; serializability oracle over the recorded history",
   note="Two to four clients of five kinds in threads that switch at any file operation, over a shared in-memory file with range locks; split reads and writes, failures and deaths in a quarter of the cases."),
 "C02": dict(harness="h_clients", level="fault_enumeration", technique="fault injection in generated histories of clients under a deterministic scheduler: transactions that throw at any step, clients that die at any file operation; history as oracle",
   note="The same machine as C01 with a third of failing transactions, a quarter of mortal clients, and backups by File_Connection."),
 "C03": dict(harness="h_replica", level="fault_enumeration", technique=PBT + "random histories of replicas (offline changes, branches, flipped bytes, restored backups) and clients on file and server connections with broken channels, byte-exact model of both histories as oracle",
   note="Journal, database, read-only and Server_File clients over File_Connection, Pullonly_Journal_Connection, Server_Connection and Robust_Connection, local files in memory or shared by two clients, keep-alive pings; after a broken channel either outcome of the interrupted operation is accepted. The fast content check is only expected to detect what it reads."),
 "C04": dict(harness="h_server", level="fault_enumeration", technique=PBT + "random requests and disconnections of up to 6 raw sessions with a server in the same process, sequential model of the protocol as oracle (replies, blocking, lock queue, final file)",
   note="Memory, exclusive, shared and read-only server files; after each request the state of the server is synchronized by a probe, so that the order is the one of the model; pushes in several pieces, disconnections in any state, other processes that write to a shared file; lock timeouts with a tolerant oracle."),
 "C05": dict(harness="h_server", technique=PBT + "grammar-based malformed requests on several sessions at a time, reference parser of the protocol as oracle for the accepted pushes, secret markers for disclosure, under address and undefined-behaviour sanitizers",
   note="Peers that send garbage, truncated, negative, huge or overflowing values, or hold the lock, and disconnect at any byte; well-behaved sessions must be served before, during and after."),
 "C06": dict(harness="h_rpc", technique=PBT + "random calls of generated RPC procedures from several clients, raw sessions with malformed requests, differential against local calls on a twin database and a model",
   note="Generated clients and servers over the in-process network; several messages and scalars, procedures that throw, large texts, partial reads and writes, keep-alive pings, wrong handshakes, truncated requests; message sizes that would exhaust memory are not generated."),
 "C07": dict(harness="h_modes", technique=PBT + "random openings, locks, transactions and deaths of several real processes on a real file, against a model of opening modes and locks",
   note="Forked processes with real open-file-description locks in a scratch directory; at most one process waits at a time; blocking is observed by polling."),
}
