#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the table below is its source)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "A JSON value survives printing and re-parsing unchanged",
  "Printing any JSON value (null, booleans, the full 64-bit integer range, finite floats, strings of arbitrary Unicode text including control characters and NUL, and arrays and objects nested in any way) and parsing the text yields an equal value, whether it is printed compactly or pretty-printed and with or without escaping of non-ASCII characters. The printed text is valid JSON that an independent parser reads to the same value. Floats come back equal to the twelve significant digits the printer writes, and everything else comes back exactly.",
  ["inputs"], "all JSON values (any tree shape, any Unicode string, any int64, any finite double), both layouts, both escaping modes",
  "The unit tests print and parse a few fixed documents; they cannot visit every string/number/nesting combination or all four printing modes.",
  ["src/text/json/base.h", "src/text/json/parser.cpp", "src/text/json/parser.h"],
  [("json value printers and string escaping", "src/text/json/base.h"), ("json_parser", "src/text/json/parser.cpp")])
p("C02", "Every valid JSON text parses to the value the grammar says",
  "Any RFC 8259 document whose integers fit in 64 bits and whose other numbers neither overflow nor underflow a double is accepted and yields exactly the value an independent parser gives: any insignificant whitespace, any escape form including surrogate pairs, any number form with fraction and exponent, and duplicate keys resolved to the last one. Several documents concatenated in one input are returned one by one, each intact, followed by an end-of-data error; numbers without fraction or exponent come back as integers and the others as floats. The event-callback interface reports the same document.",
  ["inputs"], "all well-formed JSON texts and all concatenations of them, read from a stream",
  "Tests parse a few dozen fixed texts; the grammar's combinations of whitespace, escapes, exponents and nesting are unbounded.",
  ["src/text/json/parser.cpp", "src/text/json/parser.h"],
  [("json_parser::parse_impl, parse_number, parse_string", "src/text/json/parser.cpp")])
p("C03", "Malformed JSON is refused cleanly, never misread as complete",
  "A text cut off inside a value, or damaged in its structure (a missing or wrong bracket, quote, colon or comma, an unknown literal, a bad escape, an unescaped control character, an integer beyond 64 bits), is refused with a parse or end-of-data error; the parse error for a character that cannot stand between two tokens names its line and character. Whatever bytes are given (nested to a moderate depth), the parser terminates with a value or one of those errors, never touches memory it does not own, and a value it does return from valid UTF-8 can be printed and re-parsed to an equal value.",
  ["inputs"], "all byte strings, in particular every proper prefix and structural mutation of valid documents",
  "Tests try a handful of bad documents; the space of prefixes, mutations and arbitrary bytes is unbounded and memory errors are invisible without instrumentation.",
  ["src/text/json/parser.cpp", "src/text/json/parser.h"],
  [("json_parser error paths", "src/text/json/parser.cpp")])
p("C04", "Typed values survive conversion to JSON and back",
  "Converting a program value (booleans, integers, floats, strings, sequences, string-keyed maps, optional values and user structures that list their members, nested in any way short of optionals of optionals) to JSON and converting that JSON back to the same type gives an equal value, directly and through text. JSON whose shape does not match the requested type - a wrong kind of value or a missing required member - is reported with a bad-cast error instead of producing a value, while a missing optional member yields an empty optional; the conversion with a default yields the default instead of an error, member by member.",
  ["inputs"], "all values of the supported types and all mismatching JSON shapes",
  "Tests convert a few constants per type; the property ranges over all nested values and all mismatches.",
  ["src/text/json/cast.h", "src/text/json/serialization.h"],
  [("to_json / from_json overloads", "src/text/json/cast.h"), ("member-by-name archives", "src/text/json/serialization.h")])
p("C05", "JSON documents behave like a mutable tree under any edit history",
  "Any sequence of edits and queries on an acyclic JSON document (adding, overwriting and looking up object members, appending, replacing and reading array elements within range, counting, iterating, merging objects, cloning) gives the results of an ordinary ordered-map/array tree; copies share structure while a clone is fully independent. Operations on a value of the wrong kind, or lookups of missing members through a read-only view, raise an error and leave the document unchanged.",
  ["histories"], "all sequences of document operations",
  "Tests exercise a few operations in isolation on fixed documents, not arbitrary histories with sharing and cloning.",
  ["src/text/json/base.h"],
  [("json, json_array, json_object", "src/text/json/base.h")])
p("C06", "CSV text yields exactly the records and fields that were written",
  "For any table whose fields contain arbitrary non-NUL text, written as comma-separated records with fields quoted as needed (embedded quotes doubled, embedded commas and line breaks inside quotes) and LF or CRLF record ends, reading it back yields the same records with the same fields, whatever the record length and with or without a final line break. Any other input bytes - unbalanced quotes, a trailing carriage return, stray text - are read without touching memory outside the input.",
  ["inputs"], "all tables, all quoting choices, all record lengths and line endings; all byte strings for safety",
  "Tests parse a few short files; internal buffer boundaries and quoting/line-ending combinations are never reached.",
  ["src/text/csv.h"], [("csv parser row/field reader", "src/text/csv.h")])
p("C07", "Generated XHTML keeps text and attributes as data, never as markup",
  "For any tree of elements built with XML names for tags and attributes and arbitrary attribute values and text, the produced markup (plain or pretty, and when built through the nested-tag page builder) parses with an independent XML reader to the same tree: same nesting and order, same attributes, same character data. No text or attribute content can introduce or close an element or attribute.",
  ["inputs", "programs"], "all element trees with arbitrary text and attribute strings",
  "There is no test that feeds hostile text through every position; the property ranges over all strings and trees.",
  ["src/text/xhtml.h", "src/text/xhtml.cpp", "src/network/cgi/inserter.cpp", "src/network/cgi/xhtml_builder.cpp"],
  [("escaping in element printers", "src/text/xhtml.cpp"), ("tag nesting by scope", "src/network/cgi/inserter.cpp")])
p("C08", "Binary archives give back exactly what was stored",
  "Storing any sequence of values of the supported types (all arithmetic types, strings with any bytes, code-point strings, arrays, pairs, vectors, deques, lists, sets, maps, unordered sets and maps, embedded streams, user structures, whose members may depend on other members) in a binary archive and loading them in the same order gives equal values, and loading consumes exactly the bytes that were stored. The layout is fixed: little-endian scalars and 32-bit element counts, independent of the container used.",
  ["inputs", "programs"], "all sequences of values over all supported type combinations",
  "Tests store a fixed value per type; sequences, nesting, extreme sizes and byte-exact consumption are sampled at single points.",
  ["src/data/serialization/base.h", "src/data/serialization/vector.h", "src/data/serialization/map.h", "src/data/serialization/string.h", "src/data/serialization/iostream.h", "src/data/serialization.h"],
  [("binary_iarchive / binary_oarchive", "src/data/serialization/base.h"), ("per-container serialize functions", "src/data/serialization/")])
p("C09", "Truncated archives are detected and never corrupt memory or hang",
  "Loading any supported type from an archive cut at any byte before the end of a value leaves the archive in a failed state that a caller can test, and terminates. The same holds for an archive whose element counts promise more elements than there is data for, and neither ever touches memory outside the objects being loaded or loops forever.",
  ["inputs", "fault_sequences"], "all archives of all supported types cut at every position or with damaged bytes",
  "Tests load only complete archives they have just written.",
  ["src/data/serialization/base.h", "src/data/serialization/iostream.h", "src/data/serialization/vector.h", "src/data/intern.h"],
  [("archive state checks", "src/data/serialization/base.h")])
p("C10", "UTF-8 and code-point strings convert losslessly and reject bad bytes",
  "Converting any sequence of Unicode code points to UTF-8 and back gives the same sequence, valid UTF-8 text converts to exactly its code points and back to the same bytes, and the character-by-character readers agree with the whole-string conversion. Byte sequences that are not valid UTF-8 (truncated sequences, stray or missing continuation bytes, overlong forms, values out of range) fail the UTF-8 check, raise an error when errors are asked for, and otherwise become U+FFFD, one for each bad lead byte with the continuation bytes that belong to it, leaving the surrounding text as it was. Half-width and full-width conversions map each character, including voiced and semi-voiced kana, to its counterpart and leave all others alone.",
  ["inputs"], "all code-point sequences and all byte strings",
  "Tests use a few fixed Japanese strings and bad sequences.",
  ["src/data/string/ustring.h", "src/data/string/ustring.cpp"],
  [("ustring conversions and chars_to_uchar", "src/data/string/ustring.cpp")])
p("C11", "Base64 encodes per RFC 4648, decodes to the same bytes, refuses junk",
  "Encoding any byte string gives the RFC 4648 text an independent encoder gives, and decoding that text returns the original bytes. Text that is not a complete, properly padded base64 encoding - a wrong length, a foreign character, padding anywhere but at the end, or characters after padding - is refused with an error instead of yielding bytes.",
  ["inputs"], "all byte strings; all texts",
  "Tests check the RFC vectors and a few bad inputs only.",
  ["src/data/encoding/base64.cpp", "src/data/encoding/base64.h"],
  [("base64_encode / base64_decode", "src/data/encoding/base64.cpp")])
p("C12", "MD5 digests are the RFC 1321 digests of the whole input",
  "The digest of any byte string, given as a string or read from a stream, equals the RFC 1321 digest computed independently, for every length including block and padding boundaries, and when several threads compute digests at the same time. Digests print as 32 lower-case hex digits whatever formatting state the output stream is in, and are ordered strictly, with two digests unordered exactly when their sixteen bytes are equal.",
  ["inputs"], "all byte strings of all lengths, all stream states, all digest pairs",
  "Tests hash seven RFC strings, all shorter than two blocks.",
  ["src/data/digest/md5.cpp", "src/data/digest/md5.h"],
  [("md5sum::calc", "src/data/digest/md5.cpp"), ("digest comparison and printing", "src/data/digest/md5.h")])
p("C13", "Bit codes decode to the sequence that was encoded",
  "Any sequence of items written with a mixture of the bit-level codes (single bits, fixed-width words, bytes, gamma, delta, Rice and prefix codes, in every supported parameter range) and read back with the same sequence of codes gives the same items. This holds whether the reader is given the writer's buffer, a copy of its bytes in memory, a stream or a file, also after seeking to a recorded position, and the bit count reported is what was written.",
  ["inputs", "histories"], "all interleavings of code kinds with all in-range values and parameters",
  "Tests encode each code separately over short fixed ranges.",
  ["src/data/code/code.cpp", "src/data/code/code.h"],
  [("bit_encoder/bit_decoder and the code classes", "src/data/code/code.cpp")])
p("C14", "A sparse matrix stores and transposes exactly the data it was given",
  "Rows of index/value pairs are returned exactly for every row of a matrix built from any rows in increasing index order, also after the closed writer's file is loaded. Transposing, in however many slices the memory allows, yields exactly the entries with row and column exchanged, in increasing order.",
  ["inputs", "histories"], "all matrices and construction histories",
  "Tests build a few small matrices.",
  ["src/data/sparse_matrix/sparse_matrix.cpp", "src/data/sparse_matrix/sparse_matrix.h"],
  [("row encoding, transpose", "src/data/sparse_matrix/sparse_matrix.cpp")])
p("C15", "Multi-pattern and single-pattern search report exactly the occurrences",
  "Searching any text for any set of distinct non-empty words, over all byte values, with the multi-pattern matcher reports every occurrence of every word at its right position with its right word number, and nothing else. The single-pattern matcher returns the first occurrence at or after the start exactly as a naive search does, for any pattern and text including empty ones.",
  ["inputs"], "all word sets, patterns and texts over all bytes",
  "Tests search a few fixed words in fixed texts; overlapping, nested, repetitive and binary words are not covered.",
  ["src/data/string/aho_corasick.cpp", "src/data/string/aho_corasick.h", "src/data/string/kmp.h"],
  [("automaton construction and failure links", "src/data/string/aho_corasick.cpp"), ("KMP failure table", "src/data/string/kmp.h")])
p("C16", "Sequence algorithms return true optima",
  "For any sequences, the edit distance is the minimum number of insertions, deletions and substitutions, the length reported for the longest common subsequence is that of a longest one, and the length reported for the longest increasing subsequence is that of a longest strictly increasing one, for every element type.",
  ["inputs"], "all pairs of sequences",
  "Tests use a few fixed words.",
  ["src/data/string/algorithm.h"], [("edit distance, lcs, lis", "src/data/string/algorithm.h")])
p("C17", "String helpers split, strip, join and rewrite exactly as specified",
  "For any strings, splitting and re-joining on a separator restores the text and yields the documented pieces, stripping removes exactly the leading and/or trailing white space (or the given set), and affix tests, case conversion and replacement agree with direct definitions. They never read outside their arguments, for byte strings and for code-point strings alike.",
  ["inputs"], "all strings and separators, both character types",
  "Tests use a few short ASCII examples per helper.",
  ["src/data/string/utility.h"], [("string utility templates", "src/data/string/utility.h")])
p("C18", "The LRU cache is a bounded map that drops the least recently used key",
  "After any sequence of operations the cache holds at most its capacity of entries, looking up a held key returns the value stored for it, and when room is needed the entry dropped is the one least recently stored or looked up. Storing under a key that is already held leaves the held value in place, removed and never-stored keys are absent, and a cleared cache is empty.",
  ["histories"], "all operation sequences over all capacities",
  "Tests run a few short fixed sequences.",
  ["src/data/lru.h"], [("list + map recency order", "src/data/lru.h")])
p("C19", "Interning is a stable bijection between keys and dense numbers",
  "After any sequence of insertions, lookups and saves and reloads, the numbers given to distinct keys are exactly 0..n-1 in order of first insertion, the same key always gets the same number, and number-to-key and key-to-number lookups are inverse. Lookups that are not asked to create never change the table and report a missing key as such.",
  ["histories"], "all operation sequences, with save/reload at any point",
  "The tests intern a few words once.",
  ["src/data/intern.h"], [("two-way table", "src/data/intern.h")])
p("C20", "Prefix-sum trees agree with plain arrays under any updates",
  "After any sequence of point updates and queries, every prefix and range sum reported equals the sum over a plain array that received the same updates, and each element reads back as its own accumulated value.",
  ["histories"], "all sizes and update/query sequences",
  "Tests check a fixed sequence at a fixed size.",
  ["src/data/fenwick_tree.h"], [("Fenwick tree", "src/data/fenwick_tree.h")])
p("C21", "Configuration files yield the settings written in them",
  "For any configuration text made of sections, key/value lines, comments and blank lines, every key is found in its section with its value, the last assignment wins, keys that were not written are reported as missing, and malformed lines are reported as errors that name the file, the line and the position in it (of the unexpected character, or the end of the line when a character is missing).",
  ["inputs"], "all configuration texts",
  "Tests read a few fixed files.",
  ["src/data/config_file.h", "src/data/config_file.cpp"], [("config parser", "src/data/config_file.cpp")])
p("C22", "URIs split into their components and rebuild; escaping is reversible",
  "Any RFC 3986 URI reference, absolute or relative (user info, names, IPv4 and IPv6 literals, ports, percent-escapes, any path, query and fragment), is split into exactly its components, and a text that is not one yields none; printing a parsed URI that has scheme and authority gives an equivalent one (an empty path prints as a slash) that splits the same way. Percent-encoding any byte string yields only unreserved characters, plus signs and %XX escapes, and decoding restores the bytes; an escape cut short by the end of the text is decoded as the characters it is.",
  ["inputs"], "all URIs built from the RFC 3986 grammar; all byte strings",
  "Tests parse a small table of URIs and encode a few strings.",
  ["src/network/uri.cpp", "src/network/uri.h"], [("URI grammar functions, encode/decode", "src/network/uri.cpp")])
p("C23", "HTTP requests and responses arrive exactly as they were sent",
  "For any method, target, status, header fields (lines below 4096 bytes, values without white space at their ends) and body, sending a request or response over a connection and reading it at the other end gives the same method, path and query, version, status and reason, header values (names matched ignoring case) and exactly the body bytes, for bodies with a declared length (of any size), chunked bodies split in any way, empty bodies and bodies ended by close. Several messages on one connection are each delivered intact, whatever way the bytes are fragmented in transit, and no received bytes crash the reader or keep it running once the connection has ended. A header is a list of fields: setting, erasing and looking up a name, ignoring case, changes that field alone and keeps the order. A message that cannot be sent whole, a server that cannot be reached, and an answer without a proper status line each raise an error.",
  ["inputs", "schedules"], "all messages, body framings, chunk splits and transport fragmentations",
  "There is no unit test of message transfer over sockets; the framings and fragmentations are unbounded.",
  ["src/network/http/base.cpp", "src/network/http/base.h", "src/network/http/stream.h"],
  [("header, request, response, body stream buffers", "src/network/http/base.cpp")])
p("C24", "CGI programs see exactly what the client submitted; the client what they wrote",
  "For any form submission (query string, URL-encoded body or multipart body with any boundary that does not occur in the data and names free of quotes, backslashes and line breaks), the program sees every field name with its values in order, the last value as the single value, and every uploaded file's name and exact content, and the client receives the status, headers and exact bytes the program wrote - in process, as a CGI program, as a FastCGI program whatever pieces the streams arrive in, and through the stand-alone server. Submissions longer than the limit, shorter than declared or multipart without a boundary are answered with an error status and never reach the program, malformed multipart bodies are read or refused without hanging or touching foreign memory, and nothing from one request is visible in the next. Started from a command line, a program runs as a server on the port, with the number of threads and the time limit its options give (an idle connection is given up after the limit and its thread serves again), or as a CGI program; wrong options or a port in use end it without serving.",
  ["inputs", "histories"], "all submissions and request sequences, all limits, all gateways",
  "No unit test covers request parsing or the gateways.",
  ["src/network/cgi/base.cpp", "src/network/cgi/base.h", "src/network/cgi/cgi.cpp", "src/network/cgi/fcgi.cpp", "src/network/cgi/server.cpp", "src/network/cgi/xhtml_cgi.cpp"], [("parse_input, parse_multipart_input, exec", "src/network/cgi/base.cpp"), ("run_fcgi", "src/network/cgi/fcgi.cpp")])
p("C25", "Socket streams deliver bytes exactly once, in order, whatever the splits",
  "Any sequence of reads, writes, line reads, single-character reads and flushes on the two ends of a connection delivers exactly the bytes written, in order, none lost, duplicated or invented, whatever the buffer sizes, partial transfers and interruptions by signals; a read returns fewer bytes than asked only at end of stream, and line reads split at line ends and at the given limit. A closed and reconnected socket starts clean: no byte of an earlier connection appears on a later one. A graceful close delivers everything written even if the peer's bytes were not all read. A server socket is alive from a successful creation until it is closed, accepts connections in the order they were made, reports its port and the peers' addresses, and holds exactly one descriptor while alive; connecting tries a host's addresses in order; time limits reach the system; a failing system call is reported and leaks nothing, and a write or flush on a connection that breaks reports how much went through.",
  ["inputs", "histories", "fault_sequences"], "all operation sequences on both ends, all kernel-level partial transfers",
  "No test covers socket I/O; partial transfers and interruptions occur at random in practice.",
  ["src/network/socket.cpp", "src/network/socket.h", "src/network/iostream.h"],
  [("stream_socket buffering", "src/network/socket.cpp"), ("socketbuf", "src/network/iostream.h")])
p("C26", "A remote call returns what the registered function returns, or an error",
  "For any argument values of serialisable types, a remote call runs the function registered under that name exactly once with equal arguments and returns an equal result, also when several clients, each with its own client object, call concurrently and a client calls repeatedly on one connection. Calling an unknown name, calling with a different version, or having no server raises the corresponding error naming the method or both versions; when the function throws a standard exception the caller gets an error that tells its message. The same client and server keep working afterwards. A request that is cut off anywhere never runs a function, whole requests before it do and are answered; an answer that is cut off raises an error. Stopping a server ends it once its connections are over, and serving on a port in use is refused; a connection that cannot be accepted does not end a server, and one with a time limit gives up a peer that sends nothing, or takes nothing, for longer.",
  ["inputs", "histories", "schedules"], "all call sequences over all argument values, with concurrent clients and error calls interleaved",
  "The existing tests make a few fixed calls.",
  ["src/network/rpc/base.cpp", "src/network/rpc/base.h", "src/network/rpc/caller.h", "src/network/rpc/invoker.h"],
  [("request/response framing", "src/network/rpc/caller.h"), ("dispatch loop", "src/network/rpc/base.cpp")])
p("C27", "IPv4 addresses convert to and from text faithfully and order consistently",
  "Every address prints as its dotted-decimal form and that text reads back as the same address; text that is not four decimal numbers from 0 to 255 separated by dots reads as the no-address value (numbers with leading zeros may be read as decimal or refused). Equality and ordering agree with comparing the four numbers left to right.",
  ["inputs"], "all 2^32 addresses, all texts",
  "Tests check a short table of strings.",
  ["src/network/ipv4.cpp", "src/network/ipv4.h"], [("ipv4_address", "src/network/ipv4.cpp")])
p("C28", "The DNS cache serves only fresh answers, within its size, and forgets on demand",
  "For any sequence of lookups, deletions, clears and passage of time, also from several threads at once, an answer served without asking the resolver is the answer obtained for the same host and port less than the expiry time ago (in whole seconds of the clock); lookups of an entry that is held and fresh do not ask again. The cache (with room for at least one entry) never holds more than its maximum number of entries, makes room by dropping the least recently used one (to the second), and deleted or cleared entries are asked for again.",
  ["histories", "schedules"], "all lookup/delete/clear histories over a controlled clock and resolver, and concurrent lookups",
  "There is no test of the cache; expiry and concurrency need a controlled clock and resolver.",
  ["src/network/dns.cpp", "src/network/dns.h"], [("cached_dns_resolver", "src/network/dns.cpp")])
p("C29", "The producer/consumer buffer is a bounded FIFO under every schedule",
  "Whatever the interleaving of producers and consumers, every pushed item is popped at most once and, when popped, in the order it was pushed, the buffer never holds more than its capacity, and no thread stays blocked while it could proceed. A timed push or pop that reports failure did nothing and had waited at least its time limit, and one that reports success did its work.",
  ["schedules", "histories"], "all thread interleavings, spurious wake-ups and timings of any small program of buffer operations",
  "Tests run a couple of threads under whatever schedule the machine happens to choose.",
  ["src/concurrent/pcbuf.h", "src/concurrent/condition.cpp", "src/concurrent/mutex.cpp"], [("lock + condition loops", "src/concurrent/pcbuf.h")])
p("C30", "A synchronising variable hands each value over exactly once",
  "Under every interleaving of put, take, read, swap and their non-blocking forms, the operations behave as if executed one at a time on a single slot that is either empty or holds one value: a put value is taken at most once, never overwritten while full, reads return the value in place, and non-blocking forms succeed exactly when the slot allowed it. No thread stays blocked while the slot is in a state that lets it proceed.",
  ["schedules", "histories"], "all interleavings and spurious wake-ups of any small program of operations",
  "No test runs it concurrently.",
  ["src/concurrent/mvar.h", "src/concurrent/condition.cpp", "src/concurrent/mutex.cpp"], [("slot under recursive lock", "src/concurrent/mvar.h")])
p("C31", "Channels deliver every message to every branch in order, exactly once",
  "Under every interleaving, each message written to any branch of a channel is received exactly once on every branch that existed when it was written, in one order common to all branches and consistent with each writer's order; concurrent readers of one branch share its messages without loss or duplication. A message put back is the next one read on that branch only, and no reader stays blocked while its branch holds a message.",
  ["schedules", "histories"], "all interleavings of writers, readers, duplications, put-backs and branch destruction",
  "No test runs it concurrently.",
  ["src/concurrent/chan.h"], [("linked branch set under lock", "src/concurrent/chan.h")])
p("C32", "The quantity semaphore never hands out more than it has, nor less",
  "Under every interleaving of waits and signals of any amounts, the total amount acquired never exceeds the initial quantity plus what was signalled, each wait for an amount takes exactly that amount, and no waiter stays blocked while enough is available for it.",
  ["schedules", "histories"], "all interleavings and amounts",
  "No test runs it concurrently or with amounts other than one.",
  ["src/concurrent/qsem.h"], [("counter under lock", "src/concurrent/qsem.h")])
p("C33", "Locks exclude, nest and time out as promised under every schedule",
  "Under every interleaving, at most one thread is inside a mutex or a write lock, no reader is inside together with a writer, readers can share, a recursive mutex can be re-locked by its holder and is free only after as many unlocks and cannot be unlocked by another thread, and scoped guards release exactly when they acquired. A timed lock reports success only when it holds the lock and failure only when it does not and its time limit is over, and every attempt on a free lock succeeds, including with a zero time limit.",
  ["schedules", "histories"], "all interleavings, nesting depths and time limits",
  "Tests never contend for these locks.",
  ["src/concurrent/mutex.cpp", "src/concurrent/rwmutex.cpp", "src/concurrent/rwmutex.h", "src/concurrent/lock.h"],
  [("recursive holder/count", "src/concurrent/mutex.cpp"), ("rw lock wrappers", "src/concurrent/rwmutex.cpp")])
p("C34", "Condition waits release the lock, wake when notified and restore it",
  "Under every interleaving, a thread waiting on a condition has released its lock (however deeply it was held) so that others can take it, a notification sent while it waits wakes at least one waiter and notifying all wakes all of them, and on return the waiter holds its lock at the same depth as before. A timed wait that reports timeout has waited at least its limit, one that is not notified ends by timeout, and waiting without holding the lock returns at once.",
  ["schedules", "histories"], "all interleavings of waiters and notifiers, lock depths and time limits under a virtual clock",
  "No test covers conditions concurrently.",
  ["src/concurrent/condition.cpp", "src/concurrent/mutex.cpp", "src/concurrent/internal.cpp"],
  [("holder/count save and restore around the wait", "src/concurrent/condition.cpp"), ("deadline computation", "src/concurrent/internal.cpp")])
p("C35", "A started thread runs its function exactly once and can be joined once",
  "Under every interleaving, starting a thread object runs its function exactly once per successful start with the state bound at start, joining returns only after the function has finished and succeeds exactly once per start, and starting while running or joining when not started or already detached reports failure without effect. Destroying the object of a running or finished thread is safe and neither stops nor waits for the function; a sleep that reports success lasted at least the requested time, and one that is not interrupted succeeds.",
  ["schedules", "histories"], "all interleavings and call orders of start, join, detach and destruction",
  "No test explores call orders or schedules.",
  ["src/concurrent/thread.cpp", "src/concurrent/thread.h"], [("thread::impl", "src/concurrent/thread.cpp")])
p("C36", "A shared single instance is created once, before anyone uses it",
  "Under every interleaving of first uses from any number of threads, the shared instance of a type is constructed exactly once, every caller gets the same object, and no caller sees it before its construction has completed.",
  ["schedules"], "all interleavings of concurrent first uses",
  "No test uses it from more than one thread.",
  ["src/lang/singleton.h"], [("construction under lock", "src/lang/singleton.h")])
p("C37", "Seeded random generators reproduce the reference stream within range",
  "For any seed the integer stream equals the MT19937 reference stream at every position and two generators with the same seed agree forever; bounded integers, bounded reals, unit reals and gaussians are derived from that stream alone, and the bounded ones always lie in their documented half-open ranges. Sampling without replacement gives distinct in-range numbers of the requested count, every subset being equally likely, and every sampling request that cannot be met is refused.",
  ["inputs", "histories"], "all seeds, positions, bounds and call sequences",
  "Tests check a few draws of one seed.",
  ["src/math/random.h", "src/math/random/mersenne_twister.cpp"], [("mersenne_twister", "src/math/random/mersenne_twister.cpp"), ("range reduction and sampling", "src/math/random.h")])
p("C38", "Rational arithmetic is exact and always in lowest terms",
  "For any rationals whose intermediate results fit the integer type, sums, differences, products and quotients (including when an operand is combined with itself) equal the exact mathematical result, with positive denominator and no common factor, so equal values compare equal. This holds for every integer width.",
  ["inputs", "histories"], "all operand pairs and operation sequences over int, long and 64-bit types",
  "Tests check a few small fractions.",
  ["src/math/ratio.h"], [("gcd reduction", "src/math/ratio.h")])
p("C39", "The Fourier transforms compute the DFT and invert each other",
  "For any data of power-of-two length the one- and two-dimensional transforms equal the discrete Fourier sums up to rounding, and the inverse transform after the forward one gives the data times its length; for any other length or non-rectangular shape they raise an error, the one-dimensional ones leaving the data unchanged.",
  ["inputs"], "all lengths, shapes and data",
  "Tests transform a few fixed vectors.",
  ["src/math/fft.h"], [("fft_inner, fft2d", "src/math/fft.h")])
p("C40", "Vector algebra works component-wise in every dimension and layout",
  "For any vectors of the supported dimensions in both component layouts, sum, difference, negation, scaling, inner and outer products, norm, normalisation, projection, comparison and text input/output equal the component-wise mathematical definitions, and compound assignments equal their binary forms, also when operands are the same object.",
  ["inputs"], "all component values, dimensions and layouts",
  "Tests check algebraic identities on a few generated points of some types.",
  ["src/math/vector.h"], [("generated vector classes", "src/math/vector.h")])
p("C41", "Clock arithmetic is exact and calendar conversion is reversible",
  "Adding and subtracting clock times is exact with microseconds normalised to 0..999999 and ordering agrees with the total number of microseconds. Converting any clock time from 1970 on to calendar fields and back gives the same time in every time zone (up to the ambiguity of a repeated local hour), the fields are those of the local time, and a calendar time made from the date fields of an existing local time keeps those fields with the right weekday and day of year.",
  ["inputs", "configurations"], "all times, dates and time zones, including daylight-saving changes",
  "Tests check a few constants in the machine's own zone.",
  ["src/system/time_util.h", "src/system/time_util.cpp"], [("clock_time, calendar_time", "src/system/time_util.cpp")])
p("C42", "A memory-mapped file mirrors the file and is owned by one object at a time",
  "For any non-empty file and any sequence of opening, re-opening, moving, swapping and closing, a mapping shows exactly the file's bytes and size, writes through it reach the file, and every mapping and descriptor is released exactly once. A failed open leaves the mapper's previous state untouched, and closed or moved-from mappers are not open.",
  ["histories", "inputs"], "all operation sequences over any files",
  "Tests map one file once.",
  ["src/system/mmapper.cpp", "src/system/mmapper.h"], [("mmapper", "src/system/mmapper.cpp")])
p("C43", "Database calls pass every argument and column in place; transactions close",
  "For any number of statement arguments and result columns from one to ten and any values, each argument reaches the driver in its position with its type and value, each column is delivered to the variable in its position, and a column-count or type mismatch raises a database error. A transaction scope begins one transaction and commits it exactly once on normal exit and rolls it back exactly once when left by an exception.",
  ["inputs", "histories"], "all argument counts, types and values; all exits of the scope",
  "There are no tests of the database layer.",
  ["src/database/statement.h", "src/database/type.h", "src/database/util.h", "src/database/connection.h"],
  [("execute/fetch_row overloads", "src/database/statement.h"), ("committer", "src/database/util.h")])
p("C44", "The type-erased holder keeps independent typed copies",
  "After any sequence of construction, assignment (including self-assignment), copying, swapping and destruction, a holder of any value, an optional value or a scoped pointer contains an independent copy of (the pointer: sole ownership of) the last value assigned to it; the holder reports its type, yields the value when asked for exactly that type and raises an error for any other type or when empty. Every contained object is destroyed exactly once.",
  ["histories"], "all operation sequences over holders and types",
  "No test covers it.",
  ["src/lang/any.h"], [("any", "src/lang/any.h")])
p("C45", "Lexical casts and byte-order helpers are exact",
  "Converting any integer, boolean or non-white-space character value to text and back gives the same value, any other streamable value becomes the text a stream prints and is read as a stream reads it, text that does not start with a value of the target type is refused with a bad-cast error, and text to text is unchanged including spaces and empty strings. Byte-order reversal reverses the bytes of values of every size and is its own inverse, and to/from little- and big-endian produce that byte order.",
  ["inputs"], "all values of all integer types and sizes, all strings",
  "Tests check nothing but instantiation.",
  ["src/lang/cast.h", "src/system/endian_util.h", "src/system/endian_util.cpp"], [("lexical_cast", "src/lang/cast.h"), ("reverse", "src/system/endian_util.h")])
p("C46", "The PostgreSQL driver carries queries, values, results and errors faithfully",
  "For any history of prepare, execute, fetch, run, begin, commit, rollback, loss of the connection and destruction, each statement runs its own query with its '?' marks outside quotes as the parameters in order; every parameter value (null, boolean, string, 32- and 64-bit integer, floating point, timestamp) reaches the server meaning that value, and every column comes back as the typed value the server sent, row by row in order. Every failure the server reports raises a database error, connection settings reach the server unchanged, and connections, statements and results are released exactly once; destruction never raises.",
  ["histories", "inputs"], "all call histories, queries, parameter and column values, server answers",
  "There are no tests of the drivers, and no server to run them against.",
  ["src/database/postgresql/connection.h", "src/database/postgresql/connection.cpp", "src/database/postgresql/statement.h", "src/database/postgresql/statement.cpp"],
  [("prepare, run, transactions", "src/database/postgresql/connection.cpp"), ("execute, fetch_row", "src/database/postgresql/statement.cpp")])
p("C47", "The MySQL driver carries queries, values, results and errors faithfully",
  "For any history of prepare, execute, fetch, run, begin, commit, rollback, loss of the connection and destruction, each statement runs its own query once per execution with its parameters in order; every parameter value (null, boolean, string of any length, integers, floating point, timestamp) reaches the server as that value, and every column of a supported type, of any length, comes back as the value the server sent. Every failure the client library reports raises a database error, a wrong number of parameters or an unsupported type is refused, a lost connection is re-established with the same settings, open work is rolled back on destruction, and every handle is released exactly once.",
  ["histories", "inputs"], "all call histories, parameter and column values, server answers",
  "There are no tests of the drivers, and no server to run them against.",
  ["src/database/mysql/connection.h", "src/database/mysql/connection.cpp", "src/database/mysql/statement.h", "src/database/mysql/statement.cpp"],
  [("prepare, run, transactions, reconnecting", "src/database/mysql/connection.cpp"), ("execute, fetch_row", "src/database/mysql/statement.cpp")])
p("C48", "Shared and weak pointers: an object lives exactly as long as it is owned",
  "After any history of creating, copying, converting (to base, to const, between threading models), casting, swapping, resetting and destroying shared and weak pointers, each shared pointer refers to the object the history says, owner counts and uniqueness are those of the history, an object is destroyed exactly once - by its own deleter - when its last owner goes, and a weak pointer can be locked exactly while an owner exists and otherwise yields nothing or raises the bad-weak-pointer error. An object that hands out pointers to itself shares ownership with the pointers that own it.",
  ["histories"], "all histories over pointers and types",
  "The tests make a handful of fixed copies and casts.",
  ["src/lang/shared_ptr.h", "src/lang/weak_ptr.h", "src/lang/enable_shared_from_this.h"], [("shared_ptr and its casts", "src/lang/shared_ptr.h"), ("weak_ptr", "src/lang/weak_ptr.h")])
p("C49", "Type reflection describes exactly the type, its members and its archives",
  "For any type built from booleans, characters, integers, floating point, strings, vectors, maps and classes that list their members (named or not, nested), the description obtained by reflection prints and traverses as exactly that type: kinds, integer sizes and signs, class and member names, in order. A reader that knows only the description decodes any archive of a value of that type into that value, consuming all its bytes. The description of a remote method lists every argument and the result in order, for every number of arguments the remote-call layer supports.",
  ["inputs"], "all types of the listed constructors, all values",
  "A test prints one description.",
  ["src/data/serialization/reflect.h", "src/network/rpc/reflect.h"], [("reflection, class_type, named_value", "src/data/serialization/reflect.h"), ("extract", "src/network/rpc/reflect.h")])
p("C50", "System helpers report what the system says, and file streams keep every byte",
  "A temporary-file stream has a fresh name of the template's form and holds exactly the bytes written to it in the positions chosen, also with several open at once, and templates that cannot be used are refused; a stream over a descriptor transfers exactly its bytes in order; a file's size is its number of bytes, however large, and a missing file is reported; a system error's message is that error's; repeating an interrupted call stops at the first other result; and the reported memory and load are those of the kernel's tables, for amounts of any size.",
  ["inputs", "histories"], "all contents, sizes, error numbers, stream histories and kernel tables",
  "The tests call each helper once or not at all.",
  ["src/system/file.h", "src/system/file.cpp", "src/system/sysstat.cpp", "src/system/syscall.h", "src/system/syscall.cpp"], [("get_sysstat", "src/system/sysstat.cpp"), ("tmpstream, get_file_size", "src/system/file.cpp")])

p("C51", "MessagePack remote calls return what the function returned, whatever peers send",
  "A call through a MessagePack RPC client runs the named function exactly once with the arguments sent and returns its result, for functions of zero to nine arguments and values of any size, also for several clients at once and several requests sent ahead; an unknown method, arguments or results of other types, an exception of the function, a lost connection and a time limit each raise the matching error and leave the connection or the server usable; arguments left out have their default value; answers are matched to requests by their id; a client that cannot connect raises an error and its next call tries again; and nothing a peer sends, in whatever pieces, nor its leaving at any moment, ends the server, runs a function nobody asked for or leaves a descriptor open.",
  ["inputs", "histories", "faults", "schedules"], "all values, methods, message sequences, cuts of the byte stream, malformed messages and failing system calls",
  "The repository's test of this part is not run, and sends a few well-formed calls.",
  ["src/network/mprpc/rpc_server.cpp", "src/network/mprpc/rpc_stream.cpp", "src/network/mprpc/object_stream.cpp", "src/network/mprpc/socket.cpp", "src/network/mprpc/caller.h", "src/network/mprpc/invoker.h", "src/network/mprpc/argument.h", "src/network/mprpc/message.h"], [("rpc_server::process", "src/network/mprpc/rpc_server.cpp"), ("object_stream::read, write", "src/network/mprpc/object_stream.cpp"), ("rpc_stream::join", "src/network/mprpc/rpc_stream.cpp")])

p("C52", "Calls on separate objects from several threads do not disturb each other",
  "Calls of the library's text, data, network, mathematics and system functions that use objects of their own, or only read an object that was complete before the threads started, give in every thread exactly the result the same call gives alone, under every interleaving, also when they are the first such calls of the process: no function keeps its result or working data where another thread's call reaches them, and tables set up by a first call are complete before any call uses them.",
  ["inputs", "schedules"], "all arguments, all pairs of functions and all interleavings of two or three threads",
  "The tests call each function from one thread.",
  ["src/data/digest/md5.cpp", "src/data/encoding/base64.cpp", "src/data/string/ustring.cpp", "src/data/string/aho_corasick.cpp", "src/data/string/algorithm.h", "src/lang/cast.h", "src/network/ipv4.h", "src/network/uri.cpp", "src/network/http/base.cpp", "src/network/cgi/base.cpp", "src/system/time_util.cpp", "src/system/syscall.cpp", "src/text/json/base.h", "src/text/json/parser.cpp", "src/text/xhtml.cpp", "src/math/fft.h", "src/math/random.h"],
  [("calendar_time::calendar_time", "src/system/time_util.cpp"), ("md5sum::calc", "src/data/digest/md5.cpp"), ("get_error_msg", "src/system/syscall.cpp"), ("lexical_cast", "src/lang/cast.h")])

p("C53", "Type names, truth tests and parse errors say what they stand for",
  "For every mangled name of a type or function, demangling gives its readable name, text that is no such name is returned unchanged, and the name asked for an object is that of its static or of its dynamic type as requested. An object that defines a truth test compares with true and false, converts and negates according to that test at that moment, also after being copied or assigned. A parse error tells exactly the file, line, position and message it was made with, through copies and throws, and its text is made of them.",
  ["inputs", "histories"], "all type and function names, all texts, all histories of assignments and tests",
  "The tests print the names of a few types.",
  ["src/lang/demangle.h", "src/lang/safe_bool.h", "src/lang/exception.h"], [("demangle", "src/lang/demangle.h"), ("safe_bool", "src/lang/safe_bool.h"), ("parse_error", "src/lang/exception.h")])

p("C54", "Clients written by genrpc speak the protocol of their service",
  "For every set of services described by their reflected methods, the PHP file that genrpc's generator writes holds one client class per service with one call per method and one class per named class type, members in order; run with genrpc's PHP library, each call greets the server, sends the method's name, the service's version and the arguments in order exactly as the C++ server reads them, returns the value the server sent, however the answer is split into packets, and throws, telling the code, when the server answers anything but success, without sending the request when the greeting fails. The Haskell module it writes exports and defines every class type and every call of the service, with members, arguments, types, method names and version as reflected.",
  ["inputs", "histories"], "all services over integers of 1, 2 and 4 bytes, doubles, strings, nested arrays, maps and classes; all argument and result values; all packet boundaries",
  "genrpc has no tests.",
  ["tools/genrpc/gen_php.h", "tools/genrpc/gen_hs.h", "tools/genrpc/pfi_rpc.php", "src/network/rpc/reflect.h"], [("php_generator::generate", "tools/genrpc/gen_php.h"), ("haskell_generator::generate", "tools/genrpc/gen_hs.h"), ("buffer, int_type, class_type", "tools/genrpc/pfi_rpc.php")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
