AI = "path-sensitive abstract interpretation of compiler MIR (custom static analyser)"

prop("P01", "C interface tolerates NULL pointers",
     "Every exported C function that takes pointers returns its documented neutral value (NULL, -1, 0 or an error status) when the object it works on is NULL. On no combination of NULL and non-NULL arguments does it dereference NULL, abort or modify anything.",
     ["inputs", "programs"], "every exported function, every combination of NULL/valid pointer arguments, every state of the objects passed",
     "The C tests pass NULL to almost no function; the combinations times object states cannot be sampled, and a missing check is undefined behaviour that may go unnoticed in a test.",
     ["src/c_api/*.rs"], [("as_ref()/map/unwrap_or chains on each raw pointer", "src/c_api/*.rs")],
     AI + ": null-ness case split over all pointer arguments of all exported functions",
     "All 152 exported functions, all NULL combinations, all paths through local callees; std callees by model. Documented preconditions (initialised pointers) assumed.")

prop("P02", "C accessors report exactly the attribute they are named after",
     "Every read accessor of the C interface returns precisely the corresponding attribute of the object it is given, or the documented code when the attribute is absent or does not fit, and never modifies the object. The C data entry points hand the caller's bytes to the parser of their own direction and return its status.",
     ["inputs", "histories"], "every accessor, every parser/transaction/header/URI state reachable or not",
     "Tests read a few accessors on a few messages where many attributes coincide (absent, 0, equal), so an accessor wired to a neighbouring attribute can go unseen.",
     ["src/c_api/transaction.rs", "src/c_api/header.rs", "src/c_api/uri.rs", "src/c_api/connection_parser.rs", "src/c_api/connection.rs", "src/c_api/bstr.rs", "src/c_api/log.rs"],
     [("one accessor function per attribute", "src/c_api/*.rs")],
     AI + ": symbolic-attribute dataflow (result term compared with attribute term on every path)",
     "Result of each accessor as a term over the fields of an arbitrary object, compared on every path with the specified term.")

prop("P03", "Configuration calls change exactly what they name",
     "Each configuration setter stores exactly the given value in the setting it is named after and leaves every other setting unchanged; each registration call adds the callback to exactly the named event. Each supported server personality yields exactly its documented set of options, an unsupported one is refused without any change, and a new configuration holds the documented defaults.",
     ["configurations", "inputs"], "every setter/registration/personality, every prior configuration, every argument value",
     "Tests configure a few settings from the default configuration; a setter writing a neighbour, or a personality off by one option, only shows for inputs that exercise that option.",
     ["src/config.rs", "src/c_api/config.rs", "src/hook.rs", "src/decompressors.rs"],
     [("Config setters", "src/config.rs"), ("C wrappers", "src/c_api/config.rs")],
     AI + ": frame analysis (field-by-field diff of the abstract configuration before/after)",
     "All setters, registrations, personalities and defaults; symbolic prior configuration and arguments.")

prop("P04", "Hooks run in order, once each, until one refuses",
     "When an event fires, the callbacks registered for it run in registration order, each exactly once and with the event's own arguments. A callback that answers OK or DECLINED lets the next one run; any other answer stops the event at once and that very answer is what the event reports.",
     ["histories", "configurations", "inputs"], "any list of registered native and C callbacks, any answers",
     "Tests register at most a couple of callbacks that all answer OK.",
     ["src/hook.rs"], [("Hook::run_all dispatchers", "src/hook.rs")],
     AI + ": typestate automaton over the callback list on every path of the dispatchers",
     "List of arbitrary length by induction on the iteration state; all callback outcomes.")

prop("P05", "Stream status contract of the data calls",
     "Every request-data or response-data call reports the outcome of the parsing step that ended it: DATA when all input was used, DATA_OTHER with the unread rest accounted when it must wait for the other direction, ERROR after a failed step and STOP after a stop request. Once a direction has reported ERROR, STOP or TUNNEL, later data calls for it report the same again without processing any data or running any callback, until the connection is closed or turned into a tunnel. An empty chunk is refused (CLOSED) unless the stream is being closed, and a gap is accepted only where body data or the end of a message can be skipped.",
     ["histories", "inputs"], "every stream status at the start of a call, every outcome of every parsing step, data / empty / gap, both directions",
     "Tests exercise a handful of status sequences; the other direction changing this direction's status between two calls is never sampled.",
     ["src/request.rs", "src/response.rs", "src/connection_parser.rs"],
     [("request_data/response_data drivers", "src/request.rs, src/response.rs"), ("writers of request_status/response_status", "src/connection_parser.rs")],
     AI + ": outcome-table check of the two drivers with parsing steps replaced by arbitrary outcomes, plus a who-writes-the-status analysis of all other functions",
     "All start statuses x step results x gap/empty; closing a connection deliberately replaces STOP by CLOSED, so callbacks may run at close.")

prop("P06", "A callback's refusal stops processing and is reported",
     "When a callback (or any parsing step) answers with anything but OK/DECLINED, the parser performs no further fallible step on that call path: every function on the way returns that very status, up to the data call. Nothing swallows, replaces or outruns a refusal, except at the listed places (flushing of incomplete transactions at close, raw receiver data at a chunk boundary, end of decompression).",
     ["histories", "inputs", "configurations"], "every function through which a callback can be reached, every call site, every status answered",
     "Test callbacks answer OK nearly always; each call site times each refusal is not sampled.",
     ["src/connection_parser.rs", "src/request.rs", "src/response.rs", "src/transaction.rs"],
     [("`?` propagation of hook results", "src/connection_parser.rs, src/request.rs, src/response.rs")],
     AI + ": error-flow typestate per function (failing call => no further fallible call, same status returned)",
     "All functions that can reach a hook; each call outcome split; the exceptions are listed in the check and in DESIGN.md.")

prop("P07", "Transaction lifecycle: events in order, once each",
     "Within a transaction the events of each side run in the order start, line, headers, (body data), (trailer), complete, each at most once (a response line and headers may repeat after an interim 100 response); transaction-complete runs once and only after both sides are complete. Progress values never go back (except for the interim 100), a completed side is always followed by moving to the next transaction, and all events run for the transaction currently being parsed.",
     ["histories", "inputs", "schedules"], "every reachable (parser state, progress) pair of either direction, every outcome of every branch of the state functions, any interleaving of the two directions",
     "The order depends on the sequence of parser states, which depends on the whole input history and on the interleaving with the other direction.",
     ["src/connection_parser.rs", "src/request.rs", "src/response.rs", "src/transaction.rs", "src/transactions.rs"],
     [("state_request_*/state_response_* functions", "src/connection_parser.rs"), ("state functions", "src/request.rs, src/response.rs")],
     AI + ": extraction of the parser state machine (state x progress -> events) and exhaustive exploration against an event-order automaton",
     "Abstraction: data-dependent branches are nondeterministic; all transitions of both directions explored.")

prop("P08", "Body bytes are delivered exactly once, in order and fully accounted",
     "In every body state (identity, chunked, until close) the bytes given to the body-data callbacks are exactly the next unread input bytes: exactly these are marked as consumed, the amount still expected falls by their number and is never exceeded, and the body ends exactly when nothing more is expected or the stream closes. Gaps inside a body are reported with their length, and surplus data after a complete message is delivered once (buffered part first) or left unread for the next message. The message length grows by exactly the bytes handed on and the entity length by exactly the bytes given to the callbacks, and a transaction's own body callbacks run before the configuration's.",
     ["inputs", "histories", "configurations"], "every position of the chunk boundary inside a body, every remaining length, gap or data, every buffered prefix, both directions",
     "Where the input chunks are cut relative to the body is arbitrary; tests cut at a few places.",
     ["src/request.rs", "src/response.rs", "src/transaction.rs", "src/connection_parser.rs"],
     [("body state functions", "src/request.rs, src/response.rs"), ("request_body_data/response_body_data and the decompressor callback", "src/request.rs, src/response.rs")],
     AI + ": byte-range conservation analysis of every path of the body states over a symbolic input chunk (position, length, expected amount)",
     "Chunk = symbolic position and length; all paths of one step of each body state; decompressor and callbacks replaced by arbitrary outcomes.")

prop("P09", "Lines and headers are reassembled exactly across data chunks",
     "However the input is cut into data chunks, a request line, response line, chunk-length line or header block is parsed from exactly the buffered earlier bytes followed by the next unread bytes up to its end: none lost, repeated, reordered or taken from what follows. An incomplete line or header is kept entirely (buffered bytes first) and the whole chunk is reported as consumed; a complete one leaves the buffer empty and exactly its bytes consumed. States that only look ahead consume and drop nothing, and an invalid response chunk length hands all its bytes, in order, to the body.",
     ["inputs", "histories", "schedules"], "every position of a chunk boundary inside or around a line, header block or line ending; every buffered prefix; both directions",
     "Tests cut messages at a handful of places; a boundary inside CRLF, inside a chunk extension or one byte into a line is rarely sampled. Four defects of this kind were found and fixed.",
     ["src/request.rs", "src/response.rs", "src/connection_parser.rs"],
     [("line and header state functions", "src/request.rs, src/response.rs"), ("data_consume/data_unconsume", "src/connection_parser.rs")],
     AI + ": byte-range conservation analysis of every path of the line/header states over a symbolic chunk and buffered prefix",
     "One step per state, inductive over steps (a second line in the same step restarts the step). Line splitters and the header grammar are primitives; what they recognise is not judged.")

prop("P10", "Body framing, tunnelling and smuggling/host flags follow one decision table",
     "How a message body is delimited depends only on the documented facts. Request: Transfer-Encoding containing chunked gives chunked framing (flagged as invalid T-E and smuggling before HTTP/1.1, and as smuggling together with Content-Length); any other T-E, or an invalid C-L, makes the request invalid with the matching flags; a valid C-L gives that length (smuggling if folded or repeated), neither gives no body. The request's host and port are the URI's, else the (lower-cased) Host header's; HOST_MISSING, HOST_AMBIGUOUS, HOSTH_INVALID and AUTH_INVALID are raised exactly in their documented cases and no flag is ever cleared. Response: answers to HEAD, and 1xx/204/304 without T-E and C-L, have no body; else chunked T-E, then C-L (0: none, invalid: error), else until close, multipart/byteranges being refused; smuggling is flagged for T-E with C-L and for repeated C-L. A 2xx answer to CONNECT and a 101 without T-E/C-L end HTTP parsing (tunnel), a 100 without body restarts the response, and other answers to CONNECT let the request side go on.",
     ["inputs", "configurations", "histories"], "every combination of presence/shape of the framing headers, protocol version, method, status code, configuration and stream status",
     "The decision has thousands of combinations; tests sample a few dozen and most mistakes show only for one rare combination.",
     ["src/transaction.rs", "src/request.rs", "src/response.rs"],
     [("Transaction::process_request_headers", "src/transaction.rs"), ("request_body_determine, request_connect_check, request_connect_wait_response", "src/request.rs"), ("response_body_determine", "src/response.rs")],
     AI + ": every path compared with a decision table evaluated on the path's facts",
     "Headers are present/absent objects with arbitrary content; status codes: every value distinguished by a constant in the code or the table, and its neighbours. What the header parsers (host:port, content type, authorization) recognise is not judged here.")

prop("P11", "Unfinished lines and headers never exceed the field limit",
     "For each direction, the bytes kept back between data calls for an unfinished line, chunk length or header (line buffer plus header buffer) never exceed the configured field limit: bytes are kept only after everything then kept was found to be within the limit, and a request or response line is only interpreted if it is within it. Exceeding the limit ends processing of that direction with ERROR; nothing within the limit is refused.",
     ["inputs", "histories", "configurations"], "every chunk size, buffered prefix and limit, at every place where input is kept",
     "Whether the limit is enforced depends on where chunks are cut; each of the places that keep data needs its own input.",
     ["src/request.rs", "src/response.rs"],
     [("check_request_buffer_limit / check_response_buffer_limit and their callers", "src/request.rs, src/response.rs"), ("writers of request_buf, request_header, response_buf, response_header", "src/request.rs, src/response.rs")],
     AI + ": bound facts established on every path compared with the symbolic length of what is kept",
     "All line, header and finalize states; lengths are symbolic sums (wrap-around of usize is not considered). Other writers of the buffers may only empty them.")

prop("P12", "Current transactions, their creation limit, count and removal are consistent",
     "Request and response sides each have an index; the current transaction of a side is the one stored at its index, created blank and numbered with that index when missing, and only while fewer than max_tx transactions are stored (otherwise there is none). Advancing a side moves only that side's index by one, and drops the transaction left behind only if tx_auto_destroy is set and both its request and response are complete; pipelining is recorded on the connection exactly when the request side advances while ahead of the response side. Lookup and removal by index affect that transaction only. The reported count is the larger index, plus one if that transaction is stored and started. Flushing at close reports transaction_complete for exactly the started, unfinished transactions and drops only those, only with auto-destroy.",
     ["inputs", "histories", "configurations"], "every map content, pair of indexes, progress combination and configuration",
     "The combinations of interleaving, completion order and limits are unbounded; tests drive a few fixed captures, nearly all without auto-destroy or limits.",
     ["src/transactions.rs", "src/connection_parser.rs", "src/transaction.rs"],
     [("Transactions", "src/transactions.rs"), ("ConnectionParser::{request,response,request_next,response_next,tx,tx_size,remove_tx,flush_incomplete_transactions}", "src/connection_parser.rs"), ("Transaction::new", "src/transaction.rs")],
     AI + ": operations executed over an arbitrary map and compared with a functional specification of map, indexes, result and flags",
     "BTreeMap is modelled functionally. The flush is decided for two stored transactions in arbitrary states.")

prop("P13", "Headers are stored in order, repeated ones merged, irregular ones flagged",
     "Every header the header grammar recognises is handed on in order, exactly once, with its parsed name and value. Its flags, and the transaction's, record irregularities of the name: trailing white space, a non-token character or an empty name give FIELD_INVALID, leading white space INVALID_FOLDING, a missing colon FIELD_UNPARSEABLE (a response header of the last two kinds is also FIELD_INVALID). A header of a new name (compared ignoring case) is appended; otherwise the first header of that name is marked FIELD_REPEATED and gets ', ' and the new value appended, except Content-Length, whose first value stays; after 64 further repetitions in a message, repeated headers are dropped without a trace. Input the grammar does not recognise is left unread. Name lookups return the first stored header that matches, ignoring case (the nozero variants also ignoring zero bytes), or nothing. Stored headers change nowhere else.",
     ["inputs", "histories"], "every combination of name irregularities, existing headers, repetition counts and lookup outcomes, both directions",
     "Tests look at a few repeated headers; the limit, the exception for Content-Length and combinations of irregularities are rarely exercised.",
     ["src/request.rs", "src/response.rs", "src/transaction.rs", "src/table.rs"],
     [("process_request_header, parse_request_headers", "src/request.rs"), ("process_response_header, parse_response_headers", "src/response.rs"), ("Headers::get_nocase*", "src/transaction.rs"), ("Table::get_nocase", "src/table.rs")],
     AI + ": every path of merging, takeover and lookup compared with a decision table (existence, repetition, limit, name, flags)",
     "The header grammar and the byte-wise name comparison are primitives here; lookups are decided for two stored headers, takeover for none, one and two parsed headers.")

prop("P14", "Content decoding is set up, fed and limited as configured",
     "For either direction, the transaction's content encoding is the one its Content-Encoding header names (gzip/x-gzip, deflate/x-deflate, lzma; inflate, none, anything else or no header: NONE). Bodies are decoded only if decompression is enabled for that direction. If the value is none of these names it is a list separated by commas and spaces: each non-empty item is one layer (containing gzip, else containing deflate, else equal to lzma; other items count as a layer but decode nothing), and the list is cut at the first item exceeding the configured layer limit, or at the first lzma item exceeding the lzma layer limit. The decoders are chained in front of each other in that order, made with the configured options, output going to the same direction of the same parser, and the encoding being processed is the first one set up. Body data of an encoded message goes to the chain as it is, exactly once; a decoder failure fails the body, and further data is refused; a decoder that has used more than the time limit is switched to pass-through; the end of the body finishes the chain and drops it. Decoder output is added to the entity length and given to the body data callbacks once; it is refused if a callback refuses it, or if the entity length exceeds both the bomb limit and bomb_ratio times the message length.",
     ["inputs", "configurations", "histories"], "every header value, configuration, decoder outcome, elapsed time and counter value, both directions",
     "Limits, list forms, failures and slow decoding combine freely; tests use a handful of captures with the default configuration.",
     ["src/request.rs", "src/response.rs"],
     [("{request,response}_initialize_decompressors, *_prepend_decompressor", "src/request.rs, src/response.rs"), ("{request,response}_body_data", "src/request.rs, src/response.rs"), ("{request,response}_decompressor_callback", "src/request.rs, src/response.rs")],
     AI + ": every path of set-up, feeding and output compared with a decision table; the separator predicate is decided for all 256 bytes",
     "The decoders themselves are primitives. Lists are decided for one, two and (lzma only) three items. The in-callback time check, which never finds the decoder in its slot, is not constrained.")

prop("P15", "URI paths and parameters are decoded exactly as the configuration says",
     "Decoding a path or a parameter yields, byte for byte, what the decoder configuration prescribes: %HH gives the byte of the two hexadecimal digits; %uHHHH (when enabled) its low byte if the high byte is 0 (overlong) and the best-fit byte otherwise; an invalid or incomplete escape is kept, loses its '%' or is decoded anyway according to the invalid-encoding setting; '+' in parameters becomes a space if enabled; in paths encoded separators stay encoded unless they are to be decoded, backslashes, upper-case letters and repeated separators are converted as configured; a raw or encoded NUL ends the output if configured. The flags record exactly the irregularities met (invalid encoding, encoded NUL, overlong %u, half/full-width range, encoded separator, raw NUL), and the expected status is that of the last irregularity whose configured reaction is not to ignore it.",
     ["inputs", "configurations"], "every byte value and every combination of decoder options, at every position of the escape",
     "256 values per byte, fourteen options and three kinds of invalid escapes combine; tests sample a few dozen strings under a handful of configurations.",
     ["src/urlencoded.rs"],
     [("path_decode_uri_inplace and its parsers", "src/urlencoded.rs"), ("decode_uri_with_flags, decode_uri_inplace", "src/urlencoded.rs"), ("x2c", "src/urlencoded.rs")],
     AI + ": nom combinators interpreted over inputs whose bytes range over all 256 values (exact byte sets), every path compared with a specification of bytes, flags and status; the hexadecimal conversion decided for all 65536 pairs",
     "Inputs: up to two unescaped bytes, '%' followed by up to five bytes, and an escape preceded or followed by another byte; decoding proceeds escape by escape, its only memory being the previous output byte. The best-fit table itself is a primitive.")

prop("P16", "URL-encoded parameters are split, ordered and decoded independent of chunking",
     "The urlencoded parser splits its input at the separator; every non-empty piece is one parameter, in order: the name up to the first '=' and the value after it (empty if there is no '='), both decoded if decoding is on. A non-empty input that has only separators gives one parameter with empty name and value, an empty input none. Flags of all names and values accumulate, and the expected status is that of the last irregularity whose configured reaction is not to ignore it. All of this is independent of how the input is cut into calls, including empty ones.",
     ["inputs", "histories", "configurations"], "every byte value, separator placement and way of cutting the input into calls",
     "The number of cuts grows exponentially; tests parse a few strings at once or in fixed pieces.",
     ["src/urlencoded.rs", "src/table.rs"],
     [("Parser::{new,parse_partial,finalize,parse_complete}", "src/urlencoded.rs"), ("Table::{add,size}", "src/table.rs")],
     AI + ": call histories executed abstractly over inputs with exact byte sets, the resulting table, flags and status compared with a specification of splitting and decoding",
     "Without decoding: inputs of up to four bytes of any value, in all cuts; with decoding: up to three bytes (separator, '=', NUL, '+', letter) in all cuts and the escapes of P15. Separators '&' and, undecoded, ';'.")

prop("P17", "Parsers share nothing, have no outside effects and no hidden inputs",
     "What a connection parser does depends only on its configuration and the calls made on it (and, for slow decoding, on elapsed time). The library keeps no mutable state outside its objects: no static or thread-local variable can be modified. Nothing it does reaches outside the process or blocks: no files, environment, network, standard streams, threads, process control. The wall clock is read only when an object is created, a stop watch only for the decompression time limit; no address, random number or hash-table order influences anything. Parsing never modifies the configuration it was given, so one configuration can serve many parsers.",
     ["inputs", "histories", "schedules"], "every function of the library and everything it can reach, whichever way parsers are interleaved",
     "Shared or hidden state shows only with particular interleavings of several parsers or in particular environments; tests use one parser at a time in one environment.",
     ["src/lib.rs", "src/connection_parser.rs", "src/config.rs", "src/decompressors.rs", "src/unicode_bestfit_map.rs"],
     [("all statics", "src/"), ("all function references", "src/"), ("Config, DecoderConfig", "src/config.rs")],
     "whole-program effect analysis over MIR: mutability and interior mutability of statics and of the configuration types, effect classes of every external function named, reachability of clock reads and configuration writes from parser operations",
     "External crates (nom, flate2, lzma-rs, bstr, base64, time) are taken to be free of such effects; callbacks of the user are outside. Lazily initialised immutable tables are allowed.")

prop("P18", "Ownership across the C interface: allocations and releases are paired",
     "Each C function documented to create something (byte string, C string, configuration, parser, log entry) returns either NULL or exactly one new object, owned by the caller, of the kind its release function takes; each release function releases exactly its argument, once, and does nothing for NULL. No other C function releases, keeps alive or allocates anything for its caller, and inside the library ownership is never passed by hand. The C copy of a byte string has exactly its bytes, NUL bytes written as \\0, and is terminated within the block allocated for it.",
     ["inputs", "histories"], "every exported function, every combination of NULL arguments, every path; byte strings of arbitrary content",
     "A leak, double release or mismatched allocator shows only in C programs under memory checkers; the Rust tests hardly call these functions.",
     ["src/c_api/bstr.rs", "src/c_api/config.rs", "src/c_api/connection.rs", "src/c_api/connection_parser.rs", "src/c_api/log.rs", "src/c_api/mod.rs"],
     [("functions calling from_raw/into_raw", "src/c_api/"), ("bstr_util_strdup_to_c", "src/c_api/bstr.rs")],
     AI + ": ownership events (allocate, hand over, take back, keep) on every path of every exported function compared with an ownership table; the C copy decided with exact byte sets",
     "The C copy is decided for byte strings of up to three bytes. Which attribute accessors lend is P02's subject.")

prop("P19", "Byte strings compare, start and search exactly as documented",
     "Byte string comparison is the lexicographic order of unsigned bytes; the nocase forms fold exactly the ASCII letters on both sides and nothing else; the nozero forms skip NUL bytes of the string itself and never of the argument; the trimmed forms first drop white space at both ends and nowhere else. Equality is comparison giving Equal. A prefix test is true exactly when the string is at least as long as the argument and agrees with it on its length. A search returns the first position at which the argument occurs in that sense, found however the earlier partial matches overlap, and none when it does not occur; the case-insensitive searches find nothing for an empty argument.",
     ["inputs"], "every string of up to four bytes of any value against each of a set of arguments chosen for letters, neighbours of letters, NUL, high bytes and self-overlap",
     "Header recognition, protocol and encoding detection all rest on these; the tests compare a handful of strings, and a wrong fold or a search that skips after a partial match changes nothing for them.",
     ["src/bstr.rs"],
     [("Bstr::cmp_*, eq_*, starts_with*, index_of*", "src/bstr.rs"), ("LowercaseIterator, LowercaseNoZeroIterator", "src/bstr.rs")],
     AI + ": exact byte sets; every path through the iterators compared with an executable specification",
     "Strings of at most four bytes (three for short arguments), arguments of at most three. The Unicode white space the trimmed nozero form drops is decided for ASCII bytes only.")

prop("P20", "Words of the protocol are recognised exactly: numbers, tokens, line ends",
     "For every byte sequence the recognisers of line elements give exactly this. White space is SP, TAB, LF, VT, FF, CR; a token byte is a printable ASCII byte other than the separators of RFC 2616. A line ends at LF, CR LF, CR or LF CR, and is only reported when the byte that could belong to its end has been seen. A Content-Length is the first run of decimal digits and is refused if absent or not below 2^64. A chunk length is a run of hexadecimal digits after white space, refused from 2^31 on, and has an extension when a ';' follows. A status is three digits from 100 to 999 between blanks, else invalid. A port is one to five digits of value 1 to 65535. The protocol is HTTP/0.9, 1.0 or 1.1, whatever the case of the letters and the white space, zeros may precede, else invalid. A method is one of the known ones, case-sensitive, else unknown. A media type is what precedes ';', ',' or SP, lower-cased. A response line that does not start with HTTP is body; an ignorable line is an empty one (for IIS 5.0 also one of white space).",
     ["inputs"], "every value of every byte of inputs of up to four or five free bytes, numbers of up to 21 digits, and all one-byte and two-byte variations of the keywords",
     "Every framing decision starts from these; tests use a few samples each, and an off-by-one in a range or a wrong class of a single byte stays hidden.",
     ["src/util.rs", "src/parsers.rs", "src/request.rs"],
     [("is_token, is_space, take_till_lf, take_till_eol, is_line_ignorable, treat_response_line_as_body, convert_port", "src/util.rs"), ("parse_content_length, parse_chunked_length, parse_status, parse_protocol, parse_content_type", "src/parsers.rs"), ("HtpMethod::new", "src/request.rs")],
     AI + ": exact byte sets with numerals compared digit by digit; every path through the nom combinators compared with an executable specification",
     "The length of the inputs is bounded as stated; the recognisers are regular, their memory is the class of the run being read.")

prop("P21", "Request and response lines are split into exactly the right fields",
     "For every line: the method is what precedes the first white space (leading white space belongs to it, and sets the expected status, only when the configuration reacts to it); the URI is what follows up to the first SP (with spaces allowed in URIs: up to the last one), or up to the first (last) other white space if there is no SP, both ends trimmed; the protocol is the trimmed rest; with no rest, or no URI, the request is HTTP/0.9. For Apache 2 the line ends at its first NUL. Of a response line the first word (after white space and NULs) is the protocol, the second the status, the remainder after white space and without the line end the message; what is absent stays absent and its numbers invalid. Method, protocol and status numbers are those of exactly these bytes, the whole line is kept, and an unrecognised protocol or status outside 100..999 flags the status line as invalid.",
     ["inputs", "configurations"], "every value of every byte in lines of up to five free bytes and a set of longer shapes, all configurations",
     "Attackers use odd white space, NULs and missing fields; which bytes are method, URI and protocol decides everything downstream.",
     ["src/request.rs", "src/response.rs", "src/transaction.rs"],
     [("ConnectionParser::parse_request_line", "src/request.rs"), ("ConnectionParser::parse_response_line", "src/response.rs"), ("Transaction::validate_response_line", "src/transaction.rs")],
     AI + ": exact byte sets; the fields stored on every path compared with an executable specification of the line format",
     "Lengths bounded as stated. Recognition of method, protocol and status are primitives here (P20).")

prop("P22", "URIs are split, normalised and rebuilt into exactly the right parts",
     "For every request URI the parts are exactly the bytes the URI syntax gives them: a scheme is what precedes ':' unless the URI starts with '/'; after a scheme, '//' starts an authority that ends at the first '/', '?' or '#': credentials are what precedes its '@' (user up to the first ':', the rest the password), the host name follows (an address in brackets, or up to ':'; blanks around it do not count), then ':' and the port; the path goes up to '?' or '#', the query up to '#', the fragment to the end; what is absent stays absent, what is present but empty is kept. The target of CONNECT is a host name and port. A host name is valid if it is an IPv6 address in brackets, or at most 255 bytes in non-empty labels of at most 63 letters, digits, '-' and '_' (one final dot allowed). The normalised URI has the scheme in lower case, the host name decoded, in lower case and without final dots, the port as a number, user, password, path and fragment decoded, the path without dot segments, and the query untouched; invalid hosts and ports set HOSTU_INVALID, decoding flags and expected status reach the transaction, and the raw parts stay as sent. The rebuilt URI strings hold exactly the parts present, in order, with their delimiters, the query decoded, path and query decoded once more only when so configured.",
     ["inputs", "configurations"], "every value of every byte of URIs with up to four free bytes at every delimiter position of some thirty shapes, paths of up to seven free bytes, every presence combination of the eight parts, all configurations",
     "What is host, path and query decides what an inspection engine sees; tests parse well-formed URIs, attackers send '@', ':', '?' and dots in odd places.",
     ["src/uri.rs", "src/parsers.rs", "src/util.rs", "src/transaction.rs"],
     [("Uri::parse_uri, parse_uri_hostport, normalized_*, generate_normalized_uri", "src/uri.rs"), ("scheme, credentials, hostname, port, path, query, fragment, parse_hostport", "src/parsers.rs"), ("validate_hostname", "src/util.rs"), ("Transaction::parse_request_line", "src/transaction.rs")],
     AI + ": exact byte sets; parts, flags and rebuilt strings on every path compared with an executable specification of the syntax",
     "Lengths bounded as stated. Decoding of escapes (P15), numbers (P20) and IPv6 syntax (standard library) are primitives here.")

prop("P23", "Header blocks are cut into exactly the right names and values",
     "For every block of header bytes: a header line ends at LF or CR LF, in responses also at CR or LF CR; further line ends run together in the known deformed ways are part of it and are flagged. A line that starts with SP, TAB or NUL continues the value of the previous one, joined by that byte, and is flagged as folded; in responses a line that looks like 'name:' after a fold starts a new header instead. The name is what precedes the first ':', without surrounding blanks, flagged when it is empty, has white space before or after it, or contains a byte that is not a token byte. The value is the rest without surrounding white space, flagged when empty. A line without a colon gives an empty name and the whole line as value, flagged as such. The block ends at the empty line. What cannot be decided yet because input is missing is left unread, unless the block is said to be complete. No byte is lost and the order is that of the input.",
     ["inputs"], "every value of every byte at the free positions (up to four) of some forty block shapes, requests and responses, complete and incomplete",
     "Smuggling lives in odd line ends, folds, blanks before ':' and NULs; tests sample some of them.",
     ["src/headers.rs"],
     [("Parser::headers, header, name, value, folding, end-of-line combinators", "src/headers.rs")],
     AI + ": exact byte sets through the nom combinators; names, values, flags and the unread rest on every path compared with an executable grammar",
     "Lengths bounded as stated; the grammar's memory is the kind of line being read. How headers are merged and stored is P13, how blocks are found P09.")

prop("P24", "Credentials are exactly the ones the Authorization header states",
     "For every request: without an Authorization header the authentication type is NONE. A value that starts with 'basic' (any case) is BASIC: what follows after white space is base64; of the decoded bytes, what precedes the first ':' is the user name and all the rest the password. One that starts with 'digest' is DIGEST: the user name is the quoted string after the first 'username=' and optional white space, up to the first quote not preceded by a backslash, with the backslash of an escaped quote removed. One that starts with 'bearer' is BEARER, and the token is what follows after white space. Any other is UNRECOGNIZED. If a part is missing or is not base64 the header is declined, no credential is stored, and the type stays the one recognised. Nothing else of the transaction changes.",
     ["inputs"], "every value of every byte of values with up to four free bytes at every position of some eighty shapes, decoded credentials of up to five free bytes",
     "Credentials feed detection and logging; a colon in a password, an escaped quote or an odd blank is what samples miss.",
     ["src/parsers.rs"],
     [("parse_authorization, parse_authorization_basic, parse_authorization_digest", "src/parsers.rs")],
     AI + ": exact byte sets; type, user name, password, token and result on every path compared with an executable specification",
     "Lengths bounded as stated. Base64 decoding (a dependency) and header lookup (P13) are primitives; that AUTH_INVALID is set when the header is declined is P10.")

prop("P25", "UTF-8 in paths is recognised, flagged and converted exactly",
     "Every path is read as UTF-8 with overlong forms allowed and surrogates and code points above U+10FFFF refused. An ASCII byte stands for itself. A byte that cannot start a character, or a character cut short by a byte that cannot continue it, gives one replacement byte and PATH_UTF8_INVALID, and the byte that cut it short is read again as a start. A character of two to four bytes gives the byte of its code point if below U+0100, else its entry in the best-fit map, else the replacement byte; PATH_UTF8_OVERLONG is set exactly when a shorter form exists, PATH_HALF_FULL_RANGE exactly for U+FF00 to U+FFEF, PATH_UTF8_VALID exactly when there was such a character and nothing invalid. A path that ends within a character gives one replacement byte for each byte of it after the first and no flag. The path is replaced by the result only when so configured; flags set before are kept; invalid UTF-8 sets the expected status unless the configuration ignores it.",
     ["inputs", "configurations"], "every value of every byte of paths of up to four bytes, and of two or three bytes after a set of beginnings, all configurations",
     "Overlong and malformed UTF-8 is a classic evasion; tests sample a dozen strings of a space of 2^32.",
     ["src/utf8_decoder.rs", "src/unicode_bestfit_map.rs"],
     [("decode_and_validate_inplace, Utf8Decoder, the state tables", "src/utf8_decoder.rs"), ("UnicodeBestfitMap::get", "src/unicode_bestfit_map.rs")],
     AI + ": exact byte sets through the decoder's tables; code points as sums of the bytes' contributions, compared as functions of the bytes",
     "The decoder's memory is the state of one character of at most four bytes; longer paths repeat it. The contents of the best-fit map are taken as given.")

prop("P26", "A connection's endpoints, times, byte counts and log are recorded faithfully",
     "A new parser's connection has no endpoints, counts of zero and no flags; its logger and that of its transactions write to that connection at the configured level. Opening it stores exactly the given client and server address and port, each in its place, and the time if one is given; opening it again changes nothing. Closing stores the closing time if one is given and finalizes both streams (closing the request side, only that one) with the same time. Every chunk or gap a stream accepts, tunnelled ones included, adds its full length once to that direction's counter and to no other, before it is processed, and replaces that direction's last time if a time is given; a refused one changes neither. The C calls pass on the same address, port and time (seconds and microseconds), and none for NULL, an unparsable address or a port out of range. A message is queued exactly when its level is at or below the logger's, once, with its file, line, level, code and text; each queued message is read back once, in order, as an entry that carries its connection's endpoints.",
     ["inputs", "histories"], "all stream states, with and without times, gaps and empty chunks; all 49 pairs of log levels; queues of any small length",
     "Consumers join parser events with flows through these records; tests look at a few counters on the ordinary path.",
     ["src/connection.rs", "src/log.rs", "src/connection_parser.rs", "src/c_api/connection_parser.rs"],
     [("Connection::open/close/track_*/get_logs/get_next_log", "src/connection.rs"), ("Logger::log, Message, Log", "src/log.rs"),
      ("ConnectionParser::new/open/close/request_close, request_data, response_data", "src/connection_parser.rs"),
      ("htp_connp_open/close/request_close/request_data/response_data", "src/c_api/connection_parser.rs")],
     AI + ": the connection record and the queue on every path of opening, closing, feeding and logging, compared field by field with the expected one",
     "The channel, address parsing and time arithmetic of the libraries are primitives; when entries are drained through a standard-library iterator its number of steps is not followed.")

na("P90", "Parsed values do not depend on how the input is cut into chunks",
   "For any byte stream, every attribute of every transaction, every event and its order are the same however the stream is cut into data calls.",
   ["inputs", "histories"], "every stream, well-formed or not, every way of cutting it",
   "The number of ways to cut a stream is exponential in its length.",
   ["src/request.rs", "src/response.rs"], [("state functions", "src/request.rs, src/response.rs")],
   "As a whole this relates two unbounded runs (a hyperproperty over histories), which no per-path static argument in reach decides; and it is not true of malformed input by design (look-ahead heuristics in request_ignore_data_after_http_0_9, response_line and response_finalize look at what the chunk happens to contain). The inductive parts that are decidable per step are claimed instead: P08 (bodies), P09 (lines, headers), P11 (what is kept), P16 (urlencoded).")

na("P91", "No input makes the library panic or read out of bounds",
   "No sequence of calls with any data panics, aborts, overflows or exhausts the stack.",
   ["inputs", "histories", "configurations"], "every input, configuration and history",
   "Panics hide behind rare lengths and values.",
   ["src/"], [("arithmetic, slicing and unwrap sites", "src/")],
   "About 300 arithmetic and slicing sites depend on numeric invariants of buffers and cursors across calls (for instance positions within the current chunk); a sound static bound for all of them needs a relational numeric domain over heap objects, which is not in reach here, and reporting unproved sites would be false alarms. Two defects of this kind met on the way were repaired (a91fb74, db05477).")

na("P92", "Every data call terminates and uses time linear in its input",
   "A data call does a bounded number of steps per byte of input, whatever the history.",
   ["inputs", "histories"], "every input and history",
   "Quadratic behaviour or livelock needs particular inputs.",
   ["src/request.rs", "src/response.rs"], [("drivers request_data/response_data", "src/request.rs, src/response.rs")],
   "Bounding the number of state-machine iterations needs a ranking function over runtime quantities (unread bytes, buffered bytes, states that re-queue bytes by unconsuming); bounds on running time are runtime quantities that static analysis cannot settle here.")

na("P93", "Decompressed data is what the compressed data stands for",
   "For every gzip, deflate or lzma body the delivered bytes are the original ones, also when the compressed data is cut anywhere or is partly damaged.",
   ["inputs", "histories"], "every compressed stream, every cut",
   "Cuts inside the gzip header and damaged streams are rarely sampled.",
   ["src/decompressors.rs"], [("GzipBufWriter, DeflateBufWriter, InnerDecompressor", "src/decompressors.rs")],
   "The decoding is done by external crates (flate2, lzma-rs) whose correctness is a numerical property of their algorithms, outside this codebase and this technique. What the library decides itself (which decoders, in which order, limits, failures, accounting) is P14 and P08.")
