# Source of properties.jsonl and MANIFEST.json (run tools/gen.py). Claimed = has an entry in checks.json.
def P(id, title, statement, over, text, why, files, mech, observe, reason=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, reason=reason)
PROPS = [
P("P01", "Path UTF-8 conversion is exact, flagged and never loses position",
  "Converting a request path from UTF-8 to single bytes yields, for every byte string, exactly one output byte per well-formed or overlong character (its code point below 256, else its best-fit entry, else the replacement byte), one replacement byte per ill-formed sequence with decoding resuming at the byte that broke it, and k-1 replacement bytes for an unfinished trailing sequence of k bytes. The findings reported are exactly: invalid iff an ill-formed sequence was met, overlong iff a character used more bytes than needed, half/full-width iff a character lies in U+FF00..U+FFEF, valid iff a multi-byte character was met and nothing was invalid. The path bytes change only when conversion is configured, and the expected status changes only for invalid UTF-8 with a configured reaction.",
  ["inputs", "configurations"], "every path byte string, every decoder configuration",
  "The tests sample five strings; the tables have 400 entries and the decoder a 6-state machine whose errors show only on particular byte sequences.",
  ["src/utf8_decoder.rs", "src/unicode_bestfit_map.rs", "src/uri.rs"], ["Utf8Decoder state machine and its two tables", "bestfit map lookup"], ["normalized path and transaction flags of a request"]),
P("P02", "URL decoding of parameters and URI parts follows the configuration exactly",
  "Decoding a %-encoded string (parameters, query, fragment, credentials, host) yields, for every byte string and every decoder configuration, exactly the bytes the configured rules give: %XX and, when enabled, %uXXXX decode to one byte, '+' to space when enabled, invalid encodings are kept, stripped of '%' or decoded arithmetically as configured, and an encoded or raw NUL ends the string when configured to. The invalid-encoding, encoded-NUL, raw-NUL, overlong and half/full-width findings are reported exactly when such an encoding was met, and the expected status is the reaction configured for the last offending item. Decoding never fails and never panics.",
  ["inputs", "configurations"], "every byte string, every decoder configuration",
  "The tests sample a few dozen strings under four configurations; the options interact (12 settings) and malformed escapes at the end of the input matter.",
  ["src/urlencoded.rs", "src/uri.rs"], ["decode_uri fold over decode_percent / decode_plus / unencoded_byte"], ["normalized URI parts, parameter values, flags"]),
P("P03", "URL decoding of paths follows the configuration exactly",
  "Decoding a request path yields, for every byte string and every decoder configuration, exactly the bytes the configured rules give: %XX and, when enabled, %uXXXX decode to one byte, encoded separators stay encoded unless decoding them is enabled, backslash conversion, lowercasing and separator compression apply to every produced byte, invalid encodings are kept, stripped of '%' or decoded arithmetically, and encoded or raw NULs end the path when configured to. The encoded-separator, encoded-NUL, invalid-encoding, overlong and half/full-width findings are reported exactly when met, and an expected status configured for an offending item is not lost because harmless bytes follow it. Decoding never fails and never panics.",
  ["inputs", "configurations"], "every path, every decoder configuration",
  "The tests sample a few dozen paths under four configurations and never look at the expected status.",
  ["src/urlencoded.rs", "src/uri.rs"], ["path_decode_uri fold over path_decode_percent / path_parse_other"], ["normalized path, transaction flags, expected response status"]),
P("P04", "Path normalization removes every dot segment and cannot climb above the root",
  "Normalizing a path yields, for every byte string, the path whose '/'-separated segments are the input's with every '.' dropped and every '..' dropped together with the nearest preceding kept segment, the leading empty segment of an absolute path never being removed. So the result holds no '.' or '..' segment, an absolute path gives an empty result or one that begins with '/', normalizing again changes nothing, and no segment is invented, altered or reordered.",
  ["inputs"], "every path byte string",
  "Twelve sample paths; traversal bugs live in particular nestings of segments.",
  ["src/uri.rs"], ["normalize_uri_path_inplace segment stack"], ["normalized path of a request"]),
P("P05", "URI and authority splitting puts every byte in its component",
  "For every byte string, a request URI is split thus. If it does not start with '/' and holds a ':', what precedes the first ':' is the scheme and an authority may follow: after '//' (not '///') credentials up to an '@' that comes before any '/', '?' or '#', the user name ending at their first ':'; then, after an optional '//', a host up to the next '/', '?', '#' or ':' (a host starting with '[' runs to its ']'), blanks around it dropped; then after ':' a port up to '/', '?' or '#', ending at its first blank (an empty port is absent). Of what follows, the path runs to the first '?' or '#', the query from '?' to '#', the fragment from '#' to the end: joined with their marks they are exactly that text. Absent parts are reported absent, an empty query or fragment as empty. The port number is the value of the port text if that is decimal digits in 1..65535, and absent and flagged otherwise. A CONNECT authority and a Host value are split into host and port by the same rules, and are valid iff the host is and either a valid port or nothing follows. A host is valid iff it is 1..255 bytes and either a bracketed IPv6 address or dot-separated labels of at most 63 letters, digits, '-' and '_' (Latin-1 letters included) without empty labels, except that one trailing dot is allowed.",
  ["inputs"], "every URI / authority / Host byte string",
  "About sixty sample URIs; the component boundaries depend on the order and absence of seven delimiters.",
  ["src/uri.rs", "src/parsers.rs", "src/util.rs"], ["Uri::parse_uri and its component parsers", "parse_hostport", "validate_hostname"], ["parsed_uri_raw fields of a transaction, host flags"]),
P("P06", "Name lookup and comparison ignore exactly case (and NULs where said)",
  "Every byte-string comparison and search answers, for every pair of strings, exactly what its name says: equality, prefix and first-occurrence search, byte for byte or folding only ASCII case, and skipping NUL bytes of the searched string only in the variants that say so, reported at the position in the original string. Looking up a header or parameter by name returns the first entry in insertion order whose name, taken without surrounding white space, matches under that comparison, and never one that does not.",
  ["inputs", "histories"], "every pair of byte strings, every sequence of insertions",
  "A handful of sample strings; off-by-one positions and NUL skipping show only for particular strings.",
  ["src/bstr.rs", "src/util.rs", "src/table.rs"], ["Bstr compare/index/starts_with families", "Table::get*"], ["headers, parameters and cookies of a transaction"]),
P("P07", "Numeric and version fields are read exactly or refused",
  "Content-Length, chunk length, status code, port and protocol version are read from every byte string exactly as specified: the decimal or hexadecimal value of the digits present when it fits the field's range, and otherwise reported absent or invalid; never a wrapped, truncated or partial value. The protocol is 0.9, 1.0 or 1.1 only for those version numbers written after HTTP/ (case and padding tolerated), and invalid otherwise.",
  ["inputs"], "every byte string offered as one of these fields",
  "Sample numbers only; overflow limits, signs, padding and trailing garbage are not covered.",
  ["src/parsers.rs", "src/util.rs"], ["parse_content_length, parse_chunked_length, parse_status, parse_protocol, convert_port"], ["content lengths, chunk boundaries, status numbers, ports and protocols of a transaction"]),
P("P08", "Line, whitespace and line-ending primitives agree with their definitions",
  "The byte classes (token, separator, space, text) and the line helpers (trimming, end-of-line chomping, line and header-block termination, folding, word and line splitting) answer, for every byte string, exactly what their definitions say, and splitting never loses, duplicates or reorders a byte: the parts put back together give the input.",
  ["inputs"], "every byte string",
  "Sample strings only; mixed CR/LF/whitespace endings are where evasions live.",
  ["src/util.rs", "src/parsers.rs"], ["is_* predicates, chomp, trim, take_* and split_* helpers"], ["every parsed line, header and token"]),
P("P09", "Transactions are tracked one by one and retired only when complete",
  "On every history of traffic and API calls, request and response processing each move through the transactions in order, one index at a time and never backwards, moving on only when the current one is complete in that direction (a response that comes before any request for it gets an invented, complete request that the request side steps over). Transactions are created at the current indices only, never more than the configured maximum are held. Each request, response and transaction is reported complete once, the transaction when both its directions are complete and by the one that leaves it last. With automatic destruction on, a transaction disappears only after both its request and its response are complete (or when flushed at close); otherwise none disappears unless the caller removes it.",
  ["histories", "inputs"], "every sequence of request/response data and removal calls",
  "Tests run fixed captures, not arbitrary interleavings of both directions with removals.",
  ["src/transactions.rs", "src/connection_parser.rs"], ["Transactions indices and map", "auto-destroy on finalization"], ["tx(i), tx_size, response/request tx"]),
P("P10", "Buffered partial data never exceeds the field limit",
  "Data held back while waiting for the rest of a line or header field never exceeds the configured field limit, whatever the traffic and however it is cut: the stream reports an error instead of holding more. A line or field within the limit is always accepted, and what is handed to the parser of lines and fields is exactly the held data followed by the new data.",
  ["inputs", "histories"], "every sequence of chunks in either direction",
  "Tests use two fixed oversized inputs with fixed chunking.",
  ["src/request.rs", "src/response.rs", "src/connection_parser.rs"], ["check_request_buffer_limit, check_response_buffer_limit, handle_request_absent_lf, handle_response_absent_lf and the state functions that hold data back"], ["stream state, parser memory"]),
P("P11", "Body bytes are delivered once, in order, and counted exactly",
  "For every message with a well-formed framing and every cut of it into chunks, the body data handed to the callbacks is exactly the body the framing delimits (length-delimited, chunked or to end of stream), each byte once and in order; a gap in it is handed over as a gap of its length. (A response body that begins with CR, LF, space or tab may have these taken as part of the leniently read end of its headers.) An uncompressed request body is followed by its empty end-of-body notice. The message and entity lengths recorded on the transaction are the number of body bytes on the wire, chunk framing and gaps included, and of bytes delivered.",
  ["inputs", "histories"], "every message framing and every cut",
  "Tests check totals of fixed captures delivered in one or two fixed cuts.",
  ["src/request.rs", "src/response.rs", "src/connection_parser.rs"], ["request/response body identity and chunked states"], ["body data callbacks, request/response message and entity lengths"]),
P("P12", "Request framing follows the headers, and every ambiguity is flagged",
  "How a request body is delimited is decided, for every set of headers, by the rule: a Transfer-Encoding that names chunked wins over Content-Length, else a Content-Length that gives a number gives that many bytes, an unusable value of either is marked invalid and stops the stream as an error, and without both there is no body. A request with both headers, with a repeated or folded Content-Length, or with chunked before HTTP/1.1 is flagged as smuggling; an unusable or outdated Transfer-Encoding, an unusable Content-Length, and a Host that is missing (HTTP/1.1), invalid, or different from the URI's host or port carry their flags; no flag is raised without cause. The request's host and port are the URI's, else the Host header's.",
  ["inputs"], "every header set and protocol version",
  "Fixed captures; the decision table has many combinations.",
  ["src/transaction.rs", "src/request.rs", "src/connection_parser.rs"], ["process_request_headers"], ["request_transfer_coding, request_content_length, flags, request_hostname, request_port_number"]),
P("P13", "Response framing follows status, method and headers",
  "How a response body is delimited is decided, for every request method, status and header set, by the rule: none for an answer to HEAD, for a successful CONNECT, for a 101 and for other 1xx, 204 and 304 answers without framing headers; else chunked when Transfer-Encoding names chunked, else the Content-Length bytes, else until the stream ends; an unusable Content-Length, or multipart/byteranges without a length, stops the stream as an error, and a Content-Length that is repeated or comes with chunked is flagged as smuggling. A 100 Continue answer is skipped with its headers and the final answer still belongs to the same transaction; a 101 turns both directions into a tunnel; a 4xx answer to an announced body that was not sent ends that request.",
  ["inputs", "histories"], "every combination of method, status and framing headers",
  "Fixed captures; the decision table has many combinations.",
  ["src/response.rs", "src/connection_parser.rs"], ["response_body_determine"], ["response_transfer_coding, response_content_length, flags, body callbacks, stream states"]),
P("P14", "Stream state is terminal once stopped or failed, and byte counters are exact",
  "Once a direction has failed (ERROR) it stays so for ever, and once stopped (STOP) until the connection is closed: every further data call in it returns that state, consumes nothing, counts nothing and fires no callback, and nothing the other direction does brings it back. A data call that returns ERROR or STOP leaves the direction in that state. Data of length zero is refused with CLOSED and changes nothing while the stream is open. The inbound and outbound counters equal the number of bytes offered in the calls that were not refused, a gap counting as its length; a call's consumed count never exceeds the data offered, and DATA_OTHER is returned only with data left; a tunnelled direction consumes nothing and fires no callback. Closing the connection does not bring back a failed direction.",
  ["histories"], "every sequence of API calls and data",
  "Tests do not continue after an error or a stop, and do not look at counters.",
  ["src/connection_parser.rs", "src/connection.rs"], ["request_data / response_data entry checks", "Connection::track_*"], ["HtpStreamState returned, request_data_consumed, counters"]),
P("P15", "A header block is split into exactly its fields",
  "For every header block whose lines end in CR LF or LF: each line is split at its first colon into name and value with surrounding white space removed, continuation lines (beginning with white space) are joined to the field they continue with the white space byte that marks them (in a response, a continuation that itself reads 'token:' is a field of its own), and the block ends exactly at the first empty line, so that the next message starts right after it. Anomalies are kept as data and reported by flags, never by losing the field or its neighbours: a line without a colon is a field with an empty name and FIELD_UNPARSEABLE, an empty name, a name that is no token or has white space around it FIELD_INVALID or INVALID_FOLDING, a joined value FIELD_FOLDED; the transaction carries the same marks. A repeated name (up to case) keeps one entry, marked FIELD_REPEATED, whose value is the values joined in order with a comma and a space (Content-Length keeps its first value), until 64 repetitions beyond second occurrences have been counted in the message; later ones are ignored. What a sender writes as 'name: value' lines, a name being a token and a value having no line ends, is read back as exactly those names and values in that order.",
  ["inputs"], "every header block",
  "Sample header blocks only.",
  ["src/headers.rs", "src/request.rs", "src/response.rs", "src/transaction.rs"], ["headers::Parser, process_request_header, process_response_header, parse_request_headers, parse_response_headers, Headers::get_nocase_mut"], ["request/response headers and flags"]),
P("P16", "Callbacks run in registration order and the first refusal stops the chain",
  "Registered callbacks for an event are called in registration order, each at most once per event, with the event's data; the first one that returns an error or a stop ends the chain and that status is what the event reports; declined and ok let it continue. An event with no callbacks succeeds.",
  ["histories", "configurations"], "every list of callbacks and every combination of their answers",
  "Tests register one callback per hook.",
  ["src/hook.rs"], ["Hook::register, Hook::run_all, DataHook::run_all"], ["callback order, stream state after a callback refusal"]),
P("P17", "Decompression is bounded, faithful and never silently partial",
  "For every body whose Content-Encoding names codings, with decompression enabled: the decoders run are exactly those named (gzip, deflate, lzma in their listed spellings; the last named first; each word is a layer), stopping at the configured number of layers and of LZMA layers (a single named coding always gets its decoder). A body well formed in the named codings is delivered decoded, complete, once and in order, however it is chunked, including gzip headers with any combination of optional fields cut anywhere; data that no decoder accepts from its first bytes, and all data with decompression or (for lzma) LZMA switched off, is delivered unmodified. The entity length is always the number of bytes delivered. Once more than the bomb limit has been delivered while that is more than ratio times the message length (or that product exceeds 64 bits), the stream reports an error and nothing further of it is delivered; so at most one output buffer (8192 bytes) beyond the larger of the limits comes out, and no body within them is refused (the time limit on decoding aside).",
  ["inputs", "configurations", "histories"], "every compressed body, cut and limit setting",
  "Fixed sample bodies, default limits, headers delivered whole.",
  ["src/decompressors.rs", "src/connection_parser.rs", "src/request.rs", "src/response.rs"], ["Decompressor / InnerDecompressor chain, GzipBufWriter header parser", "request_ / response_initialize_decompressors, ..._prepend_decompressor", "request_ / response_decompressor_callback bomb check"], ["body data callbacks, entity lengths, stream state"]),
P("P18", "URL-encoded parameters split the same however they arrive",
  "Parsing URL-encoded data yields, for every byte string, one parameter per '&'-separated non-empty piece, in order, with the name the part before the first '=' and the value the rest, both decoded (a piece of only '=' gives an empty name and value; data holding nothing but separators gives one empty parameter). Feeding the data in any pieces and then finishing gives the same parameters, findings and expected status as feeding it at once.",
  ["inputs", "histories"], "every byte string and every cut of it",
  "Sample strings; partial parsing is tested with three cuts.",
  ["src/urlencoded.rs"], ["Parser::parse_partial / finalize / parse_complete", "name_value"], ["query and body parameters of a transaction"]),
P("P19", "Each configuration setting changes only what it names",
  "Every configuration setter, in the Rust and in the C interface, stores exactly the given value in its own setting and leaves all others as they were (a registration appends exactly its callback to its own event). Choosing a server personality sets exactly the decoding settings that personality stands for; a personality that is not supported is refused and changes nothing. A connection and its transactions use the configuration the connection was created with.",
  ["configurations", "histories"], "every sequence of setter calls",
  "Tests call a few setters once.",
  ["src/config.rs", "src/c_api/config.rs", "src/unicode_bestfit_map.rs"], ["Config::set_*, register_*, Options::set_*", "set_server_personality", "htp_config_*"], ["decoding results under the configuration"]),
P("P20", "The data cursor and raw-data callbacks account for every byte once",
  "The position in the current data advances by exactly what is consumed, can be moved back only within what was consumed, and never leaves the data; the consumed count of a call is at most what was offered, and all of it when more data is asked for (DATA). What is handed to the raw header/trailer data callbacks over any sequence of chunks is exactly the bytes received from the beginning to the end of that header block or trailer, each once and in order; data of one direction is never shown as the other's. Gaps count as consumed data of their length and deliver no bytes.",
  ["inputs", "histories"], "every sequence of chunks and cursor operations",
  "Tests do not examine cursor positions or callback coverage across cuts.",
  ["src/connection_parser.rs", "src/request.rs", "src/response.rs"], ["ParserData", "callback_position bookkeeping"], ["request_data_consumed, raw header data callbacks"]),
P("P21", "Authorization headers are classified and decoded exactly",
  "A request's Authorization header (none when there is no such header) is classified basic, digest or bearer if its value begins with that word in any case, and unrecognized otherwise, for every value. Basic credentials are the base64 decoding of what follows the word and white space, split at its first colon; a digest user name is the quoted string that follows the first username= (white space allowed before the quote), in which a quote after a backslash is taken literally; a bearer token is what follows the word and white space. A basic or digest value that cannot be read so is flagged as invalid and yields no credentials, and the request is still parsed.",
  ["inputs"], "every Authorization header value",
  "Six sample values.",
  ["src/parsers.rs"], ["parse_authorization*"], ["request_auth_type, request_auth_username, request_auth_password, request_auth_token, AUTH_INVALID flag"]),
P("P22", "Parsing does not depend on how the stream is cut",
  "For every pair of request and response byte streams, what the transactions finally hold (lines, headers, bodies, flags, completion) is the same for every way of cutting the streams into chunks.",
  ["inputs", "histories"], "every stream and every cut",
  "Captures are replayed with the recorded cut only.",
  ["src/request.rs", "src/response.rs"], ["state functions that return to the caller for more data"], ["all transaction fields"],
  reason="Relates two runs of the whole connection parser; a contract speaks about one call. A product of two runs would need an invariant relating every parser state with every suspended state, i.e. a verified model of the whole state machine and the decompressors; and the code does not have the property in known lenient corners (a response line cut after CR, a bare CR in a response header name, zlib data under deflate cut in its first bytes). The reachable parts are claimed by P10, P11, P15, P17, P18 and P20; see DESIGN.md."),
P("P23", "Log messages are kept exactly when at or above the configured level",
  "A message (its level is one of error to debug, never none) is delivered to the log sink iff its level is at most the configured one, with its code, level and text unchanged and in order, so a logger configured to none keeps nothing.",
  ["histories", "configurations"], "every sequence of messages and levels",
  "One test logs three messages.",
  ["src/log.rs"], ["Logger::log"], ["logs received from the connection"]),
P("P24", "Request and response lines split into exactly their parts",
  "For every request line: the line is kept as it is (line end removed); the method is the first run of non-white bytes, prefixed by the leading white space (and the configured status expected) only where leading white space is configured to matter; what follows, trimmed, splits into URI and protocol at its first space (at its last one where spaces in URIs are allowed), at any other white space only if it has no space, both parts trimmed. Without anything after the method, or without a protocol, the request is HTTP/0.9, and only then. The method number is that of the exact name, else unknown; with the Apache 2 personality nothing at or after a NUL is read. For every response line: the protocol is the first non-white run after white space and NULs, the status the next, the message what follows the white space after it without the line end; a part is absent if it is missing or one before it is, its number then invalid, and nothing of an earlier (100) response line is left.",
  ["inputs", "configurations"], "every request and response line, personality, leading-white-space and space-in-URI setting",
  "Some fifty sample lines, mostly well formed.",
  ["src/request.rs", "src/response.rs", "src/util.rs"], ["parse_request_line, HtpMethod::new", "parse_response_line", "split_on_predicate"], ["request_method, request_uri, request_protocol, is_protocol_0_9, response_status, response_message"]),
P("P25", "Request URIs normalised part by part, in a fixed order",
  "For every request, target and decoder configuration: the raw URI of the transaction holds the target split into its parts (the authority for CONNECT) and stays as it is. Unless the application set one before, the parsed URI has exactly the parts the raw one has: scheme lowercased; user name, password and fragment percent-decoded; host percent-decoded, then lowercased, then without dots at its end; the port as a number, absent and flagged if it is none; query unchanged; path decoded as a path, then converted from UTF-8, then freed of dot segments, in this order and once each. Findings are added to the transaction's flags and none is removed; HOSTU_INVALID is added exactly if the port, the authority or the normalised host name is invalid. When the request line is done, the partial normalised URI is the path (decoded once more if so configured), '?' and the query decoded (twice if so configured), '#' and the fragment of the parsed URI the transaction then holds; the complete one is scheme '://', user ':' password '@', host, ':' port followed by that; each part left out with its delimiter if absent, and either text absent exactly if empty.",
  ["inputs", "configurations"], "every target, method and decoder configuration; callbacks may change the parsed URI before the texts are built",
  "The tests decode a few URIs, one step at a time and mostly with the default configuration.",
  ["src/uri.rs", "src/transaction.rs", "src/connection_parser.rs"], ["Uri::normalized_*, generate_normalized_uri", "Transaction::parse_request_line, normalize_parsed_uri", "ConnectionParser::state_request_line"], ["parsed_uri, parsed_uri_raw, partial_normalized_uri, complete_normalized_uri, flags"]),
P("P26", "Content types read to their end, lowercased; no value fails a message",
  "For every message and every way it is cut into pieces. Request: when the header fields are processed, the request's content type is none if there is no Content-Type field (names compared up to letter case and NUL bytes, the first such field counts), and else the field's value without leading ASCII white space, up to its first ';', ',' or space, lowercased, possibly empty; no value of the field makes the request or its stream fail. Response that may have a body (not to HEAD, not a bodiless 1xx, 204 or 304, not a tunnel, protocol switch or interim response): the content type is none without a Content-Type field and else the field's value up to its first ';' or white space (all of it if there is none), lowercased.",
  ["inputs"], "every field value, every cut of the message, with and without a body",
  "The tests look at four values of the parser function and two responses.",
  ["src/parsers.rs", "src/transaction.rs", "src/response.rs"], ["parse_content_type, content_type", "Transaction::process_request_headers", "ConnectionParser::response_body_determine"], ["request_content_type, response_content_type"]),
P("P27", "C accessors hand out exactly what the Rust objects hold, and take NULL",
  "For every transaction, header table, header, URI, connection and connection parser, in any state: each htp_tx_*, htp_headers_*, htp_header_*, htp_uri_*, htp_conn_* and htp_connp_* getter of the C interface returns the field of the same name: the address of an object that is present and NULL for one that is absent; a number as it is, and -1 where it is absent or does not fit the signed result type; a bool as 0 or 1; the status number as it is, 0 if unknown and -1 if invalid. Headers are found by index (NULL beyond the end) and by name (first match, up to letter case and NUL bytes; NULL for a NULL name). htp_tx_normalized_uri returns the complete text if the configuration asks for all parts and else the partial one. htp_connp_tx returns only transactions that have started. A NULL argument is never read: it yields NULL, -1, 0, or the enumeration's ERROR value. bstr_util_strdup_to_c returns the bytes of the string with each NUL byte written as backslash and 0, ended by a NUL, within the memory it allocated; bstr_cmp_c and bstr_cmp_c_nocase return -1, 0 or 1 as the byte order (up to letter case) says.",
  ["inputs", "states"], "every object in every state, NULL included; every string",
  "The tests call a few getters with ordinary traffic and never with NULL.",
  ["src/c_api/transaction.rs", "src/c_api/header.rs", "src/c_api/uri.rs", "src/c_api/bstr.rs", "src/c_api/connection.rs", "src/c_api/connection_parser.rs"], ["htp_tx_*, htp_headers_*, htp_header_*, htp_uri_*, htp_conn_*, htp_connp_* getters, bstr_util_strdup_to_c"], ["Transaction, Headers, Header, Uri, Connection"]),
]
