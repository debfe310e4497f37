#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the texts)."""
import json, os
R = 'request_parser/'
REQ, MP, DS, UP, UF, FB, TMP, UT = (R+'http/request.py', R+'http/multipartparser.py', R+'utils/datastructures.py',
    R+'files/uploadhandler.py', R+'files/uploadedfile.py', R+'files/base.py', R+'files/temp.py', R+'files/utils.py')
HT, EN, TX, ST, ML = (R+'utils/http.py', R+'utils/encoding.py', R+'utils/text.py', R+'conf/settings.py', R+'utils/module_loading.py')
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe, "hook_needed": hook}})

p("C01", "A well-formed request head is reported field for field",
  "For every well-formed request head the reported method, scheme, path, query string and protocol version are those of the request line, and every header field is reported under its name, as sent, with its values in order of arrival, surrounding blanks removed. No field or value is lost, merged, duplicated or attributed to another name (the Host field is consumed when it supplies the host), and bytes outside ASCII in a field value are kept. None of this depends on the configured header read size or on how the source cuts its bytes into pieces.",
  ["inputs", "configurations"], "all heads (any number of fields, repeated names, any value bytes except line ends), all header read sizes >= 1, all fragmentations of the source",
  "Two sample files are parsed with the default read size of 16; no test varies the read size, the fragmentation, or repeats a name other than Cookies.",
  [REQ, DS, HT], [("header read loop", REQ+": HttpRequest.parse_request_header"), ("field splitting", REQ+": parse_request_headers"), ("request line splitting", REQ+": parse_request_line")],
  ["HttpRequest.parse_request_header() then method, scheme, path, protocol_info, META, GET"],
  [("META", "query string and header multi-map of the current request", REQ)])

p("C02", "The body is exactly the bytes after the first blank line",
  "After the head has been parsed, the raw body, and equally the request read as a file in pieces of any size or iterated line by line, yields exactly the bytes that follow the first blank line: each once, in order, and no byte of the head. Asking for the raw body again yields the same bytes. This holds for every header read size and every fragmentation of the source, also when the blank line straddles pieces or the body itself contains blank lines.",
  ["inputs", "configurations", "histories"], "all bodies, read sizes, fragmentations, and sequences of read calls",
  "Tests read bodies of fixed sample files only, with one read size; nothing checks the bytes around the head/body edge.",
  [REQ, DS], [("push-back of surplus bytes after the blank line", REQ+": HttpRequest.parse_request_header"), ("bounded accumulation", REQ+": HttpRequest.body"), ("push-back stream", DS+": LazyStream")],
  ["HttpRequest.body(), read(n), readline(), iteration"])

p("C03", "A malformed request head is rejected with the documented error",
  "A head with no terminating blank line, a request line that is not three tokens separated by single spaces or whose target cannot be parsed as a URL, a header line without a colon, or a head without header fields is rejected with the invalid-request error carrying code 400; a head whose target has no authority and that has no Host field is rejected with the no-host error. No other kind of error escapes from parsing a head, a rejected head exposes no method, host, path or header metadata, and no head outside these classes is rejected.",
  ["inputs", "configurations"], "all byte strings offered as a head, all read sizes and fragmentations",
  "Six fixed malformed requests are tried; no test shows that nothing else is rejected or that other exception types never escape.",
  [REQ, HT], [("error raising", REQ+": parse_request_header / parse_request_headers / parse_request_line")],
  ["exception type and args of parse_request_header(), attributes afterwards"])

p("C04", "Host, port and scheme derive from target and Host field",
  "The host is the authority of an absolute target if there is one and otherwise the last Host field, in lower case, without port and without one trailing dot; an authority that is not a plain host name, IPv4 or bracketed IPv6 address with an optional numeric port yields an empty host. The port is the explicit one, else 443 for https, 80 for http and 65536 (unknown) otherwise; the scheme is the target's in lower case or UNKNOWN, the request is secure exactly when it is https, and an ajax request exactly when its last X-Requested-With field is XMLHttpRequest. The reconstructed URI is scheme, '://', host and the full path.",
  ["inputs"], "all authorities, Host values and schemes",
  "Tests only see one host without port and no absolute target at all.",
  [REQ, HT], [("authority splitting", REQ+": split_domain_port"), ("defaults", REQ+": parse_request_header")],
  ["host, get_host(), get_port(), scheme, get_uri(), is_secure()"])

p("C05", "Form parameters decode to the pairs that were encoded",
  "A query string or urlencoded body decodes to its name/value pairs: fields are separated by '&' or ';', split at the first '=', '+' becomes a blank and percent-escapes are decoded in the request's charset; a field without '=' has an empty value and empty fields are skipped. Values of a repeated name are all kept in order of arrival and blank values are kept. Raw bytes that are invalid in the charset are read as ISO-8859-1, invalid escapes become replacement characters, and neither is an error.",
  ["inputs", "configurations"], "all query strings and urlencoded bodies, charsets ISO-8859-1, ASCII and UTF-8",
  "One query with five ASCII pairs is parsed; repeated names, blanks, charsets, separators and malformed escapes are untested.",
  [REQ, HT], [("pair splitting and decoding", HT+": limited_parse_qsl"), ("charset fallback", REQ+": QueryDict.__init__")],
  ["HttpRequest.GET / POST, QueryDict(settings, query)"])

p("C06", "The parameter-count limit is enforced exactly",
  "Parsing fails with the too-many-fields error exactly when the number of separated fields of a query string or urlencoded body, or the number of form fields of a multipart body, exceeds the configured maximum; at the maximum everything is delivered. Uploaded files do not count as form fields, and a limit of None means no limit.",
  ["inputs", "configurations"], "all limits (0 included) or None, all numbers of fields and files",
  "No test ever sets or reaches this limit.",
  [REQ, MP, HT], [("split limit", HT+": limited_parse_qsl"), ("field counter", MP+": MultiPartParser.parse")],
  ["exception of parse(), GET, POST, FILES"])

p("C07", "The in-memory data limit is enforced exactly",
  "Parsing or reading a body fails with the request-too-big error exactly when the raw body (for non-multipart content) exceeds the configured maximum or, for multipart, when the form fields' data plus, for each, the length of its name in bytes plus two exceeds it; at the maximum everything is delivered. File contents never count towards this limit, and data that was refused is not delivered. A limit of None means no limit.",
  ["inputs", "configurations"], "all limits, body sizes and part sequences, all fragmentations",
  "Two tests exceed a limit of 64 bytes by 800 KB; the boundary, the multipart accounting and the file exemption are untested.",
  [REQ, MP], [("read-size accounting", REQ+": HttpRequest.body"), ("num_bytes_read", MP+": MultiPartParser.parse")],
  ["exception of parse()/body(), POST, FILES"])

p("C08", "Multipart parts are delivered exactly, in order, with metadata",
  "For every multipart/form-data body, each part with a name and no file name appears as exactly one form field with its exact payload bytes, content type, content-type parameters and transfer encoding, and each part with a file name as exactly one uploaded file with its exact payload, base name, size, content type, charset and parameters. Fields and files of equal name keep their order, an empty payload is still delivered, and nothing else is delivered (a file needs a non-empty field name; a part head at most 1024 bytes long is understood). A final file part that is cut off before the next delimiter is not delivered.",
  ["inputs"], "all sequences of parts, payload bytes not containing the delimiter, names, parameters in any order and quoting",
  "One sample with two fields and one JPEG is parsed, and only the first 100 bytes of the file are compared.",
  [MP, UP, REQ], [("delimiter search", MP+": BoundaryIter"), ("part head", MP+": parse_boundary_stream / parse_header"), ("dispatch", MP+": MultiPartParser.parse")],
  ["HttpRequest.POST, FILES after parse()"])

p("C09", "Multipart results do not depend on chunking, and parts never mix",
  "The result of parsing a multipart body depends only on its bytes: not on the upload handlers' chunk size, not on the header read size and not on how the source fragments its data, also when delimiters, part heads or line ends straddle pieces. The content of one part, including a part that is skipped because it has no name or no usable file name, is never interpreted as the head or the data of another part.",
  ["inputs", "configurations"], "all bodies, chunk sizes >= 1, read sizes, fragmentations; payloads that look like part heads",
  "Every test uses 64 KB chunks and a file on disk; a delimiter never straddles a chunk.",
  [MP, DS], [("rollback window", MP+": BoundaryIter.next"), ("push-back", DS+": LazyStream.unget"), ("skipping of parts", MP+": MultiPartParser.parse")],
  ["HttpRequest.POST, FILES after parse() with different chunkings"])

p("C10", "Upload handlers are driven by the documented protocol",
  "For each file the handlers are told of the new file in order, up to and including one that claims it, then receive the file's chunks in order at contiguous offsets, each handler seeing what the previous one passed on and none seeing a chunk that an earlier one absorbed; after the last chunk they are asked in order for the finished file and the first one given is delivered. A handler that returns a result for the raw input replaces the whole parse; a handler that skips a file drops just that file; a handler that stops the upload ends parsing with what was completed so far and, unless it asks for a connection reset, the rest of the input is consumed. A file still being received when another handler skips or stops is closed; one already finished stays open. At the end of the upload the handlers are told once, in order, until one of them answers.",
  ["inputs", "configurations", "histories"], "all handler chains and all their reactions at every call, all sequences of parts and chunk sizes",
  "Handlers are called by hand in the tests; no test combines two handlers or raises a control exception inside a parse.",
  [MP, UP], [("driving loop", MP+": MultiPartParser.parse / handle_file_complete")],
  ["calls seen by scripted handlers, POST/FILES returned"])

p("C11", "Uploads spill from memory to disk losslessly at the limit",
  "With the default handler an uploaded file is kept in memory exactly while the bytes received for all files of the request do not exceed the configured maximum and is otherwise stored in a temporary file in the configured directory, as are all later files of the request. In either case name, content type, charset, parameters, transfer encoding, size and every byte of the content are preserved, wherever within the file the limit is crossed. The pure memory handler is used exactly when the announced content length is within the limit.",
  ["inputs", "configurations"], "all file sizes, limits, chunk sizes and file sequences",
  "One 572 KB file against a 1 MB and a 500 KB limit; the content after the switch is never compared.",
  [UP, UF], [("switch", UP+": ConvenientFileUploadHandler.receive_data_chunk"), ("activation", UP+": MemoryFileUploadHandler.handle_raw_input")],
  ["class, location, content and metadata of FILES entries; direct handler calls"])

p("C12", "Uploaded file names are reduced to safe base names",
  "The name of an uploaded file is the last path component of the name sent, after character entities are resolved, a Windows directory part and then surrounding blanks are removed, and then a POSIX directory part is removed: it never contains a slash or backslash and is at most 255 characters long, keeping the extension when shortened. A part whose name reduces to nothing is not delivered. RFC 2231 encoded names, including those outside ASCII, are decoded and reduced the same way.",
  ["inputs"], "all file names: paths, entities, quoting, encodings, lengths",
  "Only one plain name is ever uploaded.",
  [MP, UF, TX], [("IE_sanitize", MP), ("name setter", UF+": UploadedFile.name"), ("unescape_entities", TX)],
  ["name of FILES entries, UploadedFile(name=...)"])

p("C13", "Base64 transfer encoding is decoded exactly or refused",
  "A form field or file sent with base64 transfer encoding is delivered decoded, whatever white space is interspersed and wherever chunks cut it. A form field whose data is not valid base64 is delivered unchanged; a file whose data is truncated base64 (not a whole number of quads of the alphabet) is refused with the multipart parse error. Parsing always terminates.",
  ["inputs", "configurations"], "all payloads, line lengths, white space, truncations, chunk sizes",
  "One valid base64 file, of which 100 bytes are compared.",
  [MP], [("decoding loop", MP+": MultiPartParser.parse")],
  ["POST, FILES, exception of parse()"])

p("C14", "The push-back stream conserves bytes and position",
  "For every sequence of reads, iterations and push-backs, the bytes handed out by a push-back stream followed by those still pending are those of the source with each push-back inserted at the current position; a read of n bytes returns exactly n or all that is left, and the reported position is the number of bytes handed out less those pushed back. Pushing back the same amount more than 40 times without taking new data from the source is reported as suspicious rather than looping; normal use never is. A closed stream takes nothing more from its source but still hands out what was pushed back.",
  ["inputs", "histories"], "all operation sequences over all source fragmentations",
  "The stream is only exercised indirectly, by whole-request tests.",
  [DS], [("unget / leftover", DS+": LazyStream"), ("chunk producer", DS+": ChunkIter")],
  ["LazyStream.read/next/unget/tell, ChunkIter"],
  [("_leftover, position, _unget_history", "bytes pushed back, logical position, recent push-back sizes", DS+": LazyStream")])

p("C15", "A request object parses once and always reflects its streams",
  "Head and body are each parsed at most once per stream, in any order of calls: repeating a call changes nothing, the body cannot be parsed before the head, and reading the raw body first does not lose the parameters. Assigning a new stream discards the previous request, whose head, parameters, files and body never show up once the new one is parsed; assigning a new body stream keeps the head and replaces only the body. After a non-empty form body has been parsed, asking for the raw body raises the raw-data error, and other bodies are returned decoded in the request's charset.",
  ["histories"], "all sequences of parse, read, assign and query operations on one request object",
  "Tests perform a handful of fixed call orders; stale state shows only for particular sequences.",
  [REQ], [("parsed flags", REQ+": HttpRequest"), ("stream setters", REQ+": HttpRequest.stream / body_stream")],
  ["results and attributes of HttpRequest after each call"],
  [("_request_header_parsed, _request_body_parsed, _body, POST, FILES", "lifecycle state", REQ)])

p("C16", "Requests never influence each other",
  "The result of parsing a request depends only on that request and its settings: parsing other requests before, after, interleaved or concurrently, with the same settings object or the defaults, changes nothing, and parsing never changes the settings object it was given. In particular a charset declared by one request is not applied to another.",
  ["histories", "schedules", "configurations"], "all interleavings of parsing steps of several requests sharing settings, sequential and threaded",
  "Each test uses its own objects; no test parses two requests with one settings object.",
  [REQ, ST, MP, UP], [("per-request state", REQ+": HttpRequest.__init__, encoding"), ("handler instances per parse", REQ+": _initialize_handlers")],
  ["results of each request, settings attributes before and after"])

p("C17", "Multi-value dictionaries behave as ordered lists per key",
  "A multi-value dictionary (and a mutable query dictionary) behaves, under every sequence of operations, as a map from keys to lists: assignment replaces the list, appending and updating extend it, single-value access gives the last value, list access gives all in order, and lookup of missing keys or empty lists gives the documented default or key error. Copies equal the original and are independent of it, lists handed out by the accessor are copies, and pickling round-trips the multi-value dictionary.",
  ["histories"], "all operation sequences over all small key and value sets",
  "Dictionaries are only built by parsing and compared; no operation sequence is tested.",
  [DS, REQ], [("list storage", DS+": MultiValueDict"), ("text conversion", REQ+": QueryDict")],
  ["MultiValueDict and QueryDict public methods"])

p("C18", "Parsed parameters and headers are read-only",
  "Every mutating operation on the parameters decoded from a non-empty query string or from any parsed body, on the header map and on an immutable list raises an attribute error and leaves the contents unchanged. A copy of an immutable query dictionary is mutable, equal to the original and independent of it, and re-enabling mutation on a header map gives ordinary multi-value behaviour.",
  ["histories", "inputs"], "every mutating operation, with every argument form, in every state",
  "No test attempts to mutate a parsed result.",
  [DS, REQ, MP], [("_assert_mutable", REQ+": QueryDict; "+DS+": ImmutableMultiValueDict"), ("complain", DS+": ImmutableList")],
  ["exceptions and contents of GET, POST, META headers, ImmutableList"])

p("C19", "Uploaded files read back exactly what was received",
  "An uploaded file, in memory or on disk, offers its content from the start exactly as received: reading in pieces, chunks of any size and line iteration all concatenate to the content, lines are the ones ended by LF, CR LF or CR independently of chunk size, and size, length and the multiple-chunks answer agree with the content. Reopening rewinds; a closed temporary file is gone from disk and cannot be reopened. An empty upload is a file like any other, and its truth value tells whether it has a name.",
  ["inputs", "histories"], "all contents (line ends at chunk edges), chunk sizes and operation sequences",
  "Tests read 100 bytes of one file and look at names only.",
  [FB, UF, UT, TMP], [("chunks and line iteration", FB+": File"), ("proxying", UT+": FileProxyMixin")],
  ["UploadedFile subclasses' public methods"],
  [("file", "underlying stream and its position", FB)])

p("C20", "Settings take given values and otherwise the defaults",
  "A settings object built from a non-empty plain dictionary has exactly the given value for every key given and the default for every other, whatever combination is given, without influencing other settings objects. A given upload directory that does not exist is created, and one that cannot be created or written is refused with the invalid-directory error; a usable one is left as it was, also when several settings objects are made for it at the same time. Dotted handler names resolve to the named class, and names that do not resolve raise an import error.",
  ["configurations", "fault_sequences"], "all subsets of keys and values, all states of the upload directory, all handler names",
  "Two keys are overridden in one combination; the directory failures are skipped on this platform.",
  [ST, UT, ML, UP], [("merging", ST+": Settings.__init__"), ("directory check", ST+": _check_upload_dir"), ("import", ML+": import_string")],
  ["attributes of Settings, InvalidDirectory, load_handler"])

p("C21", "A failing source is never mistaken for the end of the data",
  "If the source raises an I/O error at any point, the call that meets it (parsing the head, parsing the body in any content type, reading the body, pieces or lines) fails with an I/O error, and no truncated head, body, parameter or file is reported as complete. Reading the raw body, pieces or lines reports it as the unreadable-post error with the original arguments.",
  ["fault_sequences", "inputs"], "an error at every possible pull from the source, for every kind of request and reading call",
  "No test ever lets a stream fail.",
  [REQ, MP, DS], [("translation", REQ+": read / readline / body"), ("propagation", DS+": ChunkIter, LazyStream")],
  ["exception types and request state after the failure"])

p("C22", "Redirect and host checks never accept a foreign host",
  "A URL is reported safe only if, read the way browsers do (backslashes as slashes, surrounding blanks and any tabs or line ends dropped), it is relative or its host is one of the allowed hosts, its scheme is http, https or absent (only https when required), and it does not begin with a control character; relative paths and exact allowed hosts are accepted. A host matches a pattern exactly when equal to it ignoring the pattern's case or, for a pattern beginning with a dot, when it is the bare domain or a subdomain. Byte and text strings give the same answers, and a single allowed host given as a string is compared as a whole.",
  ["inputs", "configurations"], "all URLs over the structural characters, all allowed-host sets, both string types",
  "No test calls these functions.",
  [HT], [("is_safe_url", HT), ("is_same_domain", HT), ("URL splitting", HT+": _urlparse / _urlsplit")],
  ["is_safe_url, is_same_domain, escape_leading_slashes"])

p("C23", "Parsing always terminates and fails only with documented errors",
  "For every byte string offered as a multipart body with any content-type line, boundary, content length and transfer encoding, parsing terminates and either succeeds or raises one of the documented errors: multipart error, too many fields, data too big, or suspicious form. A missing or invalid boundary, a negative content length and a content type that is not multipart are refused with the multipart error, and an absent, zero or non-numeric content length yields no parameters and no files.",
  ["inputs"], "all byte strings as body, including truncated, repeated and nested delimiters and part heads",
  "One wrong content type is tested; hangs and stray exceptions need particular malformed bodies.",
  [MP, DS], [("constructor checks", MP+": MultiPartParser.__init__"), ("stuck detection", DS+": LazyStream")],
  ["exception type of parse(), termination"])

p("C24", "Encoding parameters and parsing them again is the identity",
  "For every query dictionary of text the charset can represent, its urlencoded form contains only ASCII and, parsed again with the same charset, yields the same names with the same values in the same order per name; characters declared safe stay unquoted. Parsing, encoding and parsing any query string again gives the same parameters as parsing it once. The module-level encoder agrees for multi-value and ordinary dictionaries and refuses None.",
  ["inputs"], "all key/value texts representable in the charset, all query strings",
  "Only the empty dictionary is ever encoded.",
  [REQ, HT], [("urlencode", REQ+": QueryDict.urlencode; "+HT+": urlencode")],
  ["QueryDict.urlencode(), utils.http.urlencode()"])

p("C25", "URI escaping is ASCII, idempotent and reversible",
  "Converting an IRI to a URI gives only ASCII, leaves reserved and unreserved characters and existing percent-escapes alone, is idempotent, and converting text without percent-escapes to a URI and back gives that text (as UTF-8). The full path of a request is the escaped path plus, if there is one, '?' and the escaped query, with at most one slash appended on demand; a path that was set is reported escaped in the safe form and in its original form in the raw form. A URL of two leading slashes is escaped so that it is not scheme-relative.",
  ["inputs"], "all texts for paths and queries, all percent-escape placements",
  "Three fixed paths are compared.",
  [EN, REQ, HT], [("iri_to_uri, uri_to_iri, escape_uri_path", EN), ("get_full_path, set_path", REQ)],
  ["iri_to_uri, uri_to_iri, escape_uri_path, HttpRequest.get_full_path/get_uri/set_path, escape_leading_slashes"])

p("C26", "Closing a request releases every uploaded file",
  "After a parsed request is closed, every file it delivered is closed and no temporary file created for them remains on disk, whatever mixture of in-memory and on-disk, equally named or empty files there was. Until then every temporary file lies in the configured directory, one distinct file per upload that spilled, and no other file is created there. Closing is harmless before parsing, after a failed parse and when repeated.",
  ["inputs", "histories", "configurations"], "all mixtures of uploads, limits and lifecycle points",
  "No test closes a request.",
  [REQ, UF, TMP], [("close", REQ+": HttpRequest.close"), ("delete on close", UF+": TemporaryUploadedFile")],
  ["closed state of files, directory listing"])

p("C27", "HTTP tokens, dates and identifiers round-trip and reject junk",
  "Encoding a whole number in base 36, bytes in URL-safe base64 or a time as an HTTP date and decoding it again gives the original, in each of the three date formats; input that is not a valid encoding is refused with a value error (or None from the safe date variant). Base 36 text of more than 13 digits, or with other characters than digits and letters (sign and surrounding blanks aside), is refused, as is base64 of an impossible length. Entity-tag lists parse to exactly their well-formed comma-separated members in order, or to a single star, and quoting a tag that has no inner quotes is idempotent.",
  ["inputs"], "all whole numbers and byte strings (sampled), all days and seconds (sampled), all tag lists over the structural characters",
  "No test calls these functions.",
  [HT], [("base36, base64, dates, etags", HT)],
  ["int_to_base36, base36_to_int, urlsafe_base64_*, http_date, parse_http_date(_safe), parse_etags, quote_etag"])

p("C28", "Uploads are streamed in bounded pieces",
  "While a multipart body is parsed, no upload handler is ever given a piece larger than the smallest chunk size any of them asks for plus the few bytes held back for the delimiter, each chunk is passed on before more than a bounded number of further bytes (a small multiple of that chunk size, of the delimiter and of the 1024 bytes a part head may take) is pulled from the source. So an upload of any length needs bounded memory (base64 parts may read ahead to complete a quad).",
  ["inputs", "configurations"], "all file lengths, chunk sizes, handler chains and fragmentations of the source",
  "One 572 KB upload with one chunk size; how much is read ahead or held back is never observed.",
  [MP, DS, UP], [("chunked reading", MP+": ChunkIter, BoundaryIter"), ("choice of chunk size", MP+": MultiPartParser.__init__")],
  ["receive_data_chunk sizes against the number of bytes pulled from the source"])

p("C29", "Header parameter lists parse exactly",
  "A header value of a main value followed by ';'-separated parameters parses to the lower-cased main value and the parameters: names lower-cased, surrounding blanks removed, quoted values unquoted with escaped quotes and backslashes resolved, and a ';' inside quotes belonging to the value. RFC 2231 extended values are percent-decoded from their declared charset. Pieces without '=' are ignored and the last of repeated names counts; no text makes parsing fail. Splitting a host and port, decoding parameter strings and resolving character entities, called directly, give the same results as within a request.",
  ["inputs"], "all header values over the structural characters, all charsets and escapes",
  "One Content-Type and three Content-Disposition lines are parsed.",
  [MP, HT, TX, REQ], [("parse_header", MP+": parse_header / _parse_header_params"), ("RFC 2231", HT+": urlunquote use"), ("entities", TX+": unescape_entities")],
  ["parse_header, split_domain_port, limited_parse_qsl, unescape_entities, HttpRequest.content_type and content_params"])

p("C30", "What a caller sets on a request takes effect and lasts until the next stream",
  "A scheme, host, method or path set on a request is the one it reports from then on: in its attributes and getters, in whether it is secure, in its full path, its URI and its printed form. A path set safely is reported as printable ASCII in which what was escaped already is not escaped again; an empty scheme changes nothing. Such settings last until a head is parsed or a new stream is assigned, which restore what that head says (or nothing). Upload handlers assigned before an upload is processed are the ones that receive it, and every later body of the request; once it has been processed, assigning them is refused and changes nothing. Nothing set on the request changes its parameters, headers, files or the settings object it was given, and its charset is always the one declared, else the one set.",
  ["histories", "inputs"], "all histories of setting, parsing and replacing streams; all texts as scheme and path; handlers assigned at any moment",
  "One test sets a path; none sets a scheme or handlers, and none sets anything before or between parses.",
  [REQ, EN, UP], [("setters", REQ+": set_scheme, set_path, upload_handlers"), ("reset", REQ+": _reset_header_meta_data, stream setter"), ("full path and URI", REQ+": get_full_path, get_uri, __repr__"), ("load_handler", UP+": load_handler")],
  ["HttpRequest.set_scheme / set_path / upload_handlers / get_full_path / get_uri / is_secure / is_plain_text / encoding / repr"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P))
