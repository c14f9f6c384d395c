"""What is proved and what is only bounded, per property (shown in MANIFEST, evidence and DESIGN)."""

N = {
'C01': (
 "RadiDict.get, for any tree and path: the answer is the first leaf of the specification function (literal child before wildcard child, filter once per wildcard, text consumed, values in order), with termination; the edits that build the tree (_match, _make_route, _mount, _split, _try_merge, _set) for any chain of nodes: the inserted pattern is spelled by its nodes, nothing else changes, cutting and folding keys changes no lookup; params_unpack; every filter make_filter builds; the rule parser (SymStream, every flavour of rule text to its tokens) and Route.parse_rule for any token sequence; make_params_dict; Route.__init__; RadiRouter.resolve.",
 "that the tree lookup equals rule-by-rule semantics over the whole rule set (the induction over the tree that joins the obligations), regular expressions as wildcard arguments in every spelling, every ordered pair of built-in filters on a grid of texts, WSGI path decoding with characters that have several spellings.",
 "whole-property equality is the composition of the obligations by induction over the tree, argued in DESIGN.md, not machine-checked as one theorem"),
'C02': (
 "request.method, Ombott.to_route, RadiRouter.resolve, Route.__getitem__ (1 and 2 candidates), set_method/add_method/remove_method for any names, _raise_if_registered, RouteMethod, Ombott.handler, Ombott.route and the verb shortcuts: candidate order, 404/405 and Allow, what is called.",
 "the same through WSGI for every assignment of verbs to rules and registration histories with probes between the edits.",
 ""),
'C03': (
 "Ombott._wsgi over arbitrary behaviours of _handle/_cast/headerlist (start_response exactly once and before the body, HEAD/1xx/204/304 without body, closing), _handle (hook order, what counts as failure), _cast (any nesting of any kinds of handler results; every abandoned iterable closed once), emit, add_hook, _closeiter/_close, BaseResponse.status, the last-resort page.",
 "PEP 3333 validator over an enumerated grammar of handler programs (nested, long, error handlers of every kind) run by the real application.",
 "an iterable that produced no truthy output need not be closed; after-hooks that fail are unspecified"),
'C04': (
 "_iter_body (any stream, any fragmentation, any limit: pieces contiguous, sum = min(limit, what was sent), never reads beyond Content-Length, terminates) and _body_read with Content-Length (content, spooling to a file, size).",
 "recording streams, every fragmentation of short bodies, every byte value.",
 "malformed Content-Length values are out of scope"),
'C05': (
 "_iter_chunked twice: on any stream, what is accepted is a complete chunked encoding and the pieces are its payload; on every legal encoding, in any fragmentation, nothing is refused; _body_read chunked. Termination of every loop.",
 "all encodings of small payloads, every prefix, every one-byte corruption, the legal grammar (extensions, trailers, chunks up to 1 MiB), size lines with many digits, reading the body again after each verdict.",
 "a size line longer than the read buffer may be rejected"),
'C06': (
 "every function of the parser: MatchTail (index and longest matching tail), _eat_start_boundary, _eat_data, HeadersEaeter.eat, BodyMarkuper.iter_markup, MultipartMarkup.parse and the constructors. Each step, on a chunk [a, e) of any body, takes a state that is a function of the body and a to the state that is the same function of the body and e; all reported positions are absolute. Hence by induction over the chunks the result is a function of the body alone.",
 "every single and double cut, byte-at-a-time, of generated bodies against the markup they were built from; malformed bodies give the same verdict in every cut.",
 ""),
'C07': (
 "FieldStorage.parse_header on the header an encoder writes (any name, any file name, any type), FieldStorage.read for a part as an encoder writes it, iter_items (pairing of sections), POST (multipart) and collect (n-th value of a name), FileUpload and its save, _copy_file, BytesIOProxy seek/read (window of the part), _body, body.",
 "RFC 7578 encoder -> WSGI -> comparison, interleaved reads of several uploads, save() to files and file-likes, part sizes around the buffers, spellings of the part headers.",
 "which sections exist is C06's postcondition, assumed by iter_items"),
'C08': (
 "ts_props accessors (every access goes to the cell of the current thread), HeaderDict's dict, every attribute that Request/Response methods assign is per thread, the reset at the start of a request, request attribute access, cache_in (cache lives in the environ), Ombott.wsgi, the list of template lines all threads share (SharedLines: whatever a thread sees of it is empty or complete, and it is read only when complete).",
 "deterministic scheduler: two and three requests, every statement-level switch point with one preemption, seeded schedules beyond; first use on a freshly imported library with preemption at any line.",
 "interleaving itself is covered by separation (no shared cell is written), not by exploring schedules in the proof"),
'C09': (
 "the reset (every field a handler can set is overwritten), HTTPResponse.apply (every field), clone (headers and cookies are fresh copies), _raise (a fresh error each time), request storage, cache_in, redirect, BaseResponse.copy, _handle (reset precedes every exit).",
 "histories against the answer of a freshly imported library, bodies read after other requests, handlers that mutate what they are given; weak references of served requests.",
 ""),
'C10': (
 "ts_props on two arbitrary instances, request/response creation per application, __new__/copy/__init__, SimpleConfig.get_from (no shared mutable default), Ombott.__init__, hook lists made once per application, the application that serves a thread, redirect, BaseResponse.copy, cache_in.",
 "arrangements of applications: nested, alternating, copied and forwarded requests (the same environ served by another application).",
 "the module-level ombott.request shows only the default application"),
'C11': (
 "all tree edits (_match, _make_route, _mount, _split, _try_merge, _set, remove) and all router operations (_add, add, remove, _remove_named_routers, add_hook, remove_hook, hook_installer, lookups): tree, index by pattern and index by name change together, what is refused changes nothing, what is removed is exactly the node of the pattern (or its subtree), folded and cut keys change no lookup; Ombott.handler (hooks of a match).",
 "edit histories against a fresh router with the surviving registrations, all probe paths.",
 "removing by a rule whose filters differ from the registered ones, or hooks under prefix*, is unspecified"),
'C12': (
 "exception contracts: _get_body_string, json, POST (JSON and multipart), FieldStorage.parse_header/read on any bytes, iter_items, parse_qsl, body readers raise only errors of errors_map; errors_map maps every request error to a 4xx; _raise raises the mapped response; a body refused once stays refused.",
 "byte-mutated bodies of every kind through WSGI; header lines with runs of 40000 characters within 20 s.",
 ""),
'C13': (
 "_body_read (both modes: 413 iff the payload exceeds the limit, memory bounded by the spool threshold), _get_body_string, FieldStorage.read and iter_items (text of a field within the threshold).",
 "sizes around every limit with a recording input.",
 "payload bytes are counted; header bytes of a part count towards the text budget but need not be refused"),
'C14': (
 "_hval and every setter (HeaderDict.__setitem__/append/setdefault, HeaderProperty, the constructor): any value of any type ends as text without control characters or is refused; headerlist: entity headers withheld for 204/304 whatever the case, wire form, order.",
 "all setters x types x control characters x statuses.",
 "header names are not validated"),
'C15': (
 "cookie_decode: unpickling happens only behind a signature equal to HMAC(key, payload), any text; encode/decode round trip; get_cookie, set_cookie.",
 "round trip of values (long ones too), beside cookies http.cookies refuses, every single-byte edit with an instrumented loader.",
 "pickle, hmac, base64 uninterpreted; a MAC is unforgeable"),
'C16': (
 "static_file: for any name, root and request, every path that is opened, tested or stat-ed lies under abspath(root)+sep.",
 "a real tree with decoys, encoded and absolute names.",
 "paths are lexical (symbolic links inside the root are followed)"),
'C17': (
 "static_file (200/206/304/416: status, headers and body slice agree), get_first_range on every header and on RFC 7233 ranges, _file_iter_range (exactly the slice, any reads).",
 "all small lengths and ranges, a grammar of Range headers and junk, a file rewritten between the requests.",
 "a malformed Range may be 416 or a self-consistent 206"),
'C18': (
 "parse_qsl on any string in every mode (pairs in order, nothing but & and the first = separates, termination), add (n-th value of a key), query, POST urlencoded, forms/files, params.",
 "all short strings over the separators, random pairs encoded by urlencode, a query string replaced during the request.",
 "urllib.parse.unquote is trusted"),
'C19': (
 "Route.url for any rule (literals verbatim, parameters in order, each written by its own filter), the int/float/path/re filters read their own text back whatever follows, make_filter's cache, the rule parser, parse_rule, make_params_dict, Route.__init__; the lemma SAME joins them: token by token the url is read as the path was.",
 "match -> url -> match over enumerated rules and paths and over every ordered pair of filters.",
 "a regex filter decides by the text it consumes and what directly follows it; look-ahead into a rewritten number is the listed known finding"),
'C20': (
 "html_escape (no markup survives), render (everything not literal in the template passes the escape), default_error_handler (JSON when asked for; nothing internal without debug), the last-resort page of _wsgi.",
 "WSGI requests of 27 error kinds with markup in every field, HTML and JSON.",
 ""),
}


def note(p):
    a, b, c = N[p]
    return f'Proved (obligations regenerated and discharged each run): {a} Bounded (never counted as proved): {b}' + (f' Limits: {c}.' if c else '')
