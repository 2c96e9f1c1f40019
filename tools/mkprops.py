#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that it stays consistent and valid)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          mechanism=[dict(zip(("name", "where"), m)) for m in mech],
                          observe_at=observe, hook_needed=None))
    P.append(d)
S, G, PA, T, H, V, U, L = ("src/server.c", "src/grengine.c", "src/parse.c", "src/greshunkel.c",
                          "src/simple_sparsehash.c", "src/vector.c", "src/utils.c", "src/logging.c")
NOSRV = "No existing test starts the server, opens a socket or runs a handler: "
# ------------------------------------------------------------------ serving pipeline
p("C01", "Each connection receives exactly its own response, in order",
  "For every accepted connection, the bytes the server puts on that connection are, in order and without gap, repetition or foreign bytes, a prefix of the one response produced for the request that arrived on it. A client that keeps reading until the server closes gets that whole response. This holds however many connections are in flight at once and however few bytes each write to the network accepts.",
  ["schedules", "inputs", "fault_sequences"],
  "all interleavings of acceptor, workers and responder, any number of simultaneous connections, any partial-write and disconnect pattern",
  NOSRV + "interleavings and partial writes are never exercised.",
  [S, G], [("acceptor/worker/responder hand over fds and finished responses through two POSIX message queues", "src/server.c acceptor(), handler(), responder()"),
           ("per-response progress counter", "src/grengine.c m38_send_response()")],
  ["recv/send/close on connection descriptors"],
  [("sent", "bytes of the response already accepted by the socket", "m38_handled_request.sent")])
p("C02", "Route clean-up runs exactly once per handled request, after the last byte",
  "For every request that was given to a route handler, the clean-up callback of the route that produced the response runs exactly once, is given the response data that handler filled in and the status that was put on the wire, and runs neither before the socket has accepted the last byte of the response nor before a failed write ends it. No clean-up runs for a connection on which no handler ran. A response buffer owned by the handler is never read after its clean-up.",
  ["schedules", "fault_sequences", "inputs"],
  "all schedules, response sizes, write failures and client disconnects at any byte",
  NOSRV + "no test has a clean-up callback, let alone a disconnect.",
  [G, S], [("clean-up at end of m38_send_response, on success and on send error", "src/grengine.c m38_send_response()")],
  ["route handler and clean-up callbacks", "send"])
p("C03", "Every accepted connection is closed exactly once",
  "Every connection the server accepts is eventually closed by it exactly once, whatever happened on it: a full exchange, an unparsable request, a client that vanishes before, during or after sending its request, a failed write, or a refused hand-over between the server's threads. Nothing is read from or written to a connection after it was closed, and the server never closes or touches a descriptor that is not an open connection of its own.",
  ["schedules", "fault_sequences", "inputs"],
  "all schedules and every fault point (read error, early EOF, malformed request, write error, queue refusal), with descriptor numbers being reused",
  NOSRV + "error paths and descriptor reuse are unreachable from the unit tests.",
  [S, G], [("close in m38_send_response, in acceptor on queue failure", "src/grengine.c m38_send_response(); src/server.c acceptor()")],
  ["accept/close/recv/send"])
p("C04", "The server never wedges and keeps accepting",
  "As long as clients complete their request and take what they are sent, or disconnect, every accepted connection is eventually answered or closed, no matter how many connections are in flight compared with the capacity of the internal queues and the number of worker threads; workers take connections up in the order in which they were accepted. Recoverable failures to accept a connection (an aborted connection, an interrupted call, descriptor exhaustion) or bad requests never stop the server from serving later connections.",
  ["schedules", "fault_sequences", "configurations"],
  "all schedules, any number of connections, worker threads and queue capacities, transient accept failures",
  NOSRV + "a deadlock needs more in-flight responses than queue slots, under a particular interleaving.",
  [S], [("acceptor loop", "src/server.c acceptor()"), ("worker loop", "src/server.c handler()"), ("responder re-queueing", "src/server.c responder()")],
  ["thread states, accept/close"],
  [("queues", "accepted-fd queue and handled-response queue, 10 entries each", "src/server.c _open_queue()")])
p("C05", "Responses are sent in bounded slices that take turns",
  "A response is handed to the network in writes of at most 4096 bytes, and a response that is not finished after a write goes behind the other finished responses that are already waiting: unless the waiting line is full or refuses it, each of them gets a write of its own before the same response is continued, and those that wait get their writes in the order in which they joined the line. So one large download does not hold up the others.",
  ["schedules", "inputs"],
  "all response sizes and mixes, all arrival orders and schedules",
  NOSRV + "fairness is a property of whole send histories.",
  [S, G], [("4096-byte slices", "src/grengine.c m38_send_response()"), ("re-queue at the tail", "src/server.c responder()")],
  ["sequence of send calls"])
p("C06", "Serving leaves nothing behind",
  "Once a connection is finished, the process holds no memory, descriptor or file mapping on account of it, provided the route used the clean-up that belongs to the kind of response it returned. This holds for every outcome: success, partial (range) response, form submission, custom headers, 404, unparsable request, read error, write error and disconnect.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of exchanges with any outcome per exchange",
  NOSRV + "leaks only show as growth over histories that mix failures and successes.",
  [G, PA, T], [("frees at the end of m38_generate_response and m38_send_response", "src/grengine.c"), ("heap and mmap clean-up callbacks", "src/grengine.c m38_heap_cleanup(), m38_mmap_cleanup()")],
  ["live heap bytes, live mappings, open descriptors before/after each exchange"])
p("C07", "Starting the server either fully succeeds or reports failure",
  "Starting the server reports failure and leaves no listening socket open and no thread running when the socket, the bind, the listen, the creation of either internal queue or the start of a thread fails; otherwise it listens on exactly the configured port and starts exactly the configured number of workers, each serving the configured application. Work left in the internal queues by an earlier run is never picked up by a new run.",
  ["fault_sequences", "configurations", "histories"],
  "every failing start-up call, every worker count, any left-over queue contents",
  NOSRV + "start-up failure paths and stale queues are never exercised.",
  [S], [("m38_http_serve start-up sequence", "src/server.c m38_http_serve(), create_socket(), _open_queue()")],
  ["return value, listening descriptors, thread starts"])
# ------------------------------------------------------------------ HTTP
p("C08", "The handler sees the request exactly as it was sent",
  "For every well-formed request of up to 2 MiB, the handler is given the method, the resource, the complete header text and exactly the body bytes announced by Content-Length, including binary bytes, independently of how the network splits the request into segments and of whether it ends on a read-buffer boundary. Nothing else reaches the handler: no bytes of another request and none beyond the announced body. A request whose head cannot be parsed, or has a NUL byte in it, never reaches a handler.",
  ["inputs", "schedules"],
  "all requests (methods, resources, headers, binary bodies) times all segmentations of the byte stream",
  "The unit tests call the parser on whole in-memory strings; segmentation, buffer-boundary sizes and binary bodies are never tried.",
  [G, PA], [("read_max_bytes_from_socket, attempt_reread_from_socket", "src/grengine.c"), ("m38_parse_request, m38_parse_body", "src/parse.c")],
  ["arguments of the route handler"])
p("C09", "Requests go to the first matching route, with the right captures",
  "A request is handled by the first route, in table order, whose method equals the request's method exactly and whose regular expression matches the resource, and by no other route's handler. When that route asks for captures, the reported match offsets delimit the whole match and the parenthesised groups of its expression within the resource.",
  ["inputs", "configurations"],
  "all route tables and all methods and resources",
  "No test contains a route table; regex, order and verb interplay is unbounded.",
  [G], [("routing loop", "src/grengine.c m38_generate_response()")], ["which handler runs, and its matches array"])
p("C10", "Unrouted or declined requests get the not-found page",
  "If no route matches, or the chosen handler answers 404 without providing a body, the client receives the application's not-found page when one was set and otherwise the built-in one, with the status that page's handler returns (404 for the built-in one), and the not-found page's clean-up applies. A handler that answers 404 with a body of its own gets that body sent unchanged. Setting the not-found handler and its clean-up works in either order.",
  ["inputs", "configurations"],
  "all combinations of route outcome, body presence and not-found configuration",
  "No test configures or triggers a not-found page.",
  [G, S], [("404 fallback", "src/grengine.c m38_generate_response()"), ("m38_set_404_handler, m38_set_404_cleanup", "src/server.c")], ["response bytes, callbacks"])
p("C11", "Responses are correctly framed HTTP",
  "Every response consists of the status line for the handler's status, the handler's content type (text/html if none), a Content-Length equal to the number of body bytes that follow, each custom header exactly once, in insertion order and with the inserted value, a blank line, and then exactly the handler's body, byte for byte. This holds for every supported status, any body size including none, any bytes in the body and any number and length of custom headers.",
  ["inputs"],
  "all statuses, mime types, header lists and binary bodies",
  "No test produces a response.",
  [G, V], [("header assembly", "src/grengine.c m38_generate_response()"), ("m38_insert_custom_header", "src/grengine.c"), ("m38_return_raw_buffer", "src/grengine.c")], ["bytes passed to send"])
p("C12", "Byte ranges return exactly the requested bytes",
  "For a request carrying 'Range: bytes=first-last' or 'bytes=first-' with first inside the body and last not before first, a 200 response becomes a 206 whose body is exactly the bytes first..min(last, end), whose Content-Length is their number and whose Content-Range states these bounds and the total size, with type and custom headers kept. Any other Range value, and any response that is not a 200, is served whole with its own status. No Range value makes the server crash or send bytes that are not part of the body.",
  ["inputs"],
  "all Range values times all body sizes and statuses",
  "No test sends a range; the one test mentioning Range only checks header length.",
  [G, PA], [("m38_parse_range_header", "src/parse.c"), ("206 assembly", "src/grengine.c m38_generate_response()")], ["response bytes", "parsed range"])
p("C13", "Header lookup finds the named header and nothing else",
  "Looking up a header by name returns the value of the first header line with exactly that name, compared without regard to case, without the whitespace that follows the colon, up to the end of its line, and returns nothing if there is no such line. Text in the request line, in other header names, in values or in the body never matches, and no bytes outside the given header text are read.",
  ["inputs"],
  "all header texts and names, including names that are substrings of other headers and empty values",
  "No test looks up a header value.",
  [PA], [("m38_get_header_value_raw, m38_get_header_value_request", "src/parse.c")], ["return value"])
p("C14", "Form bodies decode to the submitted fields",
  "For a URL-encoded form submission, looking up a field name in the parsed form yields the decoded value that was submitted under it, the last one if the field was repeated, for every field in the body, and nothing for fields that were not submitted. Fields whose encoding is malformed are skipped without affecting the others, and the raw body stays available to the handler.",
  ["inputs"],
  "all form bodies: any keys and values, repetition, empty values, plus signs, percent escapes, malformed escapes",
  "One test decodes two one-character values.",
  [PA, U, H], [("m38_parse_form_encoded_body", "src/parse.c"), ("m38_url_decode", "src/utils.c")], ["sparse_dict_get on the parsed form"])
p("C15", "Cookie lookup returns exactly the named cookie's value",
  "Looking up a cookie by name in a Cookie header returns exactly the value of the first cookie with that name, without separators or neighbouring cookies, and nothing when no cookie has exactly that name, even if the name occurs inside another cookie's name or value. Only the given number of bytes of the header is examined.",
  ["inputs"],
  "all cookie strings and names",
  "No test reads a cookie.",
  [U], [("m38_get_cookie_value", "src/utils.c")], ["return value"])
p("C16", "Static files are served byte for byte with the right type",
  "Serving a file yields status 200 and exactly the file's bytes whatever its size, with the content type that belongs to the extension of its last path component (compared without regard to case; application/octet-stream for an unknown one, text/html for none), unless the handler had already chosen a type. A path that does not exist or cannot be served yields 404 and an error page.",
  ["inputs", "configurations"],
  "all file contents and sizes (including empty, page-multiple and multi-slice), all path shapes",
  "No test serves a file.",
  [G], [("mmap_file_ol, m38_mmap_file", "src/grengine.c"), ("guess_mimetype", "src/grengine.c"), ("m38_mmap_cleanup", "src/grengine.c")], ["response fields and bytes"])
p("C17", "Rendered pages equal the template rendered with the given context",
  "Rendering a template file with a context as a page yields status 200, exactly the text the template engine produces for the file's contents with that context, and the file's content type, whatever the size of the file. A missing file yields 404 and an error page. In every case the context given is released.",
  ["inputs", "histories"],
  "all template files (including sizes that are a multiple of the page size) and contexts",
  "No test renders a file through a response.",
  [G, T], [("m38_render_file", "src/grengine.c")], ["response fields; live heap bytes"])
# ------------------------------------------------------------------ templates
p("C18", "Variables are replaced by their values and nothing else changes",
  "Rendering replaces every variable reference by the text stored under that name and every dotted reference by the named member of that sub-context, and leaves all other template text unchanged, however many references a line holds and however names overlap (one name being a prefix of another, names with digits and underscores). Names are looked up first in the innermost scope, and within a scope the value added first under a name wins; integers appear in decimal.",
  ["inputs"],
  "all templates and contexts whose values contain no template markup",
  "The tests render a handful of fixed templates.",
  [T], [("_interpolate_line, _interpolate_line_subcontext, find_needle, vishnu", "src/greshunkel.c")], ["gshkl_render output"])
p("C19", "Loops render their body once per element, in order",
  "A loop renders its body once for each element of its array, in insertion order, with the loop variable bound to that element (a string, an integer or a sub-context whose members are reached by dotted names), while the surrounding variables remain visible and the loop variable does not outlive the loop. A loop over an empty array produces nothing, consecutive loops are independent, and text after the loop is unaffected.",
  ["inputs"],
  "all arrays and loop bodies, several loops per template, conditionals and filters inside loops",
  "The tests render fixed loops of three to six elements.",
  [T], [("_interpolate_loop", "src/greshunkel.c")], ["gshkl_render output"])
p("C20", "UNLESS and UNLESS NOT are exact opposites",
  "For a plain name, an UNLESS block is rendered exactly when the name is unset, empty, a string starting with FALSE, or an empty array, and an UNLESS NOT block is rendered exactly in the other cases, so exactly one of the two appears; the body that is not rendered leaves no trace. For a member of a sub-context, exactly one of the two blocks is rendered when the member is set. Blocks end at their own end marker and do not affect neighbouring blocks or text.",
  ["inputs"],
  "all values and kinds of names, all block bodies, several blocks per template",
  "Six fixed conditionals are tested; empty strings, empty arrays and empty bodies are not.",
  [T], [("_interpolate_conditionals, _is_truthy, _is_falsey", "src/greshunkel.c")], ["gshkl_render output"])
p("C21", "Filters are applied to exactly their argument",
  "Each filter call in a template is replaced by the result of calling the named filter exactly once with exactly the argument text as it stands after variables were substituted (no argument for a call without one), calls on a line are applied from left to right, those with an argument before those without, and the clean-up function registered for the filter is called exactly once with each result. Text around the call is unchanged.",
  ["inputs"],
  "all lines with any number of filter calls, arguments and results",
  "Two constant filters that ignore their argument are tested.",
  [T], [("_filter_line", "src/greshunkel.c")], ["filter callbacks and gshkl_render output"])
p("C22", "Includes insert the rendered file",
  "An include is replaced by the named file's whole contents, rendered with the variables, arrays and filters of the including template, whatever the size of the file. The text on the lines before and after is unaffected, and a later rendering sees the file's current contents.",
  ["inputs", "configurations"],
  "all included files (sizes below, at and above internal buffer sizes, nested includes, loops and conditionals inside)",
  "One 200-byte include file is tested.",
  [T], [("_include_line", "src/greshunkel.c")], ["gshkl_render output"])
p("C23", "Rendering is repeatable, leaves its inputs alone and reports the true size",
  "Rendering does not change the context: rendering any template any number of times, in any order, gives the same text each time as rendering it first. The result is a NUL-terminated string whose length is the reported size, only the given number of template bytes is read, and rendering retains no memory other than the result; releasing a context releases everything that was added to it, exactly once.",
  ["histories", "inputs"],
  "all histories of building contexts, rendering, and releasing",
  "Every test renders once and exits without checking size or memory.",
  [T], [("gshkl_render, gshkl_free_context", "src/greshunkel.c")], ["gshkl_render output and size, live heap bytes"])
p("C24", "Contexts store what was added, within the documented limits",
  "A context accepts any number of strings, integers, arrays, sub-contexts and filters, in any order, and each remains available under its name with its value: strings keep their first 512 bytes and names their first 31 bytes, without affecting any other entry. Arrays keep growing after other entries were added to the context.",
  ["histories", "inputs"],
  "all sequences of additions, including over-long names and values and many entries",
  "Tests add a few short names.",
  [T, V], [("gshkl_add_string, gshkl_add_int, gshkl_add_array, gshkl_add_sub_context, gshkl_add_filter and the _to_loop variants", "src/greshunkel.c")], ["rendered values"])
# ------------------------------------------------------------------ containers and helpers
p("C25", "The vector behaves as a growable sequence",
  "After any sequence of appends, pointer appends and reversals, the vector holds exactly the appended elements in the order this history implies, the count is their number, reading an index below the count gives that element and reading any other index gives nothing. This holds for any element size and any initial capacity including zero; an oversized element is refused and changes nothing.",
  ["histories", "inputs"],
  "all operation histories, element sizes and initial capacities",
  "Tests append many integers with capacity 2 and never check the reversed order.",
  [V], [("vector_append, vector_append_ptr, vector_get, vector_reverse", "src/vector.c")], ["return values and element bytes"])
p("C26", "The dictionary behaves as a map",
  "After any sequence of insertions and overwrites, looking up a key gives the value most recently stored under exactly that key with its size, and nothing for a key never stored, for any number of entries, through every growth of the table, and for keys and values of any length and content including keys that are prefixes of each other. Storing copies: later changes to the caller's buffers have no effect.",
  ["histories", "inputs"],
  "all histories of set and get over any keys and values",
  "One test stores two one-character values through the form parser.",
  [H], [("sparse_dict_set, sparse_dict_get, _rehash_and_grow_table, probing", "src/simple_sparsehash.c")], ["sparse_dict_get results"])
p("C27", "The sparse array behaves as a bounded array with holes",
  "After any sequence of stores, reading an index below the maximum gives the bytes and size last stored there and nothing where nothing was stored; stores of oversized elements or outside the bounds are refused and change nothing. Storing at one index never changes any other, in whatever order indices are filled.",
  ["histories", "inputs"],
  "all histories of set and get over all indices, element sizes and maxima",
  "The sparse array is never tested directly.",
  [H], [("sparse_array_set, sparse_array_get, position_to_offset, bitmap", "src/simple_sparsehash.c")], ["sparse_array_get results"])
p("C28", "String helpers compute what they document",
  "Suffix testing, bounded substring search, file size and modification date give their documented results for all inputs: the suffix test is true exactly when the string ends with the suffix, the search returns the first occurrence lying wholly within the given number of bytes and before the terminator, or nothing, and the file helpers report the size and date of the file or zero if there is none.",
  ["inputs"],
  "all strings, needles, lengths and files",
  "None of these helpers has a test.",
  [U], [("endswith, strnstr, get_file_size, get_file_creation_date", "src/utils.c")], ["return values"])
p("C29", "String hashing is FNV-1a for every length",
  "Hashing a byte string of any length and content yields the upper-case hexadecimal 64-bit FNV-1a value of exactly these bytes, as a terminated string, and reports success.",
  ["inputs"],
  "all byte strings of all lengths including 0, and those over 255 bytes",
  "The hash has no test.",
  [U], [("hash_string_fnv1a", "src/utils.c")], ["output buffer"])
p("C30", "Percent-decoding inverts encoding and rejects malformed escapes",
  "Decoding the percent-encoding of any byte string gives that string back, with plus signs meaning spaces and hexadecimal digits in either case, together with its terminator and a positive result; a text with an incomplete or non-hexadecimal escape is reported as failure. Nothing is written beyond the decoded text.",
  ["inputs"],
  "all byte strings and all encodings of them, all malformed texts",
  "Percent-decoding is only reached with text that needs no decoding.",
  [U], [("m38_url_decode", "src/utils.c")], ["return value and output buffer"])
p("C31", "Each log call emits one complete line to the right stream",
  "Every log call writes exactly one line, made of the time, the level's marker and the message (its first 799 bytes), errors to standard error and all other levels to standard output, complete when the call returns. No level or message content disturbs other lines, and calls made by several threads at once each write their own time and message.",
  ["inputs", "histories", "schedules"],
  "all levels, message lengths and argument values, all sequences of calls, all interleavings of callers",
  "No test looks at log output.",
  [L], [("m38_log_msg", "src/logging.c")], ["bytes written to stdout/stderr"])
p("C32", "The Python binding renders what the engine renders",
  "Rendering a template through the Python binding with a context made of strings, integers, lists, dictionaries and filters gives, as a string, exactly what the template engine produces for that context and template: any text, also beyond ASCII, is passed whole, entries keep the dictionary's order, filters are called with the argument the engine has for them for as long as the context exists, in whichever thread it is used. Once rendered text and context are gone, nothing of them is retained.",
  ["inputs", "histories", "configurations"],
  "all contexts, templates and texts, rendered any number of times, from any thread and at any addresses",
  "The one script renders one ASCII template from the main thread and checks nothing.",
  ["python/greshunkel.py", T], [("Context, Template, argument types of the foreign functions", "python/greshunkel.py")], ["Template.render results, filter calls, blocks held by the library"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
