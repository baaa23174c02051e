import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Hostile clients cannot crash, corrupt or wedge the server",
 "Whatever bytes a client sends, split however it likes, and whether it then waits, closes or resets the connection, the server performs no invalid or uninitialised memory access, no undefined operation, no abort and no endless loop. It never reads more of a request than the documented maximum allows, and a request it cannot parse ends with that connection closed and nothing leaked. The next well-formed request is answered as usual.",
 ["inputs","histories","fault_sequences"],
 "every byte string up to the request limit, every segmentation of it, every point at which the client closes or resets, every sequence of such connections",
 "The unit tests parse six fixed well-formed strings and never run the server; the guarantee is about all malformed requests (headers without values, wrong lengths, NULs, resets, oversized input).",
 ["src/grengine.c","src/parse.c","src/server.c","src/utils.c","src/simple_sparsehash.c"],
 [("reading a request off the socket","src/grengine.c:read_max_bytes_from_socket"),("request line and header parsing","src/parse.c:m38_parse_request"),("body extraction","src/parse.c:m38_parse_body"),("error path of response generation","src/grengine.c:m38_generate_response error label"),("worker dropping failed requests","src/server.c:handler")],
 [("request buffer","bytes read so far and how many","src/grengine.c")],
 ["m38_generate_response return value","client side of the socket","sanitizer reports","open descriptors and live heap bytes"])

p("C02","Handlers see exactly the request the client sent",
 "For every well-formed request within the size limits, the handler is given the same method, path, header text and body bytes the client sent: the body is the first Content-Length bytes after the blank line (or what arrived before the client closed), including NUL bytes, and nothing more. This does not depend on how the bytes were split into segments or on the total length. Looking up a header by name (in any letter case) yields the value of that header line only, never text taken from another header, from the path or from the body, and nothing when the header is absent.",
 ["inputs","histories"],
 "all methods, paths, header sets, bodies and segmentations within the documented limits",
 "Tests parse six literals handed over in one piece; none involves a socket, a segmentation, a NUL byte, a look-alike header name or a length at a buffer boundary.",
 ["src/parse.c","src/grengine.c","src/utils.c"],
 [("request parser","src/parse.c:m38_parse_request"),("body extraction","src/parse.c:m38_parse_body"),("header lookup","src/parse.c:m38_get_header_value_raw"),("socket reading","src/grengine.c:read_max_bytes_from_socket")],
 [("m38_http_request","what the handler sees","include/types.h")],
 ["the request object inside a handler"])

p("C03","Clients receive exactly the response the handler produced",
 "For every status code the library knows, the client receives a status line for the code the handler returned, the handler's content type (text/html if it set none), a Content-Length equal to the number of body bytes that follow, every custom header once and in insertion order, one blank line, and then exactly the handler's bytes, whatever their size and content. This holds however the operating system splits, shortens or interrupts the writes, and no byte outside the response is ever sent.",
 ["inputs","fault_sequences"],
 "all supported status codes, body sizes and contents, content types and custom header lists, and all patterns of short or interrupted writes",
 "No test builds or sends a response at all; short writes and interrupted system calls depend on the kernel's timing.",
 ["src/grengine.c"],
 [("response assembly","src/grengine.c:m38_generate_response"),("chunked sending","src/grengine.c:m38_send_response"),("custom headers","src/grengine.c:m38_insert_custom_header")],
 [("sent / response_len","progress of the send","include/types.h:m38_handled_request")],
 ["bytes read by the client until end of stream"])

p("C04","Each request is handled by the first matching route, else by the 404 route",
 "Every parsed request is given to exactly one route handler: the first in the table whose method equals the request's and whose pattern matches the path, with the pattern's capture positions delimiting the right parts of the path. If none matches, or the chosen handler returns 404 without a body, the application's custom 404 handler (or the built-in page when there is none) produces the response with status 404; a 404 that has a body is sent as it is.",
 ["inputs","configurations"],
 "all route tables, request methods and paths, and all combinations of handler, custom 404 handler and cleanup",
 "No test dispatches a request; correctness depends on table order, overlapping patterns, capture groups and the presence of custom handlers.",
 ["src/grengine.c","src/server.c"],
 [("route search","src/grengine.c:m38_generate_response"),("404 fallback","src/grengine.c:m38_generate_response"),("custom 404 registration","src/server.c:m38_set_404_handler, m38_set_404_cleanup")],
 [("matches","capture offsets","include/types.h:m38_http_request")],
 ["which handler ran, with which captures, and what the client received"])

p("C05","Partial-content responses are truthful",
 "When a request carries a Range header and the handler returns 200 with a body, a satisfiable single range first-last or first- yields status 206 with exactly those bytes (the end clipped to the resource), a Content-Range naming those positions and the full size, a Content-Length equal to the bytes sent, and the response's content type and custom headers. Any other Range value never causes a crash, a wrong label or foreign bytes: whatever is sent is self-consistent and taken from the resource. Responses other than a 200 with a body are sent as if there were no Range header.",
 ["inputs"],
 "all resource sizes and all Range header values, satisfiable or not",
 "The only range test parses a request with a Range header and never computes a response; correctness is arithmetic over all size/offset combinations.",
 ["src/grengine.c","src/parse.c"],
 [("range header parsing","src/parse.c:m38_parse_range_header"),("206 assembly","src/grengine.c:m38_generate_response")],
 None,["bytes read by the client"])

p("C06","Every response is cleaned up exactly once and nothing is leaked",
 "For every connection the server answers, the cleanup of the route that produced the response runs exactly once, after the body has been taken over, with a status that tells success from failure as the handler did, whether the client reads everything, disconnects early or the send fails. The connection's descriptor is closed exactly once, and once the connection is over all memory, mappings and descriptors obtained for it have been given back.",
 ["histories","fault_sequences"],
 "all sequences of requests, handlers, cleanup kinds and failures at any receive or send",
 "No test runs the request/response life cycle; leaks and double releases show only over many requests and on failure paths.",
 ["src/grengine.c","src/server.c","src/simple_sparsehash.c","src/vector.c"],
 [("release after the last byte and on send errors","src/grengine.c:m38_send_response"),("release of request parts","src/grengine.c:m38_generate_response"),("stock cleanups","src/grengine.c:m38_heap_cleanup, m38_heap_cleanup_no_check, m38_mmap_cleanup"),("form dictionary release","src/simple_sparsehash.c:sparse_dict_free")],
 [("matching_route, response","what to clean up","include/types.h:m38_handled_request")],
 ["cleanup calls, close calls, live heap bytes, open descriptors, memory mappings"])

p("C07","Concurrent requests are answered once each, unmixed and without data races",
 "With any number of worker threads and concurrent clients, every connection is passed to exactly one handler call and its client receives exactly the response made for its own request: nothing is lost, duplicated or mixed between connections. No two threads of the library access the same memory without synchronisation when one of them writes.",
 ["schedules","histories","configurations"],
 "all interleavings of acceptor, workers and responder, all worker counts, all mixes of concurrent requests",
 "No test starts a thread; races and cross-talk depend on the interleaving.",
 ["src/server.c","src/grengine.c","src/logging.c"],
 [("accepted-socket queue","src/server.c:acceptor, handler"),("handled-connection queue","src/server.c:handler, responder"),("thread start-up","src/server.c:m38_http_serve")],
 [("accepted queue","descriptors waiting for a worker","src/server.c"),("handled queue","responses waiting to be sent","src/server.c")],
 ["client-side history of unique request tokens","handler-call log","ThreadSanitizer reports"])

p("C08","The server keeps making progress under load and after transient faults",
 "As long as clients send their requests and read their responses, every request is answered, however many are in flight, however large the responses are relative to the send chunk and however few workers there are: the pipeline never deadlocks. Transient failures (an interrupted or aborted accept, running out of descriptors for a while, clients that reset or send garbage) never stop later requests from being served.",
 ["schedules","fault_sequences","configurations"],
 "all numbers of concurrent clients, response sizes, worker counts, schedules and sequences of transient faults",
 "No test runs the server; deadlock needs the bounded queues to fill while responses need several chunks.",
 ["src/server.c","src/grengine.c"],
 [("responder loop","src/server.c:responder"),("worker loop","src/server.c:handler"),("accept loop","src/server.c:acceptor")],
 [("queue occupancy","bounded at 10 messages","src/server.c:_open_queue")],
 ["completion of every client request within a bounded number of steps","blocked-thread states at the queue and socket calls"])

p("C09","Files are served byte for byte with the right type",
 "Serving a file yields status 200 and exactly the file's bytes for every size including zero, and a content type chosen by the file's extension (unless the handler set one): the listed type for known extensions in any letter case, application/octet-stream for unknown ones, regardless of path length. A path that does not exist or is not a readable file yields 404; rendering a file as a template yields exactly the rendering of its contents, for every file size.",
 ["inputs","configurations"],
 "all file sizes (page boundaries included), contents, names, extensions and path lengths",
 "No test serves a file.",
 ["src/grengine.c"],
 [("file mapping","src/grengine.c:mmap_file_ol, m38_mmap_file"),("type guess","src/grengine.c:guess_mimetype, mimetype_mapping"),("template file rendering","src/grengine.c:m38_render_file")],
 None,["response object after the call","client side of the socket"])

p("C10","Form bodies decode to exactly the submitted fields",
 "For every form-encoded body, the handler can look up each submitted field by name and gets exactly its decoded value (for a name submitted several times, the last one), and looking up any other name yields nothing, whatever the number of fields, the length of names and values, and the escapes used. Pairs without an equals sign or with a malformed escape are skipped without affecting the others. The raw body stays available to the handler unchanged.",
 ["inputs"],
 "all lists of fields, with all names, values and encodings of values",
 "The one form test submits two one-character values; collisions, growth, repeated names, empty values and long names never occur.",
 ["src/parse.c","src/utils.c","src/simple_sparsehash.c","src/grengine.c"],
 [("form parser","src/parse.c:m38_parse_form_encoded_body"),("value decoding","src/utils.c:m38_url_decode"),("field dictionary","src/simple_sparsehash.c")],
 [("form_elements","name to value map","include/types.h:m38_http_request")],
 ["dictionary lookups inside the handler"])

p("C11","URL decoding inverts URL encoding and rejects malformed escapes",
 "Decoding any percent/plus encoding of a byte string yields that byte string, and the reported length counts it with its terminator; text without escapes is returned unchanged. A string with an incomplete or non-hexadecimal escape is rejected. At most one byte more than the input's length is ever written, and nothing past the input's terminator is read.",
 ["inputs"],
 "all input strings",
 "No test decodes an escape.",
 ["src/utils.c"],
 [("decoder","src/utils.c:m38_url_decode")],None,["return value and output buffer"])

p("C12","The dictionary is a faithful map",
 "After any sequence of insertions and overwrites, looking up a key returns the value and length most recently stored under exactly that key, and a key never stored is not found; every insertion of a non-empty value succeeds, at every size and load, for keys of any length. Values are copies: later changes to the caller's buffers have no effect. Freeing the dictionary releases everything it held.",
 ["inputs","histories"],
 "all sequences of operations, key sets (colliding, long, prefix-related) and value sizes",
 "No test uses the dictionary beyond two one-character form fields; probing, resizing and replacement are never exercised.",
 ["src/simple_sparsehash.c"],
 [("insertion and probing","src/simple_sparsehash.c:sparse_dict_set"),("growth","src/simple_sparsehash.c:_rehash_and_grow_table"),("lookup","src/simple_sparsehash.c:sparse_dict_get"),("release","src/simple_sparsehash.c:sparse_dict_free")],
 [("buckets","open-addressed table","include/simple_sparsehash.h:struct sparse_dict")],
 ["results of sets and lookups against a map model","live heap bytes"])

p("C13","The sparse array is a faithful indexed store",
 "After any sequence of stores at any positions in any order, reading a position returns the bytes and length last stored there, and a position never stored is empty; other positions are unaffected. Positions outside the declared size and items larger than the declared element size are refused without any effect.",
 ["inputs","histories"],
 "all sequences of positions, element sizes, item sizes and array sizes",
 "No test uses the sparse array directly.",
 ["src/simple_sparsehash.c"],
 [("group storage","src/simple_sparsehash.c:_sparse_array_group_set, _sparse_array_group_get"),("occupancy bitmap arithmetic","src/simple_sparsehash.c:position_to_offset, popcount_32"),("bounds","src/simple_sparsehash.c:sparse_array_set, sparse_array_get")],
 [("bitmap/group","which positions are occupied","include/simple_sparsehash.h:struct sparse_array_group")],
 ["results of sets and gets against a map model"])

p("C14","The vector is a faithful sequence",
 "After any sequence of appends of values or pointers, starting from any initial capacity including zero, the vector holds exactly the appended items in order, each bytewise intact; reversing it reverses the order exactly and doing so twice restores it. Appends of the wrong size are refused without effect, and growth never disturbs earlier items or memory outside the vector.",
 ["inputs","histories"],
 "all item sizes, initial capacities and operation sequences",
 "Tests append one integer type and reverse once (with a comparison loop that never runs).",
 ["src/vector.c"],
 [("append and growth","src/vector.c:vector_append, vector_append_ptr"),("access","src/vector.c:vector_get"),("reversal","src/vector.c:vector_reverse")],
 [("count, max_size, items","contents and capacity","include/vector.h")],
 ["contents against a list model"])

p("C15","Template variables render to their values and other text is untouched",
 "Rendering replaces every reference to a string or integer variable, including references into named sub-contexts, by exactly the value stored under that name (strings up to 512 bytes; integers in decimal), and copies all other text unchanged, for every template size. The first definition of a name in a context wins, and inner contexts shadow outer ones. The reported size is the length of the rendered text, less the line terminator that ends the template if there is one.",
 ["inputs"],
 "all templates made of text and variable references, all variable names and values within the documented limits",
 "Tests render a few fixed templates with short values and compare up to the first NUL; the reported size is never checked.",
 ["src/greshunkel.c"],
 [("line splitting","src/greshunkel.c:read_line, gshkl_render"),("variable substitution","src/greshunkel.c:_interpolate_line, _interpolate_line_subcontext, vishnu"),("lookup","src/greshunkel.c:find_needle"),("context construction","src/greshunkel.c:gshkl_add_string, gshkl_add_int, gshkl_add_sub_context")],
 [("context","names to values, with parent","include/greshunkel.h:greshunkel_ctext")],
 ["rendered buffer and size"])

p("C16","Loops and conditionals render exactly the pieces they select",
 "A loop renders its body once per array element in order, with the loop variable (string, integer or sub-context) bound to that element and everything else visible as outside; an empty array renders nothing. Of the two conditionals on the same plain (undotted) name exactly one renders its body: UNLESS when the variable is missing, an empty string, the string FALSE or an empty array, and UNLESS NOT when it is any other string, a non-empty array or a sub-context. Exactly one of the two renders as well for the dotted name of a string in a sub-context. A block ends at its first closing marker, blocks may follow each other or nest (a loop inside UNLESS NOT, conditionals inside a loop), and text outside blocks is unaffected.",
 ["inputs"],
 "all arrays, variable states and arrangements of loops, conditionals and text",
 "Tests cover one loop over six items and a handful of conditionals in fixed positions; the loop-inside-conditional test is never run.",
 ["src/greshunkel.c"],
 [("loop expansion","src/greshunkel.c:_interpolate_loop"),("conditionals","src/greshunkel.c:_interpolate_conditionals, _is_truthy, _is_falsey")],
 None,["rendered buffer and size"])

p("C17","Includes and filters are applied exactly",
 "An include line is replaced by the rendering, in the current context, of the named file's whole content, whatever its size. Each filter call is replaced by the result of calling the named filter once with exactly the argument text (variables already substituted; the blanks before it left out), or with no argument when none is given, in order from left to right; the clean-up given for a filter runs exactly once per call on that result.",
 ["inputs"],
 "all include files (sizes from empty to many kilobytes) and all arrangements of filters, arguments and variables on a line",
 "Tests include one 155-byte file and call filters that ignore their argument.",
 ["src/greshunkel.c"],
 [("include","src/greshunkel.c:_include_line"),("filters","src/greshunkel.c:_filter_line"),("filter registration","src/greshunkel.c:gshkl_add_filter")],
 None,["rendered buffer, filter-call log"])

p("C18","Rendering is pure, thread-safe and leak-free",
 "Rendering never changes the context it is given: rendering the same template again, in any order with other templates and from several threads at once, gives the same result every time without data races. Apart from the returned buffer a render leaves no memory behind, and freeing a context releases it and every array and sub-context added to it exactly once, whether or not it was ever rendered.",
 ["histories","schedules"],
 "all contexts, all sequences of renders of all templates over them, all interleavings of concurrent renders",
 "Each test renders once per context from one thread and never measures memory.",
 ["src/greshunkel.c","src/vector.c"],
 [("temporary child contexts","src/greshunkel.c:_gshkl_init_child_context"),("context release","src/greshunkel.c:gshkl_free_context"),("line buffer ownership","src/greshunkel.c:_interpolate_line, gshkl_render")],
 None,["rendered buffers, live heap bytes, sanitizer reports"])

p("C19","A cookie lookup returns that cookie's value",
 "Looking up a name in a cookie string returns exactly the value of the cookie with that name, wherever it stands in the string, and nothing if there is no cookie of exactly that name; names that contain or extend the requested name, or values that mention it, are never confused with it. Malformed cookie strings never cause an invalid access.",
 ["inputs"],
 "all cookie strings and names",
 "There is no cookie test.",
 ["src/utils.c"],
 [("cookie lookup","src/utils.c:m38_get_cookie_value")],None,["returned string"])

p("C20","The Python binding renders exactly what the C API renders",
 "For every context built from strings, integers, lists, nested dictionaries and filter functions, and every template including non-ASCII text, rendering through the Python classes returns the text that the template language defines for those values, wherever in memory the interpreter places its objects.",
 ["inputs","configurations"],
 "all context dictionaries and templates; interpreters with any heap placement",
 "python/test.py prints one rendering and has no assertion.",
 ["python/greshunkel.py","src/greshunkel.c"],
 [("context conversion","python/greshunkel.py:_add_item_to_greshunkel_context, _add_item_to_greshunkel_loop"),("rendering","python/greshunkel.py:Template.render")],
 None,["the string returned by Template.render"])

p("C21","Log records are whole, well formed and never interleaved",
 "Every log call writes exactly one line, a timestamp, the marker of its level and the formatted message (cut at the documented buffer size, never beyond), to standard error for errors and to standard output otherwise. Lines from concurrent threads are never mixed, lost or duplicated, and logging is free of data races.",
 ["inputs","schedules"],
 "all levels, message contents and lengths, and all interleavings of logging threads",
 "Tests log a few short lines from one thread and do not read them back.",
 ["src/logging.c"],
 [("logger","src/logging.c:m38_log_msg")],None,["bytes written to the two streams"])

p("C22","Text and file helpers agree with their specification on all inputs",
 "The bounded search returns the first occurrence of the needle that lies wholly within the given length and terminator, or nothing; the suffix test is true exactly for suffixes; the string hash is the 64-bit FNV-1a of all bytes for every length, written in upper-case hexadecimal without padding; the file helpers report the file's size and modification time, and zero for missing files; parsing a range value gives the stated offset and limit or 0/0.",
 ["inputs"],
 "all strings, lengths and needles; all files; all range strings",
 "No test calls these helpers directly.",
 ["src/utils.c","src/parse.c"],
 [("bounded search","src/utils.c:strnstr"),("suffix","src/utils.c:endswith"),("hash","src/utils.c:hash_string_fnv1a"),("file helpers","src/utils.c:get_file_size, get_file_creation_date"),("range parsing","src/parse.c:m38_parse_range_header")],
 None,["return values and output buffers"])

p("C23","Starting the server is isolated from earlier and failing runs",
 "A server started after an earlier one was killed at any moment serves correctly and never acts on anything left behind by it. Starting a server that cannot listen on its port returns failure without disturbing a server that is already running.",
 ["crash_points","histories"],
 "all moments at which a previous server is killed, all leftovers in the system's message queues, all orders of successful and failing starts",
 "No test starts or kills a server.",
 ["src/server.c"],
 [("purging old queues","src/server.c:m38_http_serve (mq_unlink)"),("queue creation","src/server.c:_open_queue"),("listening socket","src/server.c:create_socket")],
 [("message queues","kernel objects that outlive the process","src/server.c")],
 ["responses of the new and of the running server, return value of the failing start"])

p("C24","Every answered request leaves one truthful access record",
 "For every request the server produces a response for, whatever becomes of the connection, standard output carries exactly one access record: one line at the LOG_FUN level with the X-Real-IP value (or NOIP), the quoted method and path, the status and body size of the answer the client is sent, and the quoted User-Agent (or NOUSERAGENT). A request that is refused leaves none. Nothing a client sends can end a log line or stand in the log as a line of its own.",
 ["inputs","schedules"],
 "all requests with all bytes in method, path and header values, all answers, all interleavings of workers",
 "No test looks at the log, and none sends a request with control characters in a value.",
 ["src/grengine.c","src/logging.c"],
 [("access record","src/grengine.c:log_request"),("range value in the log","src/grengine.c:resolve_range"),("log line","src/logging.c:m38_log_msg")],
 [("log","lines on standard output","src/logging.c")],
 ["the server's standard output"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
for x in P:
    n=x["statement"].count(". ")+1
    print(x["id"],n) if n>3 else None
print(len(P))
