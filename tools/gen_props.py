#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
V = 'crates/vertigo/src/'
J = V + 'driver_module/src_js/'
C = 'crates/vertigo-cli/src/'
M = 'crates/vertigo-macro/src/'
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": hook}})

p("P01", "Derived values are never stale",
  "Whenever a derived value is read - inside or outside a transaction, observed by a subscriber or not - the result equals what its defining function gives for the current values of its sources. This also holds when its dependencies change from one evaluation to the next and when derived values are built on other derived values.",
  ["histories", "programs"],
  "every dependency graph (static, conditional, dynamically created nodes) and every interleaving of writes, nested transactions, reads, subscriptions and drops",
  "The tests check a few fixed graphs of 2-4 nodes; staleness depends on which edges exist, which are cached and in what order they are invalidated, i.e. on the whole history.",
  [V+"computed/computed_box.rs", V+"computed/value.rs", V+"computed/graph_value.rs", V+"computed/dependencies/graph.rs", V+"computed/dependencies/graph_connections.rs", V+"computed/dependencies/transaction_state.rs", V+"computed/dependencies/refresh.rs"],
  [("cached value with invalidation of all transitive dependents on write", V+"computed/graph_value.rs"),
   ("edge replacement after each evaluation", V+"computed/dependencies/graph_connections.rs")],
  ["Computed::get / Value::get results in a wasm guest compared with a reference evaluator"])

p("P02", "Subscribers hear of exactly the changes, once and glitch-free",
  "A subscriber to a reactive value is called immediately with the current value and then, at the end of each outermost transaction, at most once and only if the value differs from the one it last received - and always if it differs. Every value it is shown, and every other derived value it reads during the call, reflects the complete transaction and never an intermediate mixture; after its handle is dropped it is never called again.",
  ["histories", "programs", "schedules"],
  "every graph, subscription set, nesting of transactions, and subscriptions created or dropped while notifications are being delivered",
  "Existing tests watch one or two subscribers over short scripted histories; missed or duplicate notification depends on the combination of diamond dependencies, restored values and subscriptions changing mid-delivery.",
  [V+"computed/computed_box.rs", V+"computed/graph_value.rs", V+"computed/dependencies/mod.rs", V+"computed/dependencies/transaction_state.rs", V+"computed/dependencies/refresh.rs", V+"computed/drop_resource.rs"],
  [("transaction nesting level and deferred refresh", V+"computed/dependencies/transaction_state.rs"), ("comparison with last notified value", V+"computed/computed_box.rs")],
  ["log of (subscriber, value, transaction) in the guest"])

p("P03", "Unobserved computations stay idle and dropped ones are released",
  "A derived value's function runs only when the value is read, or when something it feeds is being observed and one of its inputs was written, and between two such writes it runs at most once. When the last handle to a derived value, subscription or source is dropped, everything captured by its function is released and later writes never evaluate it again.",
  ["histories", "programs"],
  "every graph and every history of subscribing, unsubscribing, reading, writing and dropping handles in any order",
  "Tests count evaluations in a few graphs; a leak or needless evaluation only appears after particular subscribe/unsubscribe/drop orders.",
  [V+"computed/computed_box.rs", V+"computed/graph_value.rs", V+"computed/dependencies/graph_connections.rs", V+"computed/dependencies/graph_one_to_many.rs", V+"computed/drop_resource.rs", V+"computed/graph_id.rs"],
  [("edges removed on drop, laziness of unobserved computeds", V+"computed/graph_value.rs")],
  ["evaluation counters and drop-tokens captured by closures in the guest"])

p("P04", "External sources are connected exactly while they are observed",
  "A value created with a connection routine has that routine started when it gains its first observer and its connection released when the last observer is gone, so that at any moment there is at most one live connection per value and none while nobody observes it. Values delivered by the connection reach the observers like any other write.",
  ["histories", "programs"],
  "every interleaving of observers (direct, through derived values, conditional) appearing and disappearing, inside and outside transactions",
  "Only single connect/disconnect sequences are tested; leaks or double connections need several observers changing in one transaction.",
  [V+"computed/value.rs", V+"computed/dependencies/external_connections.rs", V+"computed/dependencies/graph_connections.rs", V+"computed/dependencies/graph.rs", V+"computed/auto_map.rs"],
  [("connect/disconnect computed from edge additions and removals", V+"computed/dependencies/external_connections.rs")],
  ["connect/disconnect log of guest, live connection counter"])

p("P05", "Keyed caches create once per key; transaction hooks run once",
  "A keyed cache of reactive objects calls its factory at most once per key and always hands out the object made for that key. A function registered to run after transactions runs exactly once after each outermost transaction, after all subscribers of that transaction were notified, and never in the middle of one.",
  ["histories"],
  "every sequence of keyed lookups (also from inside derived values) and every nesting of transactions and hook registrations",
  "There are no tests over sequences; a double creation or hook call shows only for repeated or nested use.",
  [V+"computed/auto_map.rs", V+"computed/struct_mut/hash_map_mut.rs", V+"computed/dependencies/hook.rs", V+"computed/dependencies/mod.rs"],
  [("memoised map", V+"computed/auto_map.rs"), ("hook list fired at transaction end", V+"computed/dependencies/hook.rs")],
  ["factory call log and hook log in the guest"])

p("P06", "What is on the page equals what the program describes",
  "After every transaction, the document in the browser is exactly the one described by the program's node definitions evaluated at the current values: same elements, attributes (including absent optional ones), classes, texts and child order, for static children, reactive texts and attributes, conditional content, lists and fragments nested in any way. No reactive update changes any part of the page that does not depend on the changed values.",
  ["programs", "histories"],
  "every tree of elements, texts, reactive values, options, lists and fragments, and every history of value changes",
  "The existing tests look at single components rendered once; the result depends on the accumulated history of insertions and removals among siblings that are themselves dynamic.",
  [V+"dom/dom_element.rs", V+"dom/dom_comment.rs", V+"dom/dom_text.rs", V+"dom/dom_element_class.rs", V+"dom/attr_value.rs", V+"render/dom_value.rs", V+"render/dom_list.rs", V+"driver_module/dom.rs", V+"driver_module/dom_command.rs", V+"dom_macro/dom.rs"],
  [("comment markers as anchors of dynamic content", V+"dom/dom_comment.rs"), ("batched DOM commands", V+"driver_module/dom.rs")],
  ["mini-DOM tree after each flush vs. reference rendering"])

p("P07", "Keyed lists show the right items in order and keep item identity",
  "After any change of the data, a rendered list shows one item per data element in data order. An item (element or text) whose key stays in the list keeps its existing node (it is moved, not re-created) and its rendering function is called only for elements whose key was not in the list before; duplicated keys are allowed and are matched up consistently.",
  ["inputs", "histories"],
  "every sequence of lists (insertions, removals, reversals, rotations, duplicates, empties), plain items and items that are themselves conditional, lists or fragments",
  "Reordering algorithms fail on particular permutations; tests exercise one list once.",
  [V+"render/dom_list.rs", V+"dom/dom_comment.rs", V+"computed/value.rs", V+"computed/computed_box.rs"],
  [("top/bottom pairing plus keyed middle", V+"render/dom_list.rs")],
  ["order and node identity in the mini-DOM, render-call log in the guest"])

p("P08", "Removing content removes all of it, exactly once",
  "When content leaves the page, all of its nodes, its event handlers, its subscriptions and everything its closures captured are released, nothing that is still on the page is released, and no command ever refers to a node that was never created or is already gone. Creating and removing the same content any number of times leaves no residue.",
  ["programs", "histories"],
  "every tree and every history of conditional/list updates removing and re-adding subtrees, with handlers, refs, reactive attributes and nested dynamic content",
  "Tests never count live nodes or callbacks; residue and dangling references depend on nesting and on the order of removals in one flush.",
  [V+"dom/dom_element.rs", V+"dom/dom_comment.rs", V+"dom/dom_text.rs", V+"dom/dom_id.rs", V+"dom/callback.rs", V+"driver_module/dom.rs", V+"driver_module/api/callbacks.rs", V+"driver_module/dom_suspense/dom_suspense_mod.rs", J+"api_browser/dom/map_nodes.ts", J+"api_browser/dom/dom.ts"],
  [("Drop implementations emit removal commands", V+"dom/dom_element.rs"), ("node and callback maps", J+"api_browser/dom/map_nodes.ts")],
  ["command stream balance, registered listeners of the mini-DOM, drop tokens in the guest"])

p("P09", "Events reach exactly the current handler with the right payload",
  "A user event on an element invokes, exactly once, the handler that the program has at that moment declared for that element and event, with the payload the browser gave (text value, key data, dropped files), and no handler of removed content or of a replaced declaration is ever invoked. The browser's default action is suppressed and propagation stopped exactly when the framework documents or the handler requests it, and clicks on internal links navigate without a page load.",
  ["programs", "histories", "inputs"],
  "every tree with nested handlers of all supported kinds, event sequences, payloads, handler return values and interleaved updates",
  "No test dispatches DOM events at all; the payload crosses the wasm boundary through hand-written encoding on both sides.",
  [V+"dom/dom_element.rs", V+"dom/callback.rs", V+"dom/types.rs", V+"driver_module/api/callbacks.rs", J+"api_browser/dom/dom.ts"],
  [("callback ids registered per element", V+"driver_module/api/callbacks.rs"), ("event listeners in JS", J+"api_browser/dom/dom.ts")],
  ["dispatch of events in the mini-DOM; handler log in the guest; defaultPrevented flags"])

p("P10", "The browser runtime applies every update stream faithfully",
  "For every valid sequence of document updates sent by the program, in any batching, the browser runtime produces the document that the sequence means: creation with the right namespace (svg and path elements in the SVG one), text and comments, insertion before a sibling or at the end, moves, attribute set and removal, listener registration and removal, and removal of nodes; the committed runtime bundle and its sources behave identically. Nodes not mentioned keep their identity and content.",
  ["inputs", "histories"],
  "every well-formed command stream and every split of it into batches",
  "There are no tests of the JavaScript side at all, and the committed bundle is only regenerated by hand.",
  [J+"api_browser/dom/dom.ts", J+"api_browser/dom/map_nodes.ts", V+"driver_module/wasm_run.js", V+"driver_module/dom_command.rs"],
  [("command interpreter", J+"api_browser/dom/dom.ts")],
  ["mini-DOM after every batch vs reference interpreter, for bundle and for compiled sources"])

p("P11", "Values survive the binary exchange format unchanged",
  "Every value and JSON document that can cross the boundary between program and host is decoded to an equal value from its own encoding, with the announced size being the actual one, and every truncated or corrupted encoding is answered with an error rather than a crash or a hang. Values that compare equal also hash equally, however they were built.",
  ["inputs", "fault_sequences"],
  "every value tree (all variants, nesting, string and list lengths, number extremes, key orders) and every truncation, extension or byte change of an encoding",
  "Round trips of five literal values are tested; object variants, length limits, extremes and malformed input are not.",
  [V+"driver_module/js_value/js_value_struct.rs", V+"driver_module/js_value/js_json_struct.rs", V+"driver_module/js_value/memory_block.rs", V+"driver_module/js_value/memory_block_read.rs", V+"driver_module/js_value/memory_block_write.rs", V+"driver_module/js_value/js_value_list_decoder.rs"],
  [("size computation, writer and reader per variant", V+"driver_module/js_value/js_value_struct.rs")],
  ["encode/decode in the guest, re-encoding equality, error instead of trap"])

p("P12", "Program and browser runtime agree on the meaning of every value",
  "Any value passed from the program to JavaScript arrives as the corresponding JavaScript value, and any value returned arrives in the program with the same type and content: numbers (integers, fractions, 64-bit, extremes), strings in any script, booleans, null, undefined, binary data, lists, objects and JSON documents. Passing a value through both directions gives the original back.",
  ["inputs"],
  "every value tree in both directions, for the committed bundle and the runtime sources",
  "The two encoders are written independently in Rust and TypeScript and are never tested against each other.",
  [J+"jsvalue.ts", J+"jsjson.ts", J+"buffer_cursor.ts", J+"js_node.ts", V+"driver_module/js_value/js_value_struct.rs", V+"driver_module/wasm_run.js"],
  [("independent encoders and decoders in both languages", J+"jsvalue.ts")],
  ["argument seen by a JS function called from the guest, and the value the guest gets back"])

p("P13", "Typed data survives conversion to JSON and mismatches are reported",
  "For every supported type - primitives, strings, options, lists, maps, dates and any nesting of structures, newtypes, tuples and enums that derive the conversion - converting a value to JSON and back gives an equal value, in the documented shape (serde's external tagging for enums, defaults for missing fields). JSON of any other shape is rejected with an error naming the place, never with a crash or a silently wrong value.",
  ["inputs", "programs"],
  "every value of every supported type combination and every JSON document offered to it",
  "Tests convert a handful of literal structures; the shape of the generated code depends on the declared type.",
  [V+"driver_module/js_value/serialize.rs", V+"driver_module/js_value/serialize_chrono.rs", V+"driver_module/js_value/js_json_struct.rs", M+"jsjson/enums.rs", M+"jsjson/structs.rs", M+"jsjson/newtypes.rs", M+"jsjson/tuple_fields.rs", M+"jsjson/mod.rs"],
  [("trait implementations and derive macro", V+"driver_module/js_value/serialize.rs")],
  ["to_json/from_json results in the guest vs an independent model of each type"])

p("P14", "Loading indication reflects pending requests of exactly its subtree",
  "An element that declares a loading indication shows it exactly while the element it stands in contains, at any depth, some request-backed value that is loading, and stops showing it when all of them have been answered, failed or been removed from the page. Loading in one part of the page never affects the indication of another part.",
  ["programs", "histories"],
  "every nesting of elements with and without indication, placements of resources, and orders of loading, answering, failing, adding and removing",
  "Nothing tests this; it depends on tree position and on the history of moves and removals.",
  [V+"driver_module/dom_suspense/dom_suspense_mod.rs", V+"driver_module/dom_suspense/dom_connection.rs", V+"driver_module/dom_suspense/node_paths.rs", V+"dom/dom_element_class.rs", V+"dom/dom_element.rs"],
  [("tree of loading nodes", V+"driver_module/dom_suspense/dom_suspense_mod.rs")],
  ["class attribute of elements in the mini-DOM"])

p("P15", "Generated style sheets carry each declaration under its own class",
  "For every style used on the page, the generated sheet contains rules that give an element with the generated class exactly the declared properties in order, with nested pseudo-selectors, media queries and animations attached to that class or to a unique animation name. Different styles never share a class, equal static styles are emitted once, and no character of a declaration is lost, changed or crashes the program.",
  ["inputs", "histories"],
  "every style text built from declarations (any script, quotes, urls, functions), nested selectors, media and keyframe blocks, and every order of use",
  "Tests cover about ten literal style texts; the splitter is hand-written over characters and offsets.",
  [V+"css/transform_css/mod.rs", V+"css/transform_css/splits.rs", V+"css/css_manager.rs", V+"css/css_structs.rs", V+"css/next_id.rs", V+"css/get_selector.rs", V+"dom/dom_element_class.rs"],
  [("brace and row splitting", V+"css/transform_css/splits.rs"), ("class allocation", V+"css/css_manager.rs")],
  ["style nodes in the mini-DOM parsed by an independent CSS parser"])

p("P16", "Server-rendered HTML parses back to exactly the rendered document",
  "For every program and data, a browser parsing the HTML sent by the server obtains the document the program describes: the same elements, attributes and text, with no text or attribute value able to end its element, add markup or run script. The style sheet of the page and the program's start script are present and every response is complete HTML with the documented status and headers; a program that describes no document is answered with an error status.",
  ["programs", "inputs"],
  "every element tree the browser can represent with arbitrary text and attribute strings (quotes, angle brackets, ampersands, control and non-Latin characters), void elements, raw-text elements",
  "Tests render a few fixed trees; escaping errors show only for particular characters at particular places.",
  [C+"serve/html/element.rs", C+"serve/html/element_children.rs", C+"serve/html/html_element.rs", C+"serve/html/html_response.rs", C+"serve/html/dom_command.rs", C+"serve/html/ordered_map.rs", C+"serve/server_state.rs"],
  [("tree reconstruction and escaping", C+"serve/html/html_element.rs")],
  ["HTTP response of the real server parsed by an independent HTML parser"])

p("P17", "The page is taken over only when complete, and only once",
  "While initial requests (those the first document asks for, and any made while these are outstanding) are unanswered the server-rendered page stays untouched, and when they have all been answered or failed the whole new document replaces it in one step. After that, every further change is applied at once, and a page is started only once however many start triggers arrive.",
  ["histories", "schedules", "fault_sequences"],
  "every number, nesting, completion order and failure of initial requests and every start trigger order",
  "Nothing tests the start-up sequence; it depends on the order in which asynchronous answers arrive.",
  [V+"driver_module/dom.rs", V+"driver_module/driver.rs", V+"driver_module/api/api_import.rs", V+"driver_module/init_env.rs", V+"lib.rs", J+"index.ts", J+"api_browser/dom/dom.ts"],
  [("flush withheld while first requests are pending", V+"driver_module/driver.rs")],
  ["mini-DOM mutations with respect to fetch completion order"])

p("P18", "Server rendering waits for data and asks for each thing once",
  "The page sent by the server contains the answers (or errors) of all requests made while rendering, including those made in reaction to other answers, and each distinct request (same method, address, headers and body) is made to the upstream exactly once per page however many parts of the program ask for it. If an upstream never answers, the page is still sent within about ten seconds.",
  ["programs", "schedules", "fault_sequences"],
  "every set and dependency of requests, methods, headers, bodies, response types, delays, failures and completion orders",
  "No test runs the server against an upstream; completion order and request equality decide.",
  [C+"serve/html/html_response.rs", C+"serve/html/send_request.rs", C+"serve/response_state.rs", C+"serve/wasm/message.rs", C+"serve/wasm/js_value_match.rs", C+"serve/wasm/data_context.rs"],
  [("request map keyed by request", C+"serve/html/html_response.rs")],
  ["upstream request log and HTML body of the real server"])

p("P19", "Server requests are isolated from each other and from crashes",
  "What the server answers to a request depends only on that request, the configuration and upstream data - never on earlier or concurrent requests - and a program that crashes on one request is answered with an error status without affecting any other. Environment settings and request address reach the program unchanged, and a plain response the program asks for is delivered verbatim.",
  ["histories", "schedules", "configurations", "fault_sequences"],
  "every sequence and concurrency of requests including crashing and slow ones, every address, every environment setting",
  "No test sends two requests; state leaking between instances shows only across requests.",
  [C+"serve/server_state.rs", C+"serve/serve_run.rs", C+"serve/response_state.rs", C+"serve/request_state.rs", C+"serve/wasm/wasm_instance.rs", C+"serve/wasm/data_context.rs", C+"serve/wasm/js_value_match.rs", C+"serve/html/html_response.rs", C+"commons/parse_key_val.rs", V+"driver_module/init_env.rs"],
  [("fresh guest instance per request", C+"serve/server_state.rs")],
  ["HTTP responses under interleaved requests compared with responses alone"])

p("P20", "Proxy and static files pass data through unchanged",
  "Requests under a configured proxy path are forwarded to the configured upstream with method, remaining path, query, headers and body, and the answer returns with status, body and headers; files of the build are served byte for byte under their public path, with the type of modules and in a way browsers may keep them, and nothing outside that folder is. All other addresses reach the program, whose answers are not kept.",
  ["configurations", "inputs", "fault_sequences"],
  "every mount point and proxy configuration, path, query, body, status and upstream failure",
  "No test starts the server with proxies.",
  [C+"serve/serve_run.rs", C+"serve/mount_path.rs", C+"serve/serve_opts.rs", C+"commons/parse_key_val.rs"],
  [("routes installed per proxy and mount path", C+"serve/serve_run.rs")],
  ["upstream log and client view of the real server"])

p("P21", "Requests and answers pass between program and browser unchanged",
  "A request the program makes in the browser is issued exactly once with the given method, address, headers and body, and the program receives exactly one outcome: the status and body as JSON, text or bytes according to the answer's content type, or an error when the request fails. Typed conversion of an answer yields the value or an error, never a crash.",
  ["inputs", "fault_sequences", "schedules"],
  "every method, header set, body kind, status, content type, body and failure, with many requests in flight answered in any order",
  "There is no test of fetching; both sides of the encoding and the completion bookkeeping are hand written.",
  [V+"fetch/request_builder.rs", V+"driver_module/api/api_import.rs", V+"driver_module/api/callbacks.rs", J+"api_browser/fetch.ts", V+"future_box.rs"],
  [("callback id per request", V+"driver_module/api/api_import.rs")],
  ["mock fetch log and guest outcome log"])

p("P22", "Cached remote data is loaded lazily, kept for its lifetime, then renewed",
  "A cached remote value shows loading until its first answer, then the answer or error; it is requested only when something uses it, at most once at a time, is not requested again before its lifetime expires and is renewed on use after expiry, by an explicit refresh or after being forgotten. A renewal without loading indication keeps showing the old value until the answer arrives.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of reads, subscriptions, clock advances, answers, failures, forget and forced refresh",
  "No test drives it over time.",
  [V+"fetch/lazy_cache.rs", V+"fetch/resource.rs", V+"fetch/request_builder.rs", V+"instant.rs"],
  [("expiry instant and queued flag", V+"fetch/lazy_cache.rs")],
  ["mock fetch log under a virtual clock and values read in the guest"])

p("P23", "Timers and tasks run on time, in order, until cancelled",
  "A one-shot timer or sleep fires exactly once and a repeating one once per period, never early, in order of due time, and never after its handle was dropped; a spawned task runs to completion exactly once, resumed exactly when what it waits for is ready. Any number of timers and tasks may be active and may be created or dropped from within each other.",
  ["schedules", "histories"],
  "every set of timers, sleeps and tasks with nesting, cancellation and clock advance pattern",
  "No test runs timers.",
  [V+"driver_module/driver.rs", V+"driver_module/utils/futures_spawn.rs", V+"future_box.rs", V+"driver_module/api/api_import.rs", V+"driver_module/api/callbacks.rs", J+"api_browser/interval.ts"],
  [("callback registry and waker queue", V+"driver_module/utils/futures_spawn.rs")],
  ["event log of the guest under a virtual clock"])

p("P24", "Routers stay in step with the address bar",
  "In both routing styles, the route a program sees always corresponds to the browser's address: setting a route changes the address (adding a history entry or replacing it) and back/forward or link navigation changes the route, each change being seen once. Routers that are not in use hold no listener, and a route text that is a valid address (in hash style: any text) arrives unchanged.",
  ["histories", "inputs"],
  "every sequence of route changes by program, by link click, by back/forward, for any route text, with routers appearing and disappearing",
  "No test uses a router with an address bar.",
  [V+"router.rs", V+"driver_module/api/api_import.rs", J+"api_browser/hashrouter.ts", J+"api_browser/historyLocation.ts", J+"api_browser/dom/dom.ts"],
  [("connected value over host callbacks", V+"router.rs")],
  ["mock location/history and route values in the guest"])

p("P25", "Websocket messages arrive once, in order, on a self-healing connection",
  "While a program holds a websocket handle, every message the server sends on an open connection reaches the program's handler once and in order, connection and loss are announced alternately, sending transmits the text unchanged, and a lost or refused connection is retried. After the handle is dropped no handler is called and no socket stays open or is opened again.",
  ["schedules", "fault_sequences", "histories"],
  "every order of connect, refuse, time-out, message, close, send and drop, with several connections",
  "Nothing tests websockets.",
  [V+"websocket.rs", V+"driver_module/api/api_import.rs", V+"driver_module/api/callbacks.rs", J+"api_browser/websocket/websocket.ts", J+"api_browser/websocket/connection.ts", J+"api_browser/websocket/event_emiter.ts", J+"api_browser/websocket/promise.ts"],
  [("reconnect loop with time-outs", J+"api_browser/websocket/connection.ts")],
  ["mock WebSocket under a virtual clock and guest message log"])

p("P26", "Cookies read back what was written",
  "A cookie set by the program is afterwards read back with the same value whatever other cookies exist, and a cookie never set reads as empty; the lifetime given is passed to the browser in seconds. Setting one cookie never changes another.",
  ["inputs", "histories"],
  "every sequence of sets and gets over names (including names that are prefixes of one another) and values",
  "No test touches cookies.",
  [J+"api_browser/cookies.ts", V+"driver_module/api/api_import.rs"],
  [("cookie string parser", J+"api_browser/cookies.ts")],
  ["mock document.cookie jar"])

p("P27", "Direct JavaScript access reaches the right object with the right arguments",
  "A chain of property reads, writes and method calls made by the program on the window, the document or an element it rendered is carried out on that object with those arguments in that order, and its result comes back unchanged; a reference to an element that is not on the page, a failing chain and a result that is not data yield nothing.",
  ["inputs", "programs"],
  "every access chain, argument list and result value",
  "The tests only compile such chains.",
  [V+"driver_module/api/api_dom_access.rs", V+"dom/dom_element_ref.rs", M+"api_access.rs", J+"js_node.ts", J+"wasm_module.ts", J+"jsvalue.ts"],
  [("command list interpreted by the runtime", J+"js_node.ts")],
  ["instrumented window/document/element objects"])

p("P28", "Command line options and project creation do what they say",
  "Creating a project writes the complete template with the chosen name into the target folder and refuses to touch a folder with content; option values of the form key=value are split at the first separator and rejected otherwise. Invalid invocations end with an error status and change nothing.",
  ["inputs", "configurations"],
  "every project name, target folder state and option text",
  "Nothing runs the command line tool.",
  [C+"new/mod.rs", C+"commons/parse_key_val.rs", C+"main.rs", C+"commons/command.rs"],
  [("template expansion and emptiness test", C+"new/mod.rs")],
  ["file tree and exit status of the real tool in a scratch folder"])

p("P29", "Markup macros mean the same as building the nodes by hand",
  "For every markup text accepted by the macros, the resulting document is the one obtained by parsing that markup as a tree: tag and attribute names, attribute values of all documented kinds (static, reactive, optional, shorthand), handlers for every event, text with character entities, embedded values, nodes and lists, fragments and components at their places and in order.",
  ["programs"],
  "every markup program of the documented grammar",
  "Tests instantiate about fifteen fixed snippets.",
  [M+"html_parser.rs", M+"component.rs", V+"dom_macro/dom.rs", V+"html_entities.rs", V+"dom/dom_element.rs"],
  [("translation of markup into builder calls", M+"html_parser.rs")],
  ["generated programs, compiled and rendered, vs the tree they were generated from"])

p("P30", "Style macros mean what the style text says",
  "For every style text accepted by the macro, the style produced is the text with comments removed and each embedded expression replaced by its value, a reference to another style by the class or classes of that style; and appending or nesting styles concatenates them in order.",
  ["programs", "inputs"],
  "every style text of the documented grammar with any embedded values, and every composition of styles",
  "Tests compare about fifteen literals.",
  [M+"css_parser.rs", V+"css/css_structs.rs"],
  [("style text translation", M+"css_parser.rs")],
  ["generated programs, compiled and evaluated, vs the text they were generated from"])

p("P31", "Closure, component and access macros capture and pass exactly what is named",
  "A closure made by the binding macros behaves as the closure written by hand on clones of the named variables or fields, called with the same arguments, and the original variables stay usable; asynchronous variants run the body once per call. A component receives every attribute as the parameter of that name, regardless of order. The window and document macros read the property or call the function of the given name with the given arguments.",
  ["programs"],
  "every list of bindings (variables, field paths, repeated), parameters, body kind and component signature",
  "Tests compile eight fixed shapes.",
  [M+"bind.rs", M+"component.rs", M+"lib.rs", M+"api_access.rs"],
  [("clone-and-move expansion", M+"bind.rs")],
  ["generated programs, compiled and run, vs hand-expanded twins"])

p("P32", "A build leaves exactly what the program needs, under the names it uses",
  "After a successful build the destination folder holds the index naming the program's script and module under the given public address, those files with the bytes the compiler (or the optimiser, when it is used and works) produced, the files included by the program at the addresses the program uses for them, the source map if asked for - and nothing left over from earlier builds. File names change whenever the content does. The package is the one asked for, or the workspace's only suitable one. A failing build ends with an error status, and nothing but the destination and the compiler's target folder is changed.",
  ["inputs", "histories", "faults"],
  "every workspace layout, every sequence of builds with changing inputs, options and folders, missing or failing tools, and every set of included files",
  "Nothing runs the build command.",
  [C+"build/build_run.rs", C+"build/cargo_build.rs", C+"build/cargo_workspace.rs", C+"build/check_env.rs", C+"build/find_target.rs", C+"build/wasm_opt.rs", C+"build/wasm_path.rs", C+"commons/models.rs", M+"include_static.rs", M+"wasm_path.rs"],
  [("collecting the outputs under hashed names and writing the index", C+"build/build_run.rs"), ("copying included files at compile time", M+"include_static.rs")],
  ["file tree and exit status after the real tool ran, and the served addresses"])

p("P33", "While watching, every change reaches the browser and nothing else does",
  "While `watch` runs, every change in the package's folder or another watched folder leads to a build of the state after it, also when it comes during a build; what the tool writes itself (destination, compiler's target folder) starts no build. Once nothing changes any more, the newest state is served at the given host and port with all its files, or, if it does not compile, all listeners know that. Every page that listens at the watch port is told of builds, errors and new versions, also when it starts to listen in between. The served pages are those of `serve` plus one script, which shows the current state and reloads the page when a newer version is ready.",
  ["histories", "schedules", "configurations"],
  "every workspace layout and option set, every history of changes, successful and failing builds and listeners coming and going, at any moments",
  "Nothing runs the watch command.",
  [C+"watch/watch_run.rs", C+"watch/sse.rs", C+"watch/is_http_server_listening.rs", C+"watch/watch_opts.rs", C+"serve/response_state.rs", C+"serve/watch.js", C+"serve/serve_run.rs"],
  [("restart of build and server on each change", C+"watch/watch_run.rs"), ("messages to the pages", C+"watch/sse.rs"), ("script in the pages", C+"serve/watch.js")],
  ["builds started, messages received, pages served, state of a page with the script"])

p("P34", "Time, random numbers and services work in the browser and on the server",
  "A program may use the services of its environment anywhere: it is told the current time and the zone offset (seconds east of UTC); elapsed times and expiries follow from the moments kept and never fail; a random number lies within the bounds asked for and every number within can come; a random choice is a member of the list (none for an empty list); settings are those given; and it is told truly where it runs. On the server, using any service (timers, sockets, cookies, routing, direct access, output) during rendering never breaks the page: what needs a browser has no effect there and reads as absent.",
  ["inputs", "histories", "configurations"],
  "every time, zone, clock change, pair of bounds, list and settings, and every use of the services while a page is made",
  "No test asks for the time, a zone or a random number outside stubs, and nothing renders a page on a server.",
  [V+"driver_module/driver.rs", V+"driver_module/api/api_import.rs", V+"instant.rs", V+"driver_module/src_js/api_browser.ts", C+"serve/wasm/decode_commands.rs", C+"serve/wasm/wasm_instance.rs", C+"serve/wasm/js_value_match.rs", C+"serve/wasm/get_now.rs"],
  [("services of the program", V+"driver_module/api/api_import.rs"), ("services on the server", C+"serve/wasm/wasm_instance.rs")],
  ["answers the program logs or shows; the page answered by the server"])

p("P35", "A served page comes alive in the browser without a visible change",
  "For a program that describes the same page on both sides: the page answered by the server names a script and a module which the server delivers; a browser that opens the page at that address starts the program once, gives it the same route and settings, and, when the same data has arrived, shows exactly what the server had sent, without any change of the page in between while cached remote values are outstanding; from then on changes show and the settings stay readable.",
  ["inputs", "schedules", "configurations"],
  "every page, address, set of settings, mount point and upstream data, and every order in which answers arrive",
  "No test runs the server and the browser runtime together.",
  [C+"serve/html/html_response.rs", C+"serve/server_state.rs", C+"serve/html/html_element.rs", C+"serve/mount_path.rs", C+"serve/wasm/wasm_instance.rs", V+"driver_module/src_js/index.ts", V+"driver_module/src_js/api_browser/dom/dom.ts", V+"driver_module/src_js/api_browser/historyLocation.ts", V+"driver_module/api/api_import.rs"],
  [("the page sent by the server", C+"serve/html/html_response.rs"), ("start in the browser", V+"driver_module/src_js/index.ts"), ("take-over of the page", V+"driver_module/src_js/api_browser/dom/dom.ts")],
  ["the answered page as a browser reads it, and the document after the program has started"])

p("P36", "What a program does again and again leaves nothing behind",
  "Once a program has given back the handles of what it did (timers, tasks, requests, cached remote values, routers, sockets, cookies, direct access to JavaScript, nodes, reactive values and subscriptions) and everything outstanding has been answered, nothing of it is left: nothing that was captured is kept, and no timer, socket or listener remains. However often the same is repeated, neither the memory of the program, nor any table of the runtime, nor the listeners of window and document grow.",
  ["histories", "schedules"],
  "every combination and order of the services, with answers, failures, messages and time in between, repeated any number of times",
  "Tests run each service once and end; what is left behind shows only after repetition, in the program together with the browser runtime.",
  [V+"driver_module/api/callbacks.rs", V+"driver_module/api/api_import.rs", V+"driver_module/utils/futures_spawn.rs", V+"driver_module/driver.rs", V+"computed/value.rs", V+"computed/dependencies/graph_connections.rs", V+"computed/dependencies/graph_one_to_many.rs", V+"computed/drop_resource.rs", V+"driver_module/api/arguments.rs", J+"api_browser.ts", J+"api_browser/historyLocation.ts", J+"api_browser/websocket/websocket.ts", J+"api_browser/interval.ts"],
  [("registered callbacks of the program", V+"driver_module/api/callbacks.rs"), ("tasks", V+"driver_module/utils/futures_spawn.rs"), ("edges of the reactive graph", V+"computed/dependencies/graph_connections.rs")],
  ["captured tokens, allocator of the program, tables reachable from the runtime's interface, browser timers, sockets and listeners"])

p("P37", "The inspector shows what the browser shows",
  "While the log of document commands is on, a fragment made from the commands so far - and its text form, which tests compare - shows the same document as the browser does after the same commands: every mounted node once, in the same place and order, with the same texts, comments and attributes (the styles instead of a generated class, those of the current class only), the events it listens to, and nothing that was removed, changed or replaced meanwhile. Turning the log on or off changes nothing in the page.",
  ["inputs", "histories"],
  "every page, every history of changes, moves and removals, and every moment of asking",
  "Tests inspect a few freshly built nodes; none changes, moves or removes anything before asking.",
  [V+"inspect.rs", V+"driver_module/dom.rs", V+"driver_module/dom_command.rs"],
  [("replay of the commands", V+"inspect.rs"), ("recording of the commands", V+"driver_module/dom.rs")],
  ["fragment and its text, and the document of the browser"])

p("P38", "Safe programs never misuse memory",
  "A program written in safe Rust against the public interface never reads or writes memory that was released, never sees half-dropped or otherwise broken data, and never releases a block twice or as one of another size or alignment - whatever the functions it gives to the framework (derivations, subscribers, connection routines, hooks, renderers, event handlers, timers, tasks and their wakers, and the drop code of its data) do with values, lists, subscriptions, caches, nodes and tasks while the framework is calling them, including dropping what is being used at that moment; apart from writes that are refused while values are refreshed, such functions do not bring it down either.",
  ["inputs", "histories", "schedules"],
  "every program, every nesting of calls, every moment of dropping something",
  "The cells the framework is built on hand out references without any check, so one re-entrant call is enough; tests never drop or change anything from inside of a function the framework is calling, and broken memory rarely shows in a result.",
  [V+"computed/struct_mut/inner_value.rs", V+"computed/struct_mut/value_mut.rs", V+"driver_module/js_value/memory_block.rs", V+"driver_module/utils/futures_spawn.rs", V+"driver_module/api/arguments.rs", V+"driver_module/api/callbacks.rs", V+"computed/graph_value.rs", V+"lib.rs"],
  [("unchecked cells", V+"computed/struct_mut/inner_value.rs"), ("wakers of tasks", V+"driver_module/utils/futures_spawn.rs"), ("blocks passed to and from JavaScript", V+"driver_module/js_value/memory_block.rs")],
  ["data seen by the program's functions, and the state of its memory"])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        for fn in x['anchors']['files']:
            assert os.path.exists('/repo/' + fn), fn
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
