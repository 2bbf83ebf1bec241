"""Writes properties.jsonl (kept as a script so the entries stay readable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": observe, "hook_needed": hook}})
L="src/reactpy/core/layout.py"; H="src/reactpy/core/hooks.py"; LC="src/reactpy/core/_life_cycle_hook.py"
V="src/reactpy/core/vdom.py"; E="src/reactpy/core/events.py"; S="src/reactpy/core/serve.py"
MW="src/reactpy/executors/asgi/middleware.py"; SA="src/reactpy/executors/asgi/standalone.py"
CL="src/js/packages/@reactpy/client/src/"

prop("C01","The client view converges to the view of the current state",
 "Applying the updates of a session strictly in the order they are handed out, starting from nothing, always addresses a place that exists in the client's view. Whenever no more updates are pending, the resulting view equals what rendering every mounted component once with its current state, props and context would produce.",
 ["programs","schedules","histories"],"Every component tree, every interleaving of state changes (including several in one step and changes made while a render or a slow send is in progress), in concurrent and in serial rendering mode.",
 "Tests look at one or two updates of fixed trees and consume each update immediately; none has overlapping ancestor/descendant renders together with a slow consumer.",
 [L,S],[("render scheduling and consumption",L+" Layout.render/_parallel_render/_serial_render"),("partial update splicing",L+" Layout._create_layout_update")],
 ["messages returned by Layout.render and passed to serve_layout's send"],[("patch path","where in the client's view an update goes",L+" _ModelState.patch_path")])
prop("C02","No state change is lost, duplicated or reordered",
 "Every state update made through a mounted component's setter takes effect exactly once and in call order (functional updates compose), and is followed by a render of that component that sees it. Setting a value equal to the current one causes no render, and a burst of updates never costs more renders than updates.",
 ["histories","schedules","programs"],"Every sequence of setter, updater and reducer calls from handlers, effects, background tasks and (in serial mode) other threads, at every point relative to running renders.",
 "Tests call one setter and wait; they never set state while the same component, its parent or its child is mid-render, nor with a full queue.",
 [H,LC,L],[("state cell dispatch",H+" _CurrentState"),("render de-duplication flag",LC+" LifeCycleHook.schedule_render/affect_component_will_render"),("thread safe render queue",L+" _ThreadSafeQueue")],
 ["values seen by component render functions","messages from Layout.render"])
prop("C03","Component state follows identity: same place, key and type",
 "A component instance keeps its state, refs and setters across re-renders exactly as long as a component of the same type stays at the same key (or the same index when unkeyed) under the same parents. When its type or key changes, or any ancestor goes away, it is replaced by a fresh instance with initial state; no two live instances ever share state.",
 ["histories","programs"],"Every sequence of insertions, removals, reorderings and type changes (component, element, text, nothing) of keyed and unkeyed children at any depth.",
 "Tests exercise single transitions; reconciliation bugs need several structural changes in a row, with nested keyed components.",
 [L],[("child matching by key",L+" _render_model_children/_get_children_info"),("state copy or replacement",L+" _render_component/_render_model")],
 ["hook identity observed inside component bodies"],[("children by key","which old child state a new child continues",L+" _ModelState.children_by_key")])
prop("C04","Effects run and clean up exactly once, in order, only when due",
 "After a component's render has been laid out, each of its effects runs once if it is new or its dependencies changed and not otherwise, in the order of their hooks; the previous run's clean-up is called exactly once before the next run, or at unmount. After unmount or end of session every started effect has been cleaned up and none runs again.",
 ["histories","schedules","programs"],"Every history of renders, dependency changes, conditional mounting and session ends, including effects that set state and effects that raise.",
 "Tests follow one component through one or two dependency changes; they do not count runs and clean-ups over long histories with nested unmounts.",
 [H,LC,L],[("effect scheduling by dependencies",H+" use_effect"),("effect start and stop",LC+" affect_layout_did_render/affect_component_will_unmount"),("unmount walk",L+" _unmount_model_states")],
 ["calls of effect functions and clean-up functions"])
prop("C05","Async effects: exclusive, cancelled or shielded, cleaned up once",
 "For one use of an async effect at most one run is in progress at any time; a superseded or unmounted run is cancelled, or runs to completion when shielded. Every clean-up that a completed run returned is called exactly once, before the next run starts or at unmount, and the latest run always gets started.",
 ["schedules","histories"],"Every timing of dependency changes and unmounts relative to the effect's own awaits (before, during, just finished), shielded or not, with runs that ignore cancellation for a while.",
 "Tests use one fixed sleep per scenario and at most two runs; the hand-over between three overlapping runs is never exercised.",
 [H,LC],[("hand-over between runs",H+" use_async_effect"),("stop events",LC)],["start, end, cancellation and clean-up of each run"])
prop("C06","Events reach their handler exactly once, in order, independently",
 "Each event delivered for a target that has a handler runs that handler, as of the time it is taken up, exactly once with that event's data; events of one target are handled strictly in arrival order, one at a time. A handler that fails, is slow, or has no counterpart never drops, delays beyond the documented grace or reorders events of other targets or later events of its own.",
 ["schedules","histories","fault_sequences"],"Every interleaving of events over several targets, with slow and failing handlers, bounded queues, and re-renders replacing handlers between events.",
 "Tests deliver a handful of events to one handler and never combine failing, slow and removed handlers.",
 [L,S,E],[("per-target queue and worker",L+" Layout.deliver/_process_event_queue"),("incoming loop",S+" _single_incoming_loop")],["handler invocations"],[("event queue per target","pending events in order",L+" Layout._event_queues")])
prop("C07","Every target the client holds leads to that element's latest handler",
 "In the client's view every event target is unique, and delivering an event to it invokes the handler which the latest render gave to that very element and event, or a handler registered under an explicit target. A handler whose element or event is no longer in the view is never invoked.",
 ["histories","programs"],"Every sequence of renders that adds, removes, replaces or moves elements and handlers, with arbitrary keys, in element, fragment and component positions.",
 "Tests check a few fixed transitions; target identity depends on the combination of keys, indices and nesting over a history.",
 [L],[("target derivation",L+" _render_model_attributes"),("handler removal",L+" _unmount_model_states")],["eventHandlers in update messages","handler invocations"],[("event handlers","live target to handler map",L+" Layout._event_handlers")])
prop("C08","Input acknowledgements never run ahead of the server",
 "The acknowledgement attached to an input, select or textarea (one with attributes) is the highest sequence number among the events of that element's handlers that the server had taken up when it rendered it, held below the lowest of those that then still waited for a busy handler of the element, and is absent if there is none; only an element replacing another under the same target in one update may inherit it. It never decreases over the element's life. Other elements and user supplied attributes are left alone.",
 ["histories","inputs","schedules"],"Every sequence of typed events with sequence numbers (duplicated, out of order, missing, not a number), re-renders, removals and re-additions of inputs.",
 "Tests check that a single event number is echoed; they cannot cover monotonicity over histories or inputs that come and go.",
 [L],[("sequence recording and injection",L+" _process_event_queue/_inject_event_ack_seq")],["attributes of inputs in update messages"])
prop("C09","Render errors stay local, are reported, and heal",
 "If a component fails while rendering, only its own subtree is replaced by an error node (carrying the message only in debug mode); everything else stays live and updates go on. Once the cause is gone, its next render shows the right view again, and what had been mounted below it when it failed is unmounted with its effects cleaned up.",
 ["fault_sequences","histories","programs"],"Every placement and repetition of exceptions in component bodies, at any depth, during first render or later, from any hook position, and invalid children such as duplicated keys.",
 "Tests raise once in one component and look at one message; they do not go on using the session or look at what the failed subtree had mounted.",
 [L,LC],[("error boundary",L+" _render_component"),("hook state commit",LC+" use_state/affect_component_did_render")],["update messages","effect clean-ups","later renders"])
prop("C10","Context reads give the nearest provider's current value",
 "Reading a context yields the value of the closest enclosing provider of that context in the view as rendered, or the default if there is none. This holds in every render, also of components that re-render on their own after providers were added, removed, nested, moved or given new values.",
 ["programs","histories"],"Every nesting of providers and consumers and every history of changes to them.",
 "Tests check a few static nestings; stale provider bookkeeping only shows when providers come and go above a surviving consumer.",
 [H,LC,"src/reactpy/types.py"],[("provider propagation",LC+" set_current/set_context_provider"),("context read",H+" use_context")],["values returned by use_context"])
prop("C11","Memo, callback, ref and reducer semantics",
 "A memoized value or callback is recomputed exactly when it has never been computed successfully, has no dependency list, or some dependency differs from that of the last successful computation (in type or by ==, by identity where == cannot tell, and by code for inline functions; nothing differs from itself); otherwise the stored value is returned. Refs and dispatch functions keep their identity for the life of the instance, and a reducer's state is the fold of its actions.",
 ["histories","inputs"],"Every sequence of renders with arbitrary dependency lists (values, lengths, types) and computations that may raise.",
 "Tests use two or three fixed dependency lists; equality over mixed types and raising computations are not covered.",
 [H],[("dependency comparison",H+" use_memo/strictly_equal"),("stable cells",H+" use_ref/use_reducer")],["values and call counts inside component bodies"])
prop("C12","Concurrent sessions never see each other's state",
 "Any number of sessions, interleaved on one event loop or running in different threads, behave as if each ran alone: hooks, contexts, connection data, handlers, events and updates of one session never reach another. This includes sessions that share component objects, modules or context types.",
 ["schedules","histories"],"Every interleaving of mounts, renders, events and failures of several sessions.",
 "Tests run one session at a time; leakage through task- or thread-bound hook state needs interleaving.",
 [LC,L,S,MW,"src/reactpy/core/_thread_local.py"],[("per-task hook stack",LC+" _HookStack"),("layout per connection",MW)],["session unique tokens in views, handlers, contexts"])
prop("C13","Sessions release everything and long sessions do not grow",
 "Once a component is unmounted or a session ended (normally, by error or by cancellation), its component instances, handlers and effects are unreachable from the framework, all its tasks are finished and its clean-ups have run. The memory a live session retains is bounded by its current view and does not grow with the number of renders, events or mounts it has processed.",
 ["histories","fault_sequences","crash_points"],"Every history of mounts, renders, events and every moment at which a session can end.",
 "Tests check collection of one component after one unmount; growth over thousands of steps and ends at arbitrary moments are out of reach.",
 [L,LC,S],[("session exit",L+" Layout.__aexit__"),("unmount",L+" _unmount_model_states")],["weak references, live tasks, object counts"])
prop("C14","Updates are valid, self-contained and immutable messages",
 "Every update handed to the transport conforms to the published VDOM JSON schema, serializes to JSON when the attributes do, and describes exactly the rendered content (text, attributes, inline scripts, import sources, children in order, nothing omitted). Once handed out an update is never changed by later renders.",
 ["programs","inputs","histories"],"Every renderable value: nested elements, fragments, None, numbers, booleans, import sources, inline JavaScript, custom attributes, component results.",
 "Tests compare specific messages immediately on receipt and never keep them while later renders run.",
 [L,V,"src/reactpy/types.py"],[("model serialization",L+" _render_model/_render_model_children"),("schema",V+" VDOM_JSON_SCHEMA")],["messages from Layout.render"])
prop("C15","VDOM construction keeps content and sorts attributes correctly",
 "Building an element from any mix of attributes and nested iterables of children keeps every child, flattened in order, and assigns every attribute to exactly one of attributes, event handlers and inline scripts by its documented rule. The inputs are not modified, and constructors that do not allow children reject them.",
 ["inputs","programs"],"Every nesting of lists, tuples, generators, mappings, strings and components; every kind of attribute value.",
 "Tests enumerate a few shapes.",
 [V,"src/reactpy/_html.py"],[("flattening and separation",V+" separate_*"),("special constructors","src/reactpy/_html.py")],["result of html.* calls"])
prop("C16","HTML conversion is safe and faithful in both directions",
 "Converting a view to an HTML string yields markup that an HTML parser reads back as the same elements, attributes and text (those of SVG images among them, under their names in SVG), so no text or attribute value can change the structure of the page. Converting an HTML string to a view preserves every element, attribute and text of the source as parsed, with the case of SVG names, and form controls keep their selected and initial values.",
 ["inputs","programs"],"Every tree, tag, text and attribute value, including quotes, markup characters, control characters, non-ASCII text, style and boolean attributes.",
 "Tests compare a dozen fixed strings.",
 ["src/reactpy/utils.py","src/reactpy/transforms.py"],[("string conversion","src/reactpy/utils.py reactpy_to_string/string_to_reactpy"),("transforms","src/reactpy/transforms.py RequiredTransforms")],["returned strings and VDOM"])
prop("C17","HTTP requests are routed, answered and cached correctly",
 "Requests under the framework's path prefix for component sockets, static files and web modules are answered by the framework and everything else reaches the user's application unchanged (or, standalone, the index page or a user route). The index response carries a Content-Length equal to the bytes sent, an ETag that changes exactly when the page does, a date as HTTP writes them, and a 304 exactly when the client's copy is current. Settings that cannot work, and template tag arguments that are not known, are refused at once.",
 ["inputs","configurations"],"Every method, path (encoded, traversal, prefix look-alikes), header set, page language/head, and path prefix configuration.",
 "Tests request a few well-formed URLs with the default prefix and an ASCII page.",
 [MW,SA,"src/reactpy/executors/asgi/pyscript.py","src/reactpy/executors/utils.py"],[("dispatch",MW+" ReactPyMiddleware.__call__"),("index caching",SA+" ReactPyApp")],["ASGI messages sent"])
prop("C18","A websocket session serves exactly one registered component and always ends",
 "A socket opened for a registered component mounts exactly that component once with that connection's scope and location, relays updates and events in order, and is torn down with all effects cleaned up whenever the peer disconnects, a send fails or the server cancels it. A socket for anything that is not a registered component never runs it, and malformed client messages do not affect other sessions or stop this one from being torn down.",
 ["schedules","crash_points","fault_sequences","inputs"],"Every order of connect, messages, disconnect at every point, failing sends, malformed frames; several sockets at once.",
 "Tests connect one well-behaved client; they do not disconnect at every point of the protocol.",
 [MW,S,"src/reactpy/executors/utils.py"],[("websocket bridge",MW+" ReactPyWebsocket"),("component registry",MW)],["ASGI messages, effect clean-ups, live tasks"])
prop("C19","Served files never come from outside the published directories",
 "No request, however its path is spelled, yields bytes of a file outside the static directory and the web module directory (links made by registering a module with symlink=True count as inside), and every file inside is served byte for byte with its content type. No module or component name makes the framework read or write outside the directory it owns.",
 ["inputs","configurations"],"Every path spelling (dot segments, encoded, double slashes, absolute, NUL, symlinks) and every module name.",
 "Tests fetch files that exist.",
 [MW,"src/reactpy/reactjs/module.py","src/reactpy/reactjs/utils.py"],[("static mounting",MW+" StaticFileApp/WebModuleApp"),("module file naming","src/reactpy/reactjs/module.py")],["ASGI response bodies, file system"])
prop("C20","Configuration options always report the value in force",
 "At any time an option reads as the value last set on it (or handed to it by its parent when the parent last changed), else its environment variable, else its parent's value at creation or its default (a child's default is its parent's), always validated; subscribers see every change exactly once and immutable options never change. Rejected values leave the option as it was.",
 ["histories","inputs","configurations"],"Every sequence of set, unset, reload, default and parent changes and subscriptions; every environment.",
 "Tests perform each operation once on a fresh option.",
 ["src/reactpy/_option.py","src/reactpy/config.py"],[("option value lookup","src/reactpy/_option.py Option")],["Option.current and subscriber calls"])
prop("C21","Web modules: what is served is what was registered",
 "Registering a JavaScript module from a URL, file or string and importing names from it gives constructors bound to exactly that source, those names, fallback and options; repeated, differing or concurrent registrations never mix them up, and a module name always serves the content it was last registered with. A module file is never visible half written, and a failed registration leaves a later one working.",
 ["inputs","schedules","fault_sequences","histories"],"Every sequence and interleaving (threads and processes) of registrations with the same or different names, contents and options.",
 "Tests register each module once in a clean directory.",
 ["src/reactpy/reactjs/__init__.py","src/reactpy/reactjs/module.py","src/reactpy/reactjs/utils.py"],[("registration","src/reactpy/reactjs/module.py"),("constructor cache","src/reactpy/reactjs/__init__.py"),("file lock","src/reactpy/reactjs/utils.py")],["constructors' import sources, file contents"])
prop("C22","Resolved exports are exactly the module's exports",
 "The export names found in a JavaScript module are exactly those an ES module parser finds in it, following re-exports relative to the module that contains them up to the stated depth. Names in comments, strings or other statements are not reported. (For destructuring exports the property names count, as the tests pin.)",
 ["inputs","programs"],"Every module text in the supported export syntax with arbitrary formatting, and every re-export graph.",
 "Tests use one sample file.",
 ["src/reactpy/reactjs/utils.py"],[("export scanning","src/reactpy/reactjs/utils.py resolve_names_from_*")],["returned name sets"])
prop("C23","Handler options found by inspection agree with the handler's code",
 "An event handler prevents default or stops propagation exactly if it was declared to or its function's own body (nested functions aside) calls that operation on its event argument, and debounces by the value declared or, if certain from the code (a number, a default or an enclosing variable holding one), the value it assigns; inspection never changes what the handler does nor fails for any callable. Merging handlers runs all of them once per event with the same data, even if one fails, and keeps their common options.",
 ["programs","inputs"],"Every callable kind (function, coroutine, lambda, method, partial, decorated, callable object, builtin) and body shape.",
 "Tests use a few literal functions.",
 ["src/reactpy/core/_event_inspect.py",E],[("bytecode inspection","src/reactpy/core/_event_inspect.py"),("wrapping and merging",E)],["EventHandler attributes and calls"])
prop("C24","Source rewriting tools change only what they must",
 "The key and prop rewriting commands leave every file that needs no change byte-identical; a file they change still parses, keeps all code and comments outside the rewritten calls, and denotes the same program apart from the documented rewrite. Running them twice equals running them once. (A plain name is taken for an element constructor only if it is a standard tag or vdom.)",
 ["inputs","programs"],"Every syntactically valid Python source, including non-ASCII text, multi-line calls, nested calls and comments.",
 "Tests rewrite a dozen snippets.",
 ["src/reactpy/_console/ast_utils.py","src/reactpy/_console/rewrite_props.py","src/reactpy/_console/rewrite_keys.py"],[("rewriting","src/reactpy/_console/ast_utils.py rewrite_changed_nodes")],["file contents before and after"])
prop("C25","PyScript: the browser receives the same program and config",
 "The Python source embedded for client-side rendering behaves as the source files given (comments and layout aside), is embedded so that it cannot break out of its element, and mounts the requested root with the requested id. The configuration sent is valid JSON combining defaults and user settings without losing either.",
 ["programs","inputs","configurations"],"Every component source text and every option value.",
 "Tests check a fixed component.",
 ["src/reactpy/executors/pyscript/utils.py","src/reactpy/executors/pyscript/component_template.py","src/reactpy/executors/pyscript/components.py"],[("source assembly","src/reactpy/executors/pyscript/utils.py")],["generated source and markup"])
prop("C26","The in-browser Python executor keeps the same view as the server would",
 "Whenever nothing is pending, what a page shows for each of its Python-in-the-browser components is the view of that component's current state: elements (those of SVG images and MathML formulas in their namespaces), text and attributes in order, where an attribute that is None or False is not set (aria and data attributes, contentEditable, draggable and spellCheck apart). An event on an element reaches exactly the handlers that the latest view declares for it and for its ancestors, once each, honouring preventDefault and stopPropagation. A change of attributes replaces no element, and a component that has been removed from the page is unmounted by the time another one is mounted.",
 ["histories","programs"],"Every sequence of updates produced by sessions, and of events.",
 "It only runs inside a browser; no test can run here.",
 ["src/reactpy/executors/pyscript/layout_handler.py"],[("update application","src/reactpy/executors/pyscript/layout_handler.py")],["DOM built by the handler over a stand-in js module"])
prop("C27","The JavaScript client applies updates faithfully",
 "After applying any sequence of updates in order, the model the JavaScript client renders equals the server's view, with nothing left over from replaced content, and every rendered element carries its attributes, text and children in order; scripts run once per content, inline JavaScript runs as written with the element as this. Components imported from modules are created from the module the model names, show their fallback until it is loaded, are bound once per source, get every model, and are unmounted when replaced (before each update if asked). Triggering an element's handler sends one event with that element's current target and serialized data, honouring preventDefault and stopPropagation.",
 ["histories","inputs"],"Every sequence of update messages the server can produce (replacement of root, nested paths, errors and recovery) and events.",
 "The JavaScript has no tests that run; browser tests cannot run here.",
 [CL+"components.tsx",CL+"vdom.tsx"],[("update application",CL+"components.tsx Layout"),("attribute and handler creation",CL+"vdom.tsx")],["rendered output under a stand-in preact","messages sent"])
prop("C28","The JavaScript client reconnects within its limits and loses no message",
 "After a lost connection the client retries with delays that grow by the configured factor up to the configured maximum and number of tries, starts over after a success, and never has two live sockets; each connection asks for the page's current location. Messages sent while disconnected are delivered once, in order, after the connection opens, and every received message reaches the handlers registered for its type.",
 ["fault_sequences","configurations","schedules"],"Every pattern of connection failures, every configuration including extreme values, messages at any time.",
 "There are no JavaScript tests of timing or faults.",
 [CL+"websocket.ts",CL+"client.ts",CL+"mount.tsx"],[("reconnecting socket",CL+"websocket.ts"),("message queue",CL+"client.ts")],["sockets opened, timers, frames sent under a fake clock"])
prop("C29","Typing is never undone by a stale server value",
 "While the user types, the value shown by an input, select or text area whose value has a handler is never replaced by a server value rendered before the server took up the user's latest edit, and once an update rendered after that arrives its value is shown (numbers too). Events carry what the element was like when they happened and reach the server in order; throttle and debounce hold across renders and delay but never lose the final event; prevent_default acts at once. After a reconnect the new session's value is not shown until it has received an event of that element.",
 ["schedules","histories"],"Every interleaving of keystrokes, server updates with any delay, throttle and debounce settings.",
 "There are no JavaScript tests that interleave typing with delayed updates.",
 [CL+"components.tsx",CL+"vdom.tsx"],[("input reconciliation",CL+"components.tsx UserInputElement"),("throttling",CL+"vdom.tsx")],["value displayed, events sent, under a fake clock"])
prop("C30","Browser events are serialized safely",
 "Serializing any event or object for the server terminates, yields plain JSON data without cycles, functions or DOM objects, bounded by the configured depth, and keeps every plain field and the target's form data. It never throws, whatever getters do (enumerating fields must not throw; names reserved by design are left out).",
 ["inputs"],"Every object graph: cycles, getters that throw, deep nesting, collections, typed values, form controls.",
 "There are no tests of it that run here.",
 ["src/js/packages/event-to-object/src/index.ts"],[("conversion","src/js/packages/event-to-object/src/index.ts")],["returned values"])
prop("C31","PyScript: the wheel the browser is sent is the running package",
 "A page that runs Python in the browser names a ReactPy wheel of the running version that this server serves: made from an installed package it holds every file that package's metadata lists and that exists within it, once and unchanged, nothing from outside, and a correct RECORD; a wheel that came with the package is served as is. In a source checkout it holds the sources as they were when the page was first asked for, or later; if that cannot be built there is an error, not an old wheel. Servers starting side by side, killed or out of disk at any point never make an incomplete wheel visible nor fail a later page.",
 ["schedules","fault_sequences","crash_points","histories","configurations"],"Every file list and metadata, every number of processes, every crash or write failure, every sequence of edits (with newer modification times), upgrades and builds.",
 "Tests call the helpers once in one process, with stubbed builds.",
 ["src/reactpy/executors/pyscript/utils.py"],[("wheel lookup, reconstruction and build","src/reactpy/executors/pyscript/utils.py")],["the page, the bytes served, and the wheel files seen by a watcher"])
prop("C32","A served page starts the components it names",
 "A page made by the standalone application or by the template tags, at whatever address of the server it is opened, starts each component it names once, in an element of its own, over a connection that the same application accepts; that component's view is shown there, its events come back to it, and it sees the page's path and query. Every script, module and import map entry that the page and its components name is served by this server under the configured prefix (unless another import map was asked for). The client follows the reconnect settings configured on the server.",
 ["inputs","configurations","histories"],"Every path prefix (ASCII, valid in URLs), page address, set of components, import map and reconnect setting.",
 "The tests that span server and browser cannot run here, and use one prefix and one address.",
 ["src/reactpy/executors/utils.py","src/reactpy/templatetags/jinja.py","src/reactpy/executors/asgi/standalone.py",MW,CL+"mount.tsx"],[("mounting script and import map","src/reactpy/executors/utils.py"),("template tags","src/reactpy/templatetags/jinja.py"),("client start",CL+"mount.tsx")],["the page run in the client over a stand-in document, bridged to the ASGI application"])
prop("C33","Linked inputs share one value; images carry their content",
 "Whenever nothing is pending all inputs linked together show the value last entered in any of them (the initial value before), whatever their callback and cast do, keep their other attributes, and the callback has been called once for each edit in order with the cast value (for empty values only if asked). Failing callbacks and casts affect neither the shared value nor later edits. An image's address decodes to exactly the content and type given, and no argument is modified.",
 ["histories","inputs"],"Every sequence of edits and re-renders, number of inputs, callback and cast; every content.",
 "A test types into two inputs once.",
 ["src/reactpy/widgets.py"],[("shared value","src/reactpy/widgets.py use_linked_inputs")],["views at quiet moments, calls of the callback"])
prop("C34","The testing helpers report what really happened",
 "capture_reactpy_logs gives exactly the records (of every ReactPy logger and level, in order) that were logged in its block and in no nested one, and leaves the logger as it was; assert_reactpy_did_log and assert_reactpy_did_not_log fail exactly if no, respectively some, record of their own block matches message, error type and error text, and never hide or replace an exception raised in their block; list_logged_exceptions returns every matching exception once, in order, and removes exactly those records. poll calls its function (synchronous or not) with the given arguments until the condition holds, no further, and otherwise raises TimeoutError no earlier than the timeout. HookCatcher knows the hook of the latest render, of any component and of each; StaticEventHandler keeps its own target over all renders and calls the latest function. A BackendFixture serves when entered and again when restarted, shows the component mounted last, no longer serves when left, and then reports exceptions that were logged and not taken off its records.",
 ["inputs","histories"],"Every nesting of blocks, record, pattern and exception; every kind of function and sequence of its results; every history of renders.",
 "A few tests use one block and one record at a time.",
 ["src/reactpy/testing/"],[("logs","src/reactpy/testing/logs.py"),("poll, HookCatcher, StaticEventHandler","src/reactpy/testing/common.py"),("server","src/reactpy/testing/backend.py")],["records shown by each block, exceptions coming out, calls of polled functions, hooks and events, answers on the loopback"])
prop("C35","Debug mode tells more and changes nothing else",
 "Whatever the settings of debug mode and its checks, also when they change during a session, an application gives its clients the same view, an element has the same content, and nothing valid is rejected, logged as an error or warned about. Only while checks are on are elements with attributes that cannot be serialized rejected, and all of those; only in debug mode are clients told what an error was, debug messages logged, and children in lists without a key warned about, each once and at the line of the user's code. use_debug_value computes its value exactly when its dependencies changed and logs it, with its component, exactly when it differs from the one last logged.",
 ["programs","inputs","histories"],"Every application, history of settings, attribute value, nesting of lists and sequence of debug values.",
 "The whole test suite runs in debug mode; what production runs is compared with nothing.",
 ["src/reactpy/config.py","src/reactpy/logging.py","src/reactpy/_warnings.py",V,H,L],[("checks of elements",V+" Vdom.__call__, _validate_child_key_integrity"),("debug values",H+" use_debug_value"),("place of warnings","src/reactpy/_warnings.py"),("errors told to clients",L+" _render_component")],["client views, log records, warnings, rejected elements"])
prop("C36","What is busy or stuck holds nothing else up",
 "Components that render without end, effects that loop or never finish, event handlers and clean-ups that wait, and clients that stop reading hold up nothing but themselves: within a bounded number of turns of the event loop every other component, also above, below and beside them, in the same session or another, shows the state it was set to, starts its effects, has its events handled and changes its place, whatever the size of the queues. Only renders of the components above a component whose removal waits for its effects wait for it (without concurrent rendering, all renders of its session). What had to wait happens once it can, and a session ends whatever it is doing.",
 ["schedules","histories","programs"],"Every set of busy, slow and stuck parts, every order of sets, events and changes of place beside them, every size of queue.",
 "Tests wait for one thing at a time; being put off forever shows only beside something that never stops.",
 [L,"src/reactpy/core/serve.py","src/reactpy/core/_life_cycle_hook.py",H],[("turns of renders",L+" _render_when_free"),("queue of renders",L+" _ThreadSafeQueue"),("events per target",L+" deliver, _process_event_queue"),("effects",H+" use_async_effect")],["client views, handled events, started effects per turn of the event loop"])
out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(p)+"\n" for p in P))
print(len(P))
