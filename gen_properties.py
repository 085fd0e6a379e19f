#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so the long texts stay readable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                  "observe_at": list(observe), "hook_needed": hook}})
R="src/rtmessage/"; B="src/rbus/"; C="src/core/"
p("C01","Message header survives the wire",
  "Encoding a message header whose topics fit the protocol limit and decoding the resulting bytes gives back every field unchanged (flags, sequence number, route id, payload length, both topics, timestamps), and the header-length field equals the number of bytes written. Whatever bytes arrive, decoding never yields a topic that is longer than the limit or is not a terminated string: such a header is rejected.",
  ["inputs"],"every header with topics within the limit; every byte string a peer can send in place of a header",
  "Tests send a handful of well-formed messages through a socket; neither all field values nor hostile bytes are reachable by sampling.",
  [R+"rtMessageHeader.c",R+"rtEncoder.c"],[("rtMessageHeader_Encode/Decode",R+"rtMessageHeader.c"),("rtEncoder_*",R+"rtEncoder.c")])
p("C02","Router reassembles each client's byte stream safely",
  "However a client's byte stream is cut into reads, the router acts on exactly the messages the client sent, each once, in order, with exactly its header and payload (including an empty payload). No byte sequence a client sends makes the router write or read outside the connection's receive buffer; a header whose lengths are impossible is refused and the connection dropped.",
  ["inputs","schedules"],"every segmentation of the stream by the kernel, every header/payload length combination including hostile ones",
  "Loopback tests see one or two segmentations and only well-formed lengths; the guarantee is about all of them.",
  [R+"rtrouted.c"],[("per-client read state machine",R+"rtrouted.c: rtConnectedClient_Read")],[("bytes_read/bytes_to_read/read_buffer","progress of the current header or payload",R+"rtrouted.c")])
p("C03","Router forwards messages unaltered to the addressed subscriber",
  "A message the router forwards reaches the addressed client with the sender's sequence number, flags, topics and payload unchanged, tagged with that client's own route id. A request that nobody serves is answered to the requester with an undeliverable response that carries the request's sequence number, and a non-request with no receiver produces no reply.",
  ["inputs","configurations"],"every header field value, every payload length, every set of matching routes",
  "Integration tests check that some callback fired, not that every header field is carried over for every value.",
  [R+"rtrouted.c",R+"rtMessageHeader.c"],[("rtRouted_ForwardMessage / DispatchMessageFromClient / send error reply",R+"rtrouted.c")])
p("C04","Routing table matches exactly the live registrations",
  "A topic lookup yields exactly the routes that live clients have registered for that name or for a partial path or table pattern matching it, each once. Removing a client removes all of its routes and no other client's; registering a name already owned is refused and leaves the table unchanged; names of any length are handled without touching memory outside the table's work areas.",
  ["histories","inputs"],"every sequence of add, alias, remove and disconnect operations, every topic string",
  "Tests exercise a few fixed topic sets and orders; stale routes appear only after particular histories.",
  [R+"rtRoutingTree.c",R+"rtrouted.c"],[("rtRoutingTree_*",R+"rtRoutingTree.c")])
p("C05","A caller only ever receives the response to its own request",
  "A thread waiting for a response is completed only by a response that carries its own request's sequence number, at most once, and gets that response's bytes; responses that match no waiting request are discarded without affecting anyone. After success, failure or timeout the request is no longer pending, and an undeliverable response is reported as an unavailable destination.",
  ["schedules","histories"],"every interleaving of reader and requesting threads, every order of responses and timeouts",
  "Tests run one request at a time with a fast peer; crossing, late and duplicate responses are never produced.",
  [R+"rtConnection.c"],[("pending request list keyed by sequence number",R+"rtConnection.c: rtConnection_SendRequestInternal, rtConnection_Read")])
p("C06","Containers behave as the sequence or map they represent",
  "The vector, list and hash map used everywhere in the system behave as an abstract sequence or map: after any sequence of insertions, removals, lookups and overwrites, size, order, membership and lookup results are those of the abstract container. Every element that leaves the container through a removal with a destructor is destroyed exactly once and no other element is touched.",
  ["histories","inputs"],"every sequence of operations, every size and growth boundary, every key",
  "Unit tests use fixed short sequences; growth boundaries, head/tail removal orders and collisions are a small sample of histories.",
  [R+"rtVector.c",R+"rtList.c",R+"rtHashMap.c"],[("rtVector_*",R+"rtVector.c"),("rtList_*",R+"rtList.c"),("rtHashMap_*",R+"rtHashMap.c")])
p("C07","Shared objects are destroyed exactly once, by the last release",
  "A value, property, object, filter, message or received-message record is destroyed exactly when its last reference is released, exactly once, whatever the interleaving of retains and releases in different threads. Replacing a held reference by itself or by another reference never destroys an object that is still referenced and never leaks the replaced one.",
  ["schedules","histories"],"every interleaving of retain/release on the same object, every aliasing of old and new reference",
  "A racing double destroy needs two releases between two particular instructions; tests run single threaded.",
  [R+"rtRetainable.c",R+"rtMessage.c",B+"rbus_value.c",B+"rbus_property.c",B+"rbus_object.c",B+"rbus_filter.c",C+"rbuscore_message.c"],[("reference count decrement-and-test",R+"rtRetainable.c")],[("refCount","number of owners",R+"rtRetainable.h")])
p("C08","No semaphore token and no queued task is lost",
  "A successful wait on the semaphore consumes exactly one posted token and a timed wait that reports a timeout consumes none, whatever wake-ups occur. Every task accepted by the thread pool is executed exactly once as long as the pool lives, the pool never runs more threads than configured, and a task it refuses is not executed.",
  ["schedules"],"every interleaving of posters, waiters, workers, spurious wake-ups and timeouts",
  "The losing interleavings are a worker timing out just as a task is queued, or a spurious wake-up; a test cannot force them.",
  [R+"rtSemaphore.c",R+"rtThreadPool.c"],[("condition-variable wait loops under a mutex",R+"rtSemaphore.c, rtThreadPool.c")])
p("C09","Time arithmetic is exact",
  "Comparing, differencing and offsetting time stamps is exact at millisecond resolution: a later time compares greater, elapsed time equals the difference, adding a delay then measuring it returns the delay, and nanoseconds always stay below one second.",
  ["inputs"],"every pair of time stamps and every delay","Tests use the current clock, so carries and borrows at second boundaries are hit only by luck.",
  [R+"rtTime.c"],[("rtTime_*",R+"rtTime.c")])
p("C10","Text encoding of binary data is lossless",
  "Encoding a byte string as base64 text and decoding the text returns the same bytes and length, and the text is the standard encoding. Decoding text that is not valid base64 is refused and never reads or writes outside the given buffers.",
  ["inputs"],"every byte string within the supported size; every text offered for decoding","Tests round-trip a few strings; padding cases, all byte values and malformed text are not enumerated.",
  [R+"rtBase64.c",R+"rtMessage.c"],[("rtBase64_encode/decode",R+"rtBase64.c")])
p("C11","Bus messages return their fields in the order they were written",
  "Fields appended to a bus message (integers, doubles, strings, byte arrays, nested messages) are read back in the same order with the same content and the reader consumes exactly them; reading a field as a different kind fails and reports an error instead of returning other data. Routing metadata appended to a message is read back intact without disturbing the payload fields, and a malformed received message is rejected without reading outside it.",
  ["inputs","histories"],"every sequence of appended fields and values; every received byte string","Tests append a few fixed fields and never feed malformed bytes.",
  [C+"rbuscore_message.c"],[("rbusMessage_Set*/Get*, meta section",C+"rbuscore_message.c")])
p("C12","Requests reach the handler registered for that object and method",
  "A request for an object and method is served by exactly the handler registered under that exact object name and method name, and by the object's default handler otherwise; unknown objects or methods get the documented error. A name can be registered only once, unregistering removes exactly that registration, and over-long names are refused.",
  ["histories","inputs"],"every set of registrations and every order of register/unregister/request","Tests register one or two objects; similar names, prefixes and removal orders are not covered.",
  [C+"rbuscore.c"],[("server object list and method vector",C+"rbuscore.c")])
p("C13","A value holds exactly what was last stored in it",
  "After storing a value of any type, reading its type, its content and its raw length/bytes gives exactly what was stored, whatever the value held before; a typed read that does not match the stored type fails with a type error and leaves the output alone. Copying a value of a simple type (anything but a property list or an object) produces an independent equal value, and swapping exchanges two values.",
  ["inputs","histories"],"every type, every content, every previously held type","Tests cover chosen constants per type; transitions between all pairs of types and all contents are not sampled.",
  [B+"rbus_value.c",B+"rbus_buffer.c"],[("typed accessors",B+"rbus_value.c"),("growable buffer",B+"rbus_buffer.c")])
p("C14","Binary encoding of values is lossless and safe",
  "Encoding a sequence of values into a buffer and decoding the buffer returns the same types and contents in the same order and consumes exactly the bytes produced, at every buffer size. Decoding arbitrary or truncated bytes either fails or yields a value made only of bytes that were written to the buffer; it never reads past them, never crashes.",
  ["inputs"],"every type and content, every position relative to the buffer's allocation boundary, every malformed byte string","Tests encode a few values into a fresh buffer; allocation boundaries and malformed input are not reached.",
  [B+"rbus_value.c",B+"rbus_buffer.c"],[("rbusValue_Encode/Decode",B+"rbus_value.c"),("rbusBuffer_Write/Read/Reserve",B+"rbus_buffer.c")])
p("C15","Text is converted to a typed value only when it denotes one",
  "Setting an integer or boolean value from text succeeds exactly when the whole text denotes a number in the type's range (or a boolean literal), and then the value holds exactly that number with that type; otherwise it fails and leaves the value unchanged. Rendering a value as text writes only inside the given buffer (a string that does not fit is cut there) and the text of an integer or boolean reads back as the same value.",
  ["inputs"],"every text and every target type, including out-of-range, signed and trailing-garbage forms","Range boundaries per type, sign handling and overflow are many cases; tests sample some.",
  [B+"rbus_value.c"],[("rbusValue_SetFromString / ToString",B+"rbus_value.c")])
p("C16","Value comparison is a consistent order that sees every difference",
  "Comparing two values of simple types (anything but property lists and objects) returns zero exactly when they are equal, is antisymmetric (swapping the operands flips the sign), and orders integers numerically exactly across all integer types and widths. Strings and byte arrays are ordered lexicographically using only their own bytes; date-times that differ are not reported equal unless they denote the same instant.",
  ["inputs"],"every pair of values of every pair of types","Tests compare small constants; large integers, byte arrays of different length and date-times are not covered.",
  [B+"rbus_value.c",B+"rbus_property.c"],[("rbusValue_Compare",B+"rbus_value.c")])
p("C17","Property lists and objects keep exactly what was put in them",
  "A property list keeps appended and pushed properties in order with their names and values; an object holds at most one property per name, setting a name replaces its value and keeps the others, and looking a name up returns the value last set for it or nothing. Child objects attached to an object stay attached and are released with it.",
  ["histories","inputs"],"every sequence of append/push/set/lookup operations and every name","Tests use short fixed sequences; replacing first, middle and last entries or self-replacement are sampled thinly.",
  [B+"rbus_property.c",B+"rbus_object.c"],[("singly linked property list",B+"rbus_property.c"),("object property and child lists",B+"rbus_object.c")])
p("C18","Event filters mean what they say, also after transport",
  "A relation filter matches a value exactly when the stated comparison between the value and the filter's value holds, and AND, OR and NOT combine exactly as boolean operators. A filter encoded for transport or storage decodes to a filter that accepts the same values, and undecodable bytes are refused without producing a filter.",
  ["inputs"],"every filter tree, every value, every byte string offered as an encoded filter","Tests evaluate some filters with small integers and never transport nested or negated ones.",
  [B+"rbus_filter.c",B+"rbus.c"],[("rbusFilter_Apply/Encode/Decode",B+"rbus_filter.c")])
p("C19","Values, properties, objects and events cross the bus unchanged",
  "A value, a property list, an object tree, or an event with its filter that one process puts into a bus message is reconstructed by the receiving process with the same names, types, contents and structure. Fields that do not parse are reported as errors rather than turned into different data.",
  ["inputs"],"every value type and content, every list and tree shape within the message","Tests transport a few simple trees; each type/shape combination is a separate path.",
  [B+"rbus.c"],[("append/pop of values, properties, objects, filters, event data",B+"rbus.c")])
p("C20","Element registry answers exactly for the registered names",
  "After any sequence of registrations, row additions and unregistrations, looking up a full element name finds exactly the element registered under that name (also through a row's alias), and nothing for names not registered. Adding a row creates the table's declared elements under that row only, deleting a row removes exactly that row's subtree, and removing an element keeps every other registered element reachable.",
  ["histories","inputs"],"every sequence of register/unregister/add-row/delete-row, every name with instance numbers or aliases","Tests use fixed data models and orders; pruning and row cloning have history-dependent corner cases.",
  [B+"rbus_element.c"],[("element tree",B+"rbus_element.c")])
p("C21","Wildcard subscriptions match exactly the rows they denote",
  "A subscription name made of literal names, row numbers, row aliases and wildcards matches an element's full name if and only if each part matches: literals and row numbers exactly, aliases only the row that has that alias, wildcards any row.",
  ["inputs"],"every pattern and every element path, rows with and without alias","Tests use a few patterns on tables whose rows all have aliases or none.",
  [B+"rbus_tokenchain.c"],[("TokenChain_create/match",B+"rbus_tokenchain.c")])
p("C22","The subscription registry keeps exactly the live subscriptions",
  "A subscription is found again exactly by the name, subscriber, filter, interval, duration and raw-data mode it was made with, and a second identical one is refused. Removing a subscription, deleting a row, or a subscriber disconnecting removes exactly the subscriptions concerned, all of them, and no others.",
  ["histories","inputs"],"every history of subscribe, unsubscribe, row deletion and client disconnect, every combination of subscription options","Tests have one subscriber and default options; disconnects of subscribers with filters or intervals and deletions with several subscriptions are not explored.",
  [B+"rbus_subscriptions.c"],[("rbusSubscriptions_*",B+"rbus_subscriptions.c")])
p("C23","Cached subscriptions survive a provider restart intact",
  "The subscriptions a provider had when it stopped are exactly those restored when it starts again, with every attribute (name, subscriber, interval, duration, raw-data mode, auto-publish, filter) unchanged, whatever the size of the cache. A truncated or malformed cache is discarded, restoring none of the damaged part and without memory errors; subscriptions whose subscriber is gone are dropped.",
  ["crash_points","inputs"],"every list of subscriptions, every cache size, every corruption or truncation of the cache file","Tests restart with one subscription; sizes on allocation boundaries and damaged files do not occur.",
  [B+"rbus_subscriptions.c",B+"rbus_buffer.c",B+"rbus_filter.c"],[("rbusSubscriptions_saveCache/loadCache",B+"rbus_subscriptions.c")])
p("C24","A multi-parameter set is validated, applied and reported consistently",
  "In a set request each writable parameter's handler is called with exactly the name, type and value requested and the commit/session options requested, in order, until the first failure; a parameter that does not exist, has no setter or is refused makes the request fail and names that parameter. With rollback requested, every parameter already changed is given its former value back.",
  ["inputs","fault_sequences"],"every number of parameters, every position and kind of failure, every commit/rollback option","Tests fail at one chosen position; missing elements and elements without setters after successful ones are not tried.",
  [B+"rbus.c"],[("_set_callback_handler",B+"rbus.c")])
p("C25","A published event reaches exactly the subscribers entitled to it",
  "Publishing an event delivers it exactly once to every matching subscription of the publishing provider and to nobody else, with the event's own name, type and data. A filtered value-change subscription is notified exactly when the change makes the filter condition switch between true and false, and other subscribers see the data without filter marks; publishing an unregistered event fails.",
  ["inputs","configurations"],"every set of subscriptions on an event with any mix of filters, owners and failures","Tests have one or two subscribers; interactions between filtered and unfiltered subscribers are not covered.",
  [B+"rbus.c",B+"rbus_subscriptions.c"],[("rbusEvent_Publish",B+"rbus.c")])
p("C26","A provider reports a value change exactly when the value changed",
  "On each poll a change event carrying the old and the new value is published for a watched parameter exactly when the newly read value differs from the last known one, and the new value then becomes the last known one. A parameter is watched once however often it is added, and is no longer polled once removed or its handle closed.",
  ["histories","schedules"],"every sequence of values, read failures, additions and removals","Tests wait for one change with the default period.",
  [B+"rbus_valuechange.c"],[("polling thread and parameter list",B+"rbus_valuechange.c")])
p("C27","At most one configuration session is active and only its id can end it",
  "A new session is granted only when none is active and gets a non-zero id; the current-session query returns that id until it ends and zero afterwards. Ending is accepted only with the active id, otherwise it is refused and the active session is unaffected.",
  ["histories","inputs"],"every sequence of create, query and end requests with any ids","Tests run create/end once each; refused operations must also leave the state alone in every order.",
  ["src/session_manager/session_manager.c"],[("session state machine","src/session_manager/session_manager.c")])
p("C28","Error codes are translated faithfully across layers",
  "A failure reported by the messaging core surfaces at the public API as the documented public error for that failure: success maps to success, no failure is ever reported as success, and distinct documented failures stay distinguishable.",
  ["inputs"],"every error code of the messaging core, documented or not","The mapping is total over an integer domain; tests see two or three codes.",
  [B+"rbus.c",B+"rbus_message.c",C+"rbuscore.c"],[("rbusCoreError_to_rbusError and helpers",B+"rbus.c")])
json_path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(json_path, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
