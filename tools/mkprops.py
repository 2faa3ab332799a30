"""Source of properties.jsonl: run `python3 tools/mkprops.py` to regenerate it."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=False):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"state": [{"name": n, "meaning": m} for n, m in state]} if state else {}),
            **({"observe_at": list(observe)} if observe else {}),
            "hook_needed": hook or None}})

# ---------------------------------------------------------------- wire formats
prop("T01", "Primitive wire types round-trip, reject bad values and truncated data",
 "For every Zigbee/ZCL primitive data type (integers, enumerations, bitmaps, booleans, floats, addresses, keys, strings, lists), encoding any representable value gives the little-endian, size-exact representation the Zigbee specification defines for that type, and decoding that encoding followed by arbitrary extra bytes returns the same value and exactly those extra bytes. Values outside the representable range are refused with a value error when the value is built or encoded instead of being silently wrapped or truncated. Decoding input that is too short raises a value error: it never returns a value made from missing bytes.",
 ["inputs"], "every exported primitive type x (all boundary values + random values) x random trailing bytes x every truncation point",
 "Tests encode a few hand-picked values per type; the guarantee is over the full value range of about a hundred types, over every truncation point and trailing data.",
 ["zigpy/types/basic.py", "zigpy/types/named.py"],
 [("FixedIntType / enum / bitmap (de)serialisation", "zigpy/types/basic.py"), ("string and list types", "zigpy/types/basic.py"), ("address and key types", "zigpy/types/named.py")],
 observe=["return value / exception of serialize and deserialize"])

prop("T02", "Structures: conditional, optional and bit-packed fields round-trip",
 "For every record schema (declared with any mix of plain, bit-packed, optional and conditional fields), encoding a valid instance is exactly the concatenation, in declaration order, of the encodings of the fields that are present, where a conditional field is present exactly when its condition holds and bit-packed neighbours share bytes, the first declared one in the least significant bits, and decoding gives back an equal instance and the unconsumed bytes. Trailing optional fields may be absent on both sides, while a missing mandatory field is refused with a value error both when encoding and when decoding, and so is every use of a schema that leaves part of a byte to no field. Equality, copying with replaced fields and conversion to a dictionary agree with the field values.",
 ["inputs", "programs"], "randomly generated struct schemas x random instances x truncation points",
 "Tests use about thirty fixed struct classes; the property quantifies over all schemas and instances, including interactions between bit-packed, optional and conditional fields.",
 ["zigpy/types/struct.py"],
 [("Struct.serialize / deserialize / assigned_fields", "zigpy/types/struct.py"), ("bit field packing", "zigpy/types/struct.py"), ("Struct.__eq__, replace, as_dict", "zigpy/types/struct.py")],
 observe=["serialize / deserialize results"])

prop("T03", "Every ZCL command survives the wire; self-describing values keep their type",
 "For every general command and every command of every defined cluster, in both directions, with or without a manufacturer code, a frame built from valid arguments decodes back through the cluster to the same header (transaction number, command, manufacturer code, frame type and flags) and equal arguments. Values that carry their own type tag (attribute values, arrays, structures, sets, reporting configurations) decode to the same type and value they were built from. The data type table gives each type number its type, its class (analog or discrete) and the value, over all bytes of the type, which the specification reserves to mean that there is no valid value. The frame header occupies exactly three bytes, or five with a manufacturer code, and setting one sub-field of a packed argument (warning and squawk modes) changes only that sub-field.",
 ["inputs"], "all clusters in the registry x all commands x both directions x manufacturer / flags x random arguments",
 "The test-suite exercises a few dozen of several hundred command schemas, each with one or two argument sets.",
 ["zigpy/zcl/foundation.py", "zigpy/zcl/__init__.py", "zigpy/zcl/clusters"],
 [("ZCLHeader / FrameControl", "zigpy/zcl/foundation.py"), ("TypeValue, Array, DATA_TYPES table, AttributeReportingConfig", "zigpy/zcl/foundation.py"), ("Cluster.deserialize and command definitions", "zigpy/zcl/__init__.py")],
 observe=["frames captured at the radio boundary", "Cluster.deserialize results"])

prop("T04", "Every ZDO command and descriptor survives the wire",
 "Every ZDO request and response, encoded with valid arguments, decodes to the same command and equal arguments with nothing left over, and its transaction number is the first byte of the payload. Descriptors (node, simple, power, neighbour, route, binding, address) decode to equal values, a node descriptor built from its first two bytes as such equals the one built from their fields, and optional trailing parts of a response are absent from the decoded arguments only when they are absent from the payload. Messages with an unknown command number or cut short inside their mandatory part are refused with a value error, never misread as a complete message.",
 ["inputs"], "all ZDO commands x random arguments x truncation points",
 "Tests decode a handful of fixed hexadecimal strings for a small subset of the commands.",
 ["zigpy/zdo/types.py", "zigpy/zdo/__init__.py"],
 [("ZDOHeader, CLUSTERS table", "zigpy/zdo/types.py"), ("descriptor structures", "zigpy/zdo/types.py"), ("ZDO.deserialize / _serialize", "zigpy/zdo/__init__.py")],
 observe=["ZDO.deserialize results", "packets captured at the radio boundary"])

prop("T05", "Cluster definitions are complete, equivalent in old and new style, and isolated",
 "A cluster class has exactly the attributes and commands its definition says: those it defines itself and, where it extends the definitions of its parent, the parent's, an entry of the same name replacing the inherited one; where it defines none of a kind it has its parent's. This holds alike for the deprecated dictionaries (with tuples or definition objects) and for definition classes, and all tables (by number, by name, iteration over the definitions) agree on name, type, ZCL type, access and manufacturer-specific mark of each attribute, and on name, arguments (type, order, optional ones), direction and mark of each command. Defining a quirk changes neither the tables of any other cluster nor the registry through which clusters are found by number; duplicate names and invalid names of definitions are refused without a trace. Instances send and decode commands and write attributes by the definitions of their own class, treat other commands as unknown, and every cluster number gives the cluster registered for it, else the one registered for its range, else a plain one.",
 ["inputs", "histories"], "histories of cluster and quirk definitions in all styles, with invalid ones mixed in; all cluster numbers",
 "Tests define a handful of classes each in one style; what one definition leaves behind in others depends on the history of definitions.",
 ["zigpy/zcl/__init__.py", "zigpy/zcl/foundation.py", "zigpy/quirks/__init__.py"],
 [("Cluster.__init_subclass__", "zigpy/zcl/__init__.py"), ("ZCLCommandDef.with_compiled_schema", "zigpy/zcl/foundation.py"), ("Cluster.from_id", "zigpy/zcl/__init__.py")],
 observe=["tables of every class after every definition", "frames sent and decoded by instances"])

prop("T06", "Addresses, keys, masks, statuses and packets behave as values",
 "IEEE addresses, extended PAN ids and keys read from any spelling of the right number of hexadecimal bytes (either case, separated by colons, whitespace or nothing) or built from bytes, lists, copies or the wire are equal exactly when their bytes are, print in one canonical form that reads back, and can be looked up in sets and dictionaries however they were built (keys excepted); short addresses and PAN ids read from exactly four hexadecimal digits; other texts and numbers out of range are refused. Channel masks and channel lists convert into each other without loss, and channels or bits that do not exist are refused. An address with a mode holds an address of that mode's type. Enumerations and bitmaps can be built from numbers, and enumerations from the texts of their numbers and names, keep any number that fits, known or not, always have a name and a textual form, and combine, compare and format as their numbers; a status is named by its own layer, else by the layers below. Decoding or looking up a value never changes another value. Packets are equal, and hash alike, exactly when everything but their timestamps agrees; replacing fields of a packet or other record gives a record differing in just those fields and leaves the original alone.",
 ["inputs", "histories"], "random values of every kind built by every route, all members and numbers of all enumerations, sets and dictionaries keyed by them",
 "Tests compare a handful of literals; agreement of equality, hash, text and number has to hold for all values and all ways to build them.",
 ["zigpy/types/named.py", "zigpy/types/basic.py", "zigpy/zcl/clusters/general.py"],
 [("EUI64 / KeyData / NWK / Channels / AddrModeAddress / ZigbeePacket", "zigpy/types/named.py"), ("enum_factory / bitmap_factory", "zigpy/types/basic.py"), ("BaseDataclassMixin.replace", "zigpy/types/named.py"), ("PowerSource", "zigpy/zcl/clusters/general.py")],
 observe=["values, hashes and texts", "contents of sets and dictionaries"])

# ---------------------------------------------------------------- runtime core
prop("R01", "No received packet can crash or wedge the coordinator",
 "Handing the application any received packet - any unicast source address, endpoint, cluster, profile and payload bytes, well-formed or not, from known, half-interviewed or unknown devices - returns normally without raising. Malformed traffic never changes the identity (addresses, endpoints, clusters, node descriptor, model) of already known devices, and afterwards valid requests, responses and reports on the same and other devices are still handled correctly. Link quality, signal strength and last-seen time of an interviewed sending device reflect the latest packet received from it.",
 ["inputs", "histories"], "arbitrary byte payloads, mutated valid frames, and their interleavings with valid traffic over many devices",
 "Unit tests feed a few specific malformed packets; the space of payloads and their interleavings with valid traffic is unbounded.",
 ["zigpy/application.py", "zigpy/device.py", "zigpy/zdo/__init__.py", "zigpy/zcl/__init__.py", "zigpy/endpoint.py"],
 [("ControllerApplication.packet_received / _maybe_parse_zdo", "zigpy/application.py"), ("Device.packet_received", "zigpy/device.py"), ("ZDO.handle_message", "zigpy/zdo/__init__.py"), ("Endpoint.handle_message", "zigpy/endpoint.py")],
 observe=["exceptions escaping packet_received", "device table before/after", "probe request results"])

prop("R02", "Each response reaches exactly the request it answers, once",
 "While requests are outstanding, a reply from a device completes exactly the request to that device carrying the same transaction number, with that reply's decoded content, and completes no other request; replies that match no outstanding request, come from another device, or are duplicates complete nothing. A request whose reply never arrives fails with a timeout after its reply window (longer for sleepy or unknown devices), a request whose transmission fails raises that failure at once, and a reply that cannot be decoded fails the request with a parsing error. However a request ends (reply, timeout, delivery failure, cancellation) its transaction number becomes reusable immediately and later replies to it are ignored.",
 ["schedules", "inputs", "fault_sequences"], "many concurrent requests to many devices with reordered, duplicated, late, lost, corrupted replies, delivery failures and cancellations",
 "Tests use one or two requests with mocked futures; cross-talk, reuse and cleanup depend on the interleaving of many requests, replies, cancellations and timeouts.",
 ["zigpy/device.py", "zigpy/util.py", "zigpy/zcl/__init__.py", "zigpy/zdo/__init__.py"],
 [("Device.request / packet_received", "zigpy/device.py"), ("Requests / Request context manager", "zigpy/util.py"), ("get_sequence", "zigpy/device.py")],
 state=[("outstanding requests", "per device map from transaction number to waiter")],
 observe=["call/return events of client requests", "packets handed to send_packet", "packets injected"])

prop("R03", "Request concurrency limits hold and no waiter is lost or overtaken",
 "At no time do more requests hold a slot of the prioritised request limiter (globally, and per device) than its current limit, and no release makes it exceed its limit. Whenever a slot is free and somebody waits, the waiter with the highest priority - and among equals the one that started waiting first - gets it, whatever mix of cancellations, failures, releases and limit changes happened before. No slot and no wake-up is ever lost: once every holder has released, the limiter is fully free again and every uncancelled waiter has been served.",
 ["schedules", "histories"], "random histories of acquire/cancel/release/resize with same-tick cancellation, checked against a sequential reference model",
 "Tests cover a few fixed acquire orders; lost wake-ups and priority inversions need a cancellation in the same event-loop tick as a wake-up.",
 ["zigpy/datastructures.py", "zigpy/application.py", "zigpy/device.py"],
 [("PriorityDynamicBoundedSemaphore / PriorityLock", "zigpy/datastructures.py"), ("_limit_concurrency", "zigpy/application.py, zigpy/device.py")],
 state=[("available slots", "current limit minus holders"), ("waiters", "heap ordered by priority then arrival")],
 observe=["enter/exit events of the critical section", "locked/value/num_waiting accessors"])

prop("R04", "Duplicate suppression drops exactly the repeats inside the window",
 "A packet is suppressed if and only if an identical packet (ignoring transaction number, signal quality and timestamps) from the same device was accepted less than the debounce window ago; suppressed packets do not extend the window. Distinct packets are never suppressed, however many others are being tracked and in whatever order their windows expire. Entries whose window is over are forgotten, so memory use is bounded by the packets accepted within the last window.",
 ["histories"], "random arrival-time histories over a small set of packets with mixed windows, on a virtual clock",
 "Tests check two or three packets with one expiry; wrong eviction order only appears with several tracked packets whose expiries interleave.",
 ["zigpy/datastructures.py", "zigpy/device.py"],
 [("Debouncer.filter / clean", "zigpy/datastructures.py"), ("duplicate filtering in Device.packet_received", "zigpy/device.py")],
 observe=["filter() results", "handler invocations per received packet"])

prop("R05", "Response listeners fire exactly when a matching command arrives",
 "A registered one-shot waiter completes with the header and command of the first matching command received, from the right device (or any device when asked), while it is registered, that no earlier registered waiter consumed, and with no other; a registered callback is invoked once per matching command that no waiter registered before it consumed, in arrival order, and its errors affect nobody else (listeners for any device come before those for one device; replies to outstanding requests are not offered to listeners). When several one-shot waiters match the same command exactly one pending waiter consumes it, and a waiter that is already completed does not swallow later commands. Leaving the context unregisters the listener on every exit path, after which it is never invoked again.",
 ["histories", "schedules"], "random registration/deregistration/arrival histories with overlapping matchers over several devices",
 "Tests register at most a few listeners in fixed order; overlap, order and deregistration rules quantify over all histories.",
 ["zigpy/listeners.py", "zigpy/application.py", "zigpy/device.py"],
 [("BaseRequestListener.resolve", "zigpy/listeners.py"), ("wait_for_response / callback_for_response", "zigpy/application.py"), ("listener dispatch in Device.packet_received", "zigpy/device.py")],
 observe=["futures and callback invocations versus packets received"])

prop("R06", "Outgoing packets carry the right addressing, options and priority",
 "Every unicast, multicast and broadcast a caller asks for reaches the radio exactly once per attempt, with destination, source, endpoints, profile, cluster, transaction number, payload, radius, priority and transmit options matching the call and the configuration (acknowledgement requested or not, extended timeout, device-specific source route when source routing is enabled, IEEE addressing when asked). A group has every defined cluster, by number and by name, and no other, and a command sent through it reports success of that command. Recorded source routes are the reverse of the relay list reported for that device with the coordinator address and repeats removed.",
 ["inputs", "configurations"], "all combinations of addressing calls, options and configuration over random devices and relay lists",
 "Tests assert single packets for a few option combinations.",
 ["zigpy/application.py", "zigpy/util.py", "zigpy/group.py", "zigpy/zdo/__init__.py"],
 [("ControllerApplication.request / mrequest / broadcast", "zigpy/application.py"), ("build_source_route_to, filter_relays", "zigpy/application.py, zigpy/util.py"), ("Group.request", "zigpy/group.py")],
 observe=["packets handed to send_packet"])

prop("R07", "Retry, shared-call and timeout helpers keep their contract",
 "A retried operation is attempted at most the stated number of times, waits the stated delay between attempts, stops at the first success, retries only the listed failures and re-raises the last one. Concurrent calls with equal arguments share one execution and all receive its result or error, calls with different arguments or made after completion execute separately, and cancelling one caller does not disturb the others. A reschedulable timeout fires exactly once, at the most recently requested deadline, never earlier, and not at all once cancelled.",
 ["schedules", "fault_sequences"], "random failure/latency/cancellation/reschedule schedules on a virtual clock against reference models",
 "Tests use two or three fixed call patterns; the contract is over all interleavings of callers, cancellations and re-arms.",
 ["zigpy/util.py", "zigpy/datastructures.py"],
 [("retry / retryable", "zigpy/util.py"), ("combine_concurrent_calls", "zigpy/util.py"), ("ReschedulableTimeout", "zigpy/datastructures.py")],
 observe=["invocation counts and virtual times", "results delivered to each caller"])

prop("R08", "One misbehaving event listener never affects the others",
 "An event raised by any component is delivered once to every registered listener that implements it, in registration order, with the original arguments (and the source component when the listener asked for context), even if some listeners raise or unregister listeners while the event is delivered. A failing or removed listener never prevents delivery to the remaining ones and its error never reaches the component that raised the event. The collected results are those of the listeners that succeeded.",
 ["histories", "inputs"], "random listener sets (raising, re-entrant, async, context) and event sequences",
 "Tests use one or two listeners with mocks.",
 ["zigpy/util.py"],
 [("ListenableMixin.listener_event / async_event", "zigpy/util.py")],
 observe=["listener invocation log versus emitted events"])

prop("R09", "Every received command reaches its cluster and listeners once, as received",
 "Every packet from a known device is announced to the application's message listeners. Unless it is a repeat, cannot be decoded, names an endpoint or cluster the device does not have, or answers an outstanding request, it is then delivered at once and exactly once, with its transaction number, command, decoded arguments (raw bytes for unknown commands) and addressing mode, to the handlers and listeners of the sender's cluster it belongs to (the server cluster if the endpoint has both): cluster commands as such, general commands as such, reports additionally as one attribute update per reported attribute in order; device-management messages go to the device's management listeners. Waiters registered for a command do not take it from the cluster. A device whose endpoints are not all known yet delivers only management messages and, once it has any endpoint, basic-cluster messages; its other messages are offered to the handlers registered for messages of such devices, in order of registration, until one takes the message, and any message of it starts its interview unless one is running or the handler has set it up. The older entry points behave the same.",
 ["histories", "inputs"], "random packets of every kind, addressing and entry point from devices at every interview stage, compared event by event with a dispatch model",
 "Tests inject single packets into mocked handlers; that nothing is lost, doubled, misrouted or reordered for any mix of packets, stages and listeners is not settled by them.",
 ["zigpy/application.py", "zigpy/device.py", "zigpy/endpoint.py", "zigpy/zcl/__init__.py", "zigpy/zdo/__init__.py"],
 [("ControllerApplication.packet_received", "zigpy/application.py"), ("Device.packet_received", "zigpy/device.py"), ("Endpoint.handle_message", "zigpy/endpoint.py"), ("Cluster.handle_message / handle_cluster_general_request", "zigpy/zcl/__init__.py"), ("ZDO.handle_message", "zigpy/zdo/__init__.py")],
 observe=["events at application, device, endpoint, cluster and management listeners, and quirk handler calls, per injected packet"])

# ---------------------------------------------------------------- ZCL client behaviour
prop("Z01", "The attribute cache always reflects what the device last said",
 "After any history of reads, writes, reports, clears and failures, the cached value of each attribute equals the value most recently confirmed by the device (a successful read record, a successful write record, or a report) or set by an explicit update, normalised to the attribute's declared type; failed, rejected, timed-out or undecodable operations leave it untouched. Reading returns each requested attribute, under the key it was requested with, exactly once: either with the device's value or with the status the device gave, and cached reads are answered without traffic. An attribute is marked unsupported from the moment the device rejects reading it or configuring its reporting as unsupported until it is read or set up for reporting successfully, and every cache or support change is announced to listeners once.",
 ["histories", "inputs"], "random histories of read/write/report/clear operations with per-attribute statuses, whole-command failures, timeouts and reordered or extra records",
 "Tests exercise single reads/writes with fixed mocked responses; cache coherence is a property over histories with partial failures.",
 ["zigpy/zcl/__init__.py", "zigpy/zcl/foundation.py"],
 [("read_attributes", "zigpy/zcl/__init__.py"), ("write_attributes / write_attributes_raw", "zigpy/zcl/__init__.py"), ("report handling, _update_attribute, unsupported attribute set", "zigpy/zcl/__init__.py")],
 state=[("attribute cache", "last known value per attribute"), ("unsupported set", "attributes the device rejected")],
 observe=["return values", "cluster.get", "listener events", "packets sent"])

prop("Z02", "Incoming reports and reads are answered exactly once and correctly",
 "Every attribute report that does not disable it is acknowledged by exactly one success response naming the reported command and carrying the report's transaction number, back to the originating endpoint and cluster; reports that disable it are not acknowledged. An incoming attribute read is answered by exactly one response with the same transaction number, holding one record per requested attribute in request order: the correctly typed current value for attributes the coordinator serves (such as time) and an unsupported status for the others. A firmware query or block request of a device that is not being updated is answered by exactly one refusal (no image available, abort), a zone status change that does not disable it by exactly one success response. No response is ever sent to a response, and malformed requests produce no reply carrying data.",
 ["inputs", "histories"], "random incoming frames (reports, reads, responses; flags; endpoints; clusters) with an exactly-once checker on outgoing traffic",
 "Tests check one frame at a time with mocks.",
 ["zigpy/zcl/__init__.py", "zigpy/zcl/clusters/general.py", "zigpy/endpoint.py"],
 [("handle_cluster_general_request / send_default_rsp", "zigpy/zcl/__init__.py"), ("Time cluster attribute handlers", "zigpy/zcl/clusters/general.py"), ("Endpoint.reply", "zigpy/endpoint.py")],
 observe=["packets handed to send_packet per packet received"])

prop("Z03", "Writes, reporting set-up and binding put exactly the request on the air",
 "A write (including one made by assigning to an item of the cluster) sends one record per requested known attribute with the declared type tag and the exact value, refuses values that do not fit before anything is sent, and reports the device's answer back. A reporting configuration sends one record per attribute with the declared type, the given intervals, and the reportable change encoded in the attribute's own type (and omitted for discrete types), and marks as unsupported exactly the attributes the device rejects as such. Bind and unbind requests name this device, endpoint and cluster as source and the coordinator as destination. Whatever a quirk's cluster sends - reads, writes, reporting set-ups and commands of either direction - carries the manufacturer code given by the caller, else that of the device if the cluster is in the vendor range or one of the attributes or the command is marked as vendor's, else none; other clusters add none of their own.",
 ["inputs"], "all attributes of all clusters x random values, intervals and device answers",
 "Tests cover a handful of attributes; correctness depends on each of about two thousand attribute types.",
 ["zigpy/zcl/__init__.py", "zigpy/zcl/foundation.py", "zigpy/zdo/__init__.py"],
 [("_write_attr_records / configure_reporting_multiple", "zigpy/zcl/__init__.py"), ("AttributeReportingConfig", "zigpy/zcl/foundation.py"), ("ZDO.bind / unbind", "zigpy/zdo/__init__.py")],
 observe=["decoded packets at the radio boundary", "returned records"])

# ---------------------------------------------------------------- devices
prop("D01", "Interviews end with a complete device or an announced failure",
 "When a device joins, its interview reads the node descriptor, the active endpoints, each endpoint's simple descriptor and the model and manufacturer, surviving up to the permitted number of lost or failed exchanges, and then announces the device as initialised exactly once per completed interview with endpoints, clusters, profile, type, model and manufacturer equal to what the device reported. If the exchanges keep failing the failure is announced exactly once and the device is not reported as initialised. At most one interview per device runs at a time, and information already gathered is not requested again (a device whose descriptors are all known is announced again after an address change without another interview).",
 ["schedules", "fault_sequences"], "simulated devices with random descriptors x message loss, error statuses, delays, rejoins and duplicates during the interview",
 "Tests mock each step; the outcome depends on which exchange fails, how often, and on joins arriving mid-interview.",
 ["zigpy/device.py", "zigpy/endpoint.py", "zigpy/application.py"],
 [("Device.initialize / schedule_initialize", "zigpy/device.py"), ("Endpoint.initialize / get_model_info", "zigpy/endpoint.py"), ("handle_join / device_initialized", "zigpy/application.py")],
 observe=["listener events", "device object state", "packets sent"])

prop("D02", "Device table: one entry per IEEE address, address changes tracked",
 "After any history of joins, announcements, address responses, relays and leaves, the device table holds exactly one device per IEEE address ever seen and not removed, keyed by that address, and its network address is the latest one announced for it; lookups by either address find it (where several known devices claim one network address, one of them) and lookups for unknown addresses fail. A join is announced exactly when a new device appears or a known device changes network address; leaving is announced for known devices and does not forget them. Packets from unknown network addresses trigger an address discovery request and are otherwise ignored.",
 ["histories"], "random join/announce/rejoin/leave/relay/unknown-sender histories against a reference table",
 "Tests run single joins; the invariant is over histories with address reuse.",
 ["zigpy/application.py", "zigpy/zdo/__init__.py"],
 [("handle_join / handle_leave / handle_relays", "zigpy/application.py"), ("get_device", "zigpy/application.py"), ("_maybe_parse_zdo", "zigpy/application.py"), ("ZDO.handle_message", "zigpy/zdo/__init__.py")],
 observe=["device table, get_device results, listener events, discovery packets"])

prop("D03", "Removing a device asks it to leave and forgets it everywhere",
 "Removing a known device cancels any interview in progress, sends it a leave request naming its address with the requested options, also asks every recorded parent of a sleepy child to remove it, announces the removal once, and forgets the device, its tables and its group memberships within a bounded time whether or not anybody answers, without announcing it as initialised in between. Removing an unknown device does nothing. Other devices are unaffected.",
 ["histories", "fault_sequences"], "random device sets, topologies, answers, losses and concurrent traffic around removals",
 "Tests mock the leave exchange and a single parent.",
 ["zigpy/application.py", "zigpy/zdo/__init__.py"],
 [("ControllerApplication.remove / _remove_device", "zigpy/application.py"), ("ZDO.leave", "zigpy/zdo/__init__.py")],
 observe=["device table", "events", "packets sent"])

prop("D04", "Group membership stays consistent from both sides",
 "After any history of group additions, removals, membership scans and device answers, an endpoint is listed as a member of a group exactly when the group is listed among the endpoint's groups, and membership changes on the coordinator happen only when the device confirms them (success, or already a member / not found where that means the same). A membership scan leaves the endpoint in exactly the groups the device reports. Each group, membership addition and removal is announced once to listeners, and removed groups have no members.",
 ["histories", "inputs"], "random operation histories over simulated endpoints with random statuses, against a set model",
 "Tests check single operations with mocked statuses.",
 ["zigpy/group.py", "zigpy/endpoint.py"],
 [("Groups / Group membership", "zigpy/group.py"), ("Endpoint.add_to_group / remove_from_group / group_membership_scan", "zigpy/endpoint.py")],
 observe=["groups, members, member_of", "events", "packets sent"])

prop("D05", "Quirk selection is deterministic and keeps the device's identity",
 "For any device, a matching builder-based (v2) handler is applied if there is one, otherwise the matching class-based handler most specific about manufacturer and model (both, manufacturer only, model only, neither) and among equally specific ones the most recently registered, and a device matching none stays generic. A class-based handler matches exactly when model and manufacturer (where given) and the declared set of endpoints with every declared profile, device type and cluster set agree; a builder-based one when it names the manufacturer and model and all its filters accept; several matching builder-based handlers are refused with an error. The resulting device keeps the addresses, node descriptor (unless replaced), model, manufacturer, signal data and last-seen time of the original and contains exactly the endpoints and clusters the handler declares as its replacement or, for builder-based handlers, the original ones with the declared additions, removals and replacements, with retained clusters keeping their cached attribute values and their update times. Setting up the device runs the own set-up of each of its quirk clusters once. Removing a handler restores the previous choice, and the registry tells which handlers are registered.",
 ["inputs", "programs"], "randomly generated handlers (class based and builder based) x random device signatures, against a reference matcher",
 "Tests use a dozen hand-written handlers.",
 ["zigpy/quirks/__init__.py", "zigpy/quirks/registry.py", "zigpy/quirks/v2/__init__.py"],
 [("DeviceRegistry.get_device / _match", "zigpy/quirks/registry.py"), ("CustomDevice / CustomEndpoint", "zigpy/quirks/__init__.py"), ("QuirkBuilder / QuirksV2RegistryEntry", "zigpy/quirks/v2/__init__.py")],
 observe=["returned device object"])

prop("D06", "Topology scan reports complete tables and discovers unknown nodes",
 "A completed topology scan records, for every scannable router and the coordinator, exactly the neighbour and route tables the device serves page by page, in order, without the reserved addresses and inactive routes; devices that answer unsupported are not asked again and devices whose scan fails keep their previous table. Each scanned device's tables are announced once per scan, and every network address seen in neighbour entries and active routes that belongs to no known device triggers a discovery request. Starting a scan while another runs cancels the earlier one, and periodic scanning continues whatever individual scans do.",
 ["histories", "fault_sequences"], "simulated networks with random table sizes, page sizes, losses, unsupported devices and overlapping scans",
 "Tests use one or two devices with two-entry tables.",
 ["zigpy/topology.py"],
 [("Topology._scan / _scan_table", "zigpy/topology.py"), ("_find_unknown_devices, scan loop", "zigpy/topology.py")],
 observe=["neighbors/routes tables", "listener events", "packets sent"])

prop("D07", "The coordinator answers the queries of devices and presents its endpoints",
 "A query for the short address of the coordinator's IEEE address, for the IEEE address of its short address (or of all devices, of those that listen all the time, or of routers and the coordinator), and every request to match descriptors is answered exactly once: to the current address of the device that asked, with the transaction number of the query (whatever it is), status success, the addresses the coordinator has now, and endpoint 1 if the profile is home automation, else no endpoint; address answers with low and match answers with high priority. Queries about others, other requests, answers, repeats and malformed messages are not answered. An answer that cannot be delivered disturbs nothing. Binding, unbinding, leave and permit requests are sent with exactly the addresses and options given, with the coordinator's IEEE address and endpoint as target of bindings. On registration the coordinator presents endpoint 1 (home automation) and 2 (light link) and then each configured additional endpoint in order, and a refusal of the radio is reported.",
 ["inputs", "histories", "fault_sequences"], "histories of queries in all addressing modes with delivery failures, repeats, moved devices and varying coordinator addresses; random additional endpoints",
 "Tests call the handlers directly with one query each and mocked replies.",
 ["zigpy/zdo/__init__.py", "zigpy/application.py"],
 [("ZDO.handle_nwk_addr_req / handle_ieee_addr_req / handle_match_desc_req", "zigpy/zdo/__init__.py"), ("ZDO.reply, bind, unbind, leave, permit", "zigpy/zdo/__init__.py"), ("ControllerApplication.register_endpoints / get_dst_address", "zigpy/application.py")],
 observe=["packets at the radio boundary", "endpoints registered with the radio"])

# ---------------------------------------------------------------- persistence
prop("S01", "A restart restores everything that was persisted",
 "After any history of changes to interviewed devices, their endpoints, clusters, attributes, group memberships, neighbours, routes and relays, and to groups and backups, followed by a clean shutdown, loading the database yields the same devices (addresses, node descriptor, endpoints, profiles, types, clusters, model, manufacturer, last-seen time), cached attribute values and unsupported attributes, groups with names and members, neighbours, routes, relays and backups as were held in memory at shutdown; only update and last-seen times may be up to 30 seconds behind. Nothing removed before the shutdown reappears and nothing belonging to one device is attributed to another. Loading is idempotent: shutting down and loading again changes nothing, with or without the device's quirk installed.",
 ["histories"], "random operation histories across every persisted entity, including repeated restarts",
 "Tests persist one scenario per table; the property quantifies over histories mixing updates, removals and re-joins across all tables.",
 ["zigpy/appdb.py", "zigpy/application.py"],
 [("PersistingListener event handlers", "zigpy/appdb.py"), ("PersistingListener.load", "zigpy/appdb.py"), ("shutdown / queue draining", "zigpy/appdb.py")],
 observe=["application state before shutdown versus after reload"])

prop("S02", "A crash at any moment loses at most the newest unsaved changes",
 "If the process dies at any point, the database on disk is intact, can be opened and loaded without error, and contains every change whose saving had completed; each entity it holds has a value that entity really had at some point no older than its last completed save. No half-written device, group or attribute is visible: every loaded record refers to entities that exist. Later changes of one entity are never saved before earlier ones.",
 ["crash_points", "histories"], "file-level snapshots of database plus journal at every statement boundary, and injected failures of individual statements, over random histories",
 "No test crashes; the guarantee quantifies over every crash point.",
 ["zigpy/appdb.py"],
 [("callback queue worker and transactions", "zigpy/appdb.py"), ("journal mode and integrity pragmas", "zigpy/appdb.py")],
 observe=["copies of database, write-ahead log and journal between statements"])

prop("S03", "Database upgrades keep all data and are all-or-nothing",
 "Opening a database written by any supported older schema version upgrades it to the current version keeping every device, endpoint, cluster, attribute value, group, membership, neighbour and backup that the old version could represent, and the result loads into the same state. If an upgrade fails at any statement the database is left exactly as it was at the old version, and a later attempt succeeds. Opening an up-to-date database again changes nothing. Orphaned records (of devices, endpoints or groups that do not exist) may be dropped by an upgrade; a database whose tables do not match its version is refused and left alone.",
 ["inputs", "fault_sequences"], "generated databases of each old schema version x a fault at each statement of the upgrade",
 "Tests upgrade a few fixed dumps and inject one failure.",
 ["zigpy/appdb.py", "zigpy/appdb_schemas"],
 [("_run_migrations / _migrate_to_v*", "zigpy/appdb.py"), ("table copy and column mapping", "zigpy/appdb.py"), ("schema scripts", "zigpy/appdb_schemas")],
 observe=["database contents before/after", "loaded application state"])

prop("S04", "Network backups survive every exchange format unchanged",
 "A network backup converted to its dictionary or JSON form and back equals the original, and converted to the open coordinator format and back keeps every network and node setting, key, counter, child, address and link key that this format can express. Converting any valid external backup in that format and back yields an equivalent document. Documents with a missing required part, an undecodable, missing, truncated or overlong address or key, an impossible channel, an unknown node type or an unsupported version are refused with an error and never produce a partial backup.",
 ["inputs"], "random backups over the full value range of every field, random mutations of documents",
 "Tests round-trip two fixed backups.",
 ["zigpy/backups.py", "zigpy/state.py"],
 [("NetworkBackup.as_dict/from_dict, open coordinator conversion", "zigpy/backups.py"), ("NetworkInfo / NodeInfo / Key as_dict/from_dict", "zigpy/state.py")],
 observe=["converted documents"])

prop("S05", "Backup history keeps every network and only its newest state",
 "After any sequence of additions and restarts, adding a backup has replaced every earlier backup of the same network (same node and network identity, settings and keys) whose frame counter is not greater, and nothing else; the newest state of every network is never lost, stored backups never change afterwards, incomplete backups are not added, and the one added last is the one used for comparison and restore. Restoring writes to the radio exactly the backup's settings with the frame counter advanced by the requested increment and never beyond its maximum, and only complete backups are restored unless explicitly allowed. At start-up a radio whose settings conflict with the latest backup is reported when validation is enabled.",
 ["histories", "inputs"], "random add/restore/start-up sequences over related and unrelated backups, against a reference model",
 "Tests add two or three backups in fixed order.",
 ["zigpy/backups.py", "zigpy/application.py"],
 [("BackupManager.add_backup / is_compatible_with / supersedes", "zigpy/backups.py"), ("restore_backup / create_backup", "zigpy/backups.py"), ("initialize settings validation", "zigpy/application.py")],
 observe=["backup list", "arguments of write_network_info", "raised errors"])

# ---------------------------------------------------------------- network management
prop("N01", "Formed networks are valid and honour the configuration",
 "A newly formed network has every configured setting exactly as configured and random, specification-valid values for the rest: an identifier between 0x0001 and 0xFFFE, a 16-byte key, an extended identifier, and a channel from the allowed set; and it is recorded as a complete backup; a network formed only in passing is marked as such and not recorded. The automatically chosen channel is the allowed channel with the lowest penalised, neighbour-weighted energy. A coordinator that does not answer, fails or refuses to measure energy counts as having found all channels quiet, and starting up goes on. Migrating to another channel announces the new channel and a new update number to all devices the requested number of times, moves the coordinator, and finishes only when the new channel is in effect; migrating to the current channel sends nothing.",
 ["inputs", "configurations"], "random configurations, random generators and energy scans (with the random source steered to its extremes)",
 "Tests form one or two networks; bad random values appear once in 65 thousand formations.",
 ["zigpy/application.py", "zigpy/util.py"],
 [("form_network", "zigpy/application.py"), ("pick_optimal_channel", "zigpy/util.py"), ("move_network_to_channel", "zigpy/application.py")],
 observe=["arguments of write_network_info", "packets sent"])

prop("N02", "Start-up and shutdown always pair, whatever fails",
 "Starting the application either completes or disconnects the radio again and re-raises the cause (connection failures being marked transient), whichever step fails. Shutdown stops every periodic activity, disconnects the radio and closes the database even if individual steps fail, after which no background activity sends anything, and it can be repeated harmlessly. A construction that fails leaves no database connection open. Probing for a radio tries every distinct combination of settings once and in order until one connects, disconnects each radio it tried, and returns the settings that worked. While running, the watchdog is fed first at start-up and then every period, the first failed feed is announced as one lost connection and stops the feeding, backups and firmware announcements are repeated one period after the last one ended even if that one failed, and joining is closed at start-up.",
 ["fault_sequences", "schedules"], "failure injected at every radio call during start-up, operation and shutdown, on a virtual clock",
 "Tests inject a few of the failure points.",
 ["zigpy/application.py", "zigpy/backups.py", "zigpy/topology.py", "zigpy/ota/__init__.py"],
 [("startup / initialize / shutdown", "zigpy/application.py"), ("watchdog loop", "zigpy/application.py"), ("periodic tasks", "zigpy/backups.py, zigpy/topology.py, zigpy/ota/__init__.py")],
 observe=["radio call log", "tasks alive after shutdown", "events"])

prop("N03", "Install codes yield the specified key only when their checksum is right",
 "An install code of 8, 10, 14 or 18 bytes whose trailing checksum is correct yields the link key defined by the Zigbee hash of the whole code; a code of any other length or with a wrong checksum yields no key, and permitting a device with it is refused. The hash equals the specification's block-cipher hash for inputs of every length. Opening the network with a key or for a time passes exactly that device, key and duration on, and durations outside 0 to 254 seconds are refused.",
 ["inputs"], "random codes of all lengths, all single-byte corruptions, hash inputs of 0..200 bytes against an independent implementation",
 "Tests check two known vectors.",
 ["zigpy/util.py", "zigpy/application.py"],
 [("aes_mmo_hash / convert_install_code", "zigpy/util.py"), ("permit / permit_with_key", "zigpy/application.py")],
 observe=["returned keys", "radio calls"])

prop("N04", "Configuration is validated, defaulted and never silently altered",
 "Every valid configuration is accepted, keeps each value the user gave (converted to its declared type), and fills every missing option with its documented default; every invalid value (wrong type, out-of-range channel, malformed key or address, unknown serial flow control) is refused with a validation error. Validation is idempotent and does not modify the configuration passed in. Deprecated names keep working with the same meaning.",
 ["configurations"], "random valid configurations and single-field corruptions of them",
 "Tests validate a few fixed configurations.",
 ["zigpy/config/__init__.py", "zigpy/config/validators.py", "zigpy/config/defaults.py"],
 [("CONFIG_SCHEMA", "zigpy/config/__init__.py"), ("validators", "zigpy/config/validators.py")],
 observe=["validated configuration / exception"])

prop("N05", "Connections to the radio are opened as configured",
 "A connection to a serial port opens that port with the configured speed (115200 unless given), eight bits, no parity, the configured stop bits, exclusively if asked to, and with software flow control, hardware flow control, both or none as configured, where a flow control setting prevails over the two separate switches and nothing means none. Connections given as socket:// or tcp:// addresses are made to that host and port (6638 unless given) and fail with a timeout when they are not established within five seconds. Either way exactly one protocol of the caller is connected and returned with its transport, bytes arrive unaltered and in order in both directions, a failure is reported as the underlying operating system error rather than wrapped in another one, and neither closed nor failed nor cancelled connections leave descriptors or attempts behind.",
 ["inputs", "fault_sequences"], "random settings on pseudo terminals and loopback servers; missing, busy, unusable, unreachable and slow devices",
 "Tests replace the functions that open connections by mocks and look at their arguments only.",
 ["zigpy/serial.py"],
 [("create_serial_connection", "zigpy/serial.py")],
 observe=["line settings read from the other end of pseudo terminals", "bytes at both ends", "connection attempts and errors", "open descriptors"])

prop("N06", "Diagnostic counters never lose or invent counts",
 "The value of a counter is everything it has counted: readings of a counter that only grows add their difference, a reading below the previous one counts as a restart from zero and adds the reading itself, increments add to it and negative ones are refused, and resets keep the value while being counted. Counters and groups are made on first use with zero, keep their order and names, and are independent of each other across groups, collections and states; counting under a path of tags counts once in every nested group of the path; resetting a group restarts all counters in it, nested ones included. Equality, number and text of a counter agree with its value.",
 ["histories"], "random histories of readings, rollovers, increments, nested counting and resets on many groups",
 "Tests follow one counter through a dozen steps.",
 ["zigpy/state.py"],
 [("Counter", "zigpy/state.py"), ("CounterGroup / CounterGroups", "zigpy/state.py"), ("State", "zigpy/state.py")],
 observe=["values, restarts, texts and groups after every step"])

# ---------------------------------------------------------------- OTA
prop("O01", "Firmware transfer delivers the exact image or reports failure",
 "During an update the device receives, for any block size, offset order, repetition and delay it chooses, exactly the bytes of the offered image at the offsets it asked for (never beyond the end or of another image), and progress is reported monotonically for forward reads. The update reports success only if the device declared the whole image received and confirmed; an abort, rejection, wrong request or a device that stays silent for the stall period ends it with a failure status, and afterwards no handler, timer or in-progress mark remains. Only one update per device runs at a time.",
 ["schedules", "fault_sequences"], "simulated OTA clients with random block sizes, offsets, losses, stalls, duplicates and aborts on a virtual clock",
 "Tests run one scripted transfer per outcome.",
 ["zigpy/ota/manager.py", "zigpy/device.py"],
 [("OTAManager image block / upgrade end handling", "zigpy/ota/manager.py"), ("Device.update_firmware", "zigpy/device.py")],
 observe=["image block responses at the radio boundary", "update result", "progress callbacks"])

prop("O02", "Firmware files parse exactly, and corrupt ones are refused",
 "A firmware image, plain or inside any supported vendor container, parses to a structure that serialises back to the identical image bytes with header fields equal to those written, and data after the image is returned untouched. Truncated images, wrong magic, inconsistent lengths or counts and failed vendor signatures or checksums are refused with an error before the image can be offered. Validation of an embedded Silicon Labs or EFR container accepts exactly well-formed containers with correct checksums.",
 ["inputs"], "generated images with random headers, optional fields and sub-elements, every truncation point, random bit flips",
 "Tests parse a few fixed images.",
 ["zigpy/ota/image.py", "zigpy/ota/validators.py"],
 [("OTAImage.deserialize / parse_ota_image", "zigpy/ota/image.py"), ("validate_ebl / validate_gbl / validate_ota_image", "zigpy/ota/validators.py")],
 observe=["parse results / exceptions"])

prop("O03", "Only the right, verified, newest firmware is offered to a device",
 "An image is offered as an upgrade only if the manufacturer, image type, hardware range, model and version constraints of its source admit the querying device - constraints the source leaves open are taken from the header of the firmware file - and its version is newer than the device's. A file is used only if its size and checksum (or signed container, or archive) match what the source says; otherwise it is never offered. All such images are offered, the highest version first and among equal versions the most specific one; images of equal version and specificity but different content are all withheld. Unreachable, hanging or malformed sources and downloads never prevent the images of other sources from being offered, and an index is read again after a day.",
 ["inputs", "fault_sequences"], "random image sets, metadata, device queries, corrupt downloads and failing sources against a reference selector",
 "Tests use one or two images per provider.",
 ["zigpy/ota/__init__.py", "zigpy/ota/providers.py"],
 [("OtaImageWithMetadata.check_compatibility / version / specificity", "zigpy/ota/__init__.py"), ("OTA.get_ota_images", "zigpy/ota/__init__.py"), ("BaseOtaProvider fetch and checksum", "zigpy/ota/providers.py")],
 observe=["returned image lists"])

prop("O04", "Firmware sources and update notifications follow the configuration",
 "A firmware query of a device consults exactly the sources the configuration asks for that serve the manufacturer of the device: the listed ones (or the default ones if none are listed), the extra ones and those enabled by deprecated keys, without those of a disabled kind unless such a source is named explicitly, and without the earlier ones of its kind where a source overrides them; none if updates are disabled. Each is consulted at its configured place (or its default one) and for its configured manufacturers (or those its kind is known for); sources are the same exactly when their kind, place and manufacturers are. Once started, and only if configured, update notifications are broadcast to all devices after the initial delay and then at the interval after each attempt, whether or not sending succeeds, until stopped, restarted (only the new schedule remains) or shut down; a notification asks all devices of a small network and in larger ones the share of devices that keeps the expected number of answers constant, or the share and audience given by the caller.",
 ["inputs", "schedules", "fault_sequences"], "random configurations mixing all ways to name and disable sources, queries of devices of all manufacturers; schedules of notifications with failing and slow transmissions, growth, stops and restarts on a virtual clock",
 "Tests use three fixed configurations and one schedule.",
 ["zigpy/ota/__init__.py", "zigpy/ota/providers.py", "zigpy/config/__init__.py", "zigpy/application.py"],
 [("OTA._register_providers", "zigpy/ota/__init__.py"), ("OTA.broadcast_loop / broadcast_notify", "zigpy/ota/__init__.py"), ("cv_ota_provider", "zigpy/config/validators.py")],
 observe=["sources consulted by queries", "broadcasts captured at the radio boundary with their times"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
