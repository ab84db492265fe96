"""The properties (written to properties.jsonl) and, per property, the text of its manifest entry.  Run lib/gen.py after editing."""
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, technique, note, observe=(), state=(), hook=None, level="exploration"):
    P.append({
        "entry": {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": quant},
            "why_tests_cant": why,
            "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                        "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                        "observe_at": list(observe), "hook_needed": hook},
        },
        "technique": technique, "note": note, "level": level})


prop("C01", "Messages arrive exactly once, unmodified, in order, with their boundaries",
     "Between connected channels, every message that was sent successfully is received exactly once, byte for byte as sent, in the order of sending per peer, and a multi-part message arrives with the same parts in the same order and never mixed with another. This holds for each documented pattern of each transport over inproc, ipc and tcp, and the transferred byte and message counters of both ends agree with what was transferred.",
     ["histories", "schedules", "configurations", "inputs"],
     "all sequences of single- and multi-part sends and receives, message sizes (including 0) and part counts, transport x pattern x address kind, numbers of peers, interleavings of the sender and receiver threads",
     "The tests send a few fixed small messages per pattern and transport; none can run here at all. Sizes, part counts, peers, back-pressure and interleavings are unbounded.",
     ["fairmq/zeromq/Socket.h", "fairmq/shmem/Socket.h", "fairmq/zeromq/Message.h", "fairmq/shmem/Message.h", "fairmq/Channel.h", "fairmq/Parts.h"],
     [("per-part SNDMORE/RCVMORE loop", "fairmq/zeromq/Socket.h"), ("array of MetaHeaders in one zmq message", "fairmq/shmem/Socket.h"), ("queued flag hands the buffer over", "fairmq/shmem/Message.h")],
     "stateful property-based testing against a FIFO reference model, threads, ASan", "Random histories against a queue model on real sockets; schedules are those the machine produces.",
     observe=["Channel::Receive", "Socket::GetBytesTx/Rx", "Socket::GetMessagesTx/Rx"])

prop("C02", "A message object always holds exactly the content the API gave it",
     "However a message was created, rebuilt, resized, copied, sent, received into, moved or destroyed, its size, data and alignment are those its last successful operation defines, and a copy keeps its content independently of what happens to the original. Operations that cannot be honoured report failure and leave the message unchanged.",
     ["histories", "inputs"],
     "all sequences of the operations of a message object (create empty/size/aligned/user buffer/region, Rebuild in every form, SetUsedSize, Copy, send, receive into, destroy) with all sizes and alignments, on both transports",
     "Tests check a handful of single operations (one rebuild, one resize, one copy); the state space of operation sequences on shared buffers is unbounded.",
     ["fairmq/Message.h", "fairmq/zeromq/Message.h", "fairmq/shmem/Message.h", "fairmq/shmem/Manager.h"],
     [("reference count next to the buffer, header offset for alignment", "fairmq/shmem/Message.h"), ("zmq_msg_copy, used size view message", "fairmq/zeromq/Message.h")],
     "stateful model-based testing with shrinking, ASan", "Model: a byte string per message object.",
     observe=["Message::GetData", "Message::GetSize", "Message::Copy"])

prop("C03", "A user buffer's release callback runs exactly once, when no longer used",
     "For every message built over a user-supplied buffer the release callback runs exactly once with the buffer address and hint that were given, not before the last message referring to the buffer has been destroyed, rebuilt or consumed, and not later than the shutdown of the transport.",
     ["histories", "schedules", "inputs"],
     "all histories of creating, rebuilding, copying, sending, receiving, dropping such messages, all sizes including zero, both transports",
     "Tests destroy one message and count one callback.",
     ["fairmq/zeromq/Message.h", "fairmq/shmem/Message.h", "fairmq/Message.h"],
     [("free function stored with zmq_msg_init_data", "fairmq/zeromq/Message.h"), ("copy into shared memory, then call the free function at once", "fairmq/shmem/Message.h")],
     "stateful model-based testing, callback ledger as oracle", "Ledger of callbacks compared after every history.",
     observe=["the callback's arguments and count"])

prop("C04", "Shared memory is returned: no history of message operations leaks or corrupts it",
     "After any history of message operations, once all messages are gone (destroyed, or received and destroyed by the peer) the free space of the shared memory segment is what it was before the history, and no two live messages ever overlap.",
     ["histories", "schedules"],
     "all histories of message operations including copies, transfers between sockets, resizes and rebuilds, and concurrent use from several threads",
     "No test measures the segment's free space after a history.",
     ["fairmq/shmem/Manager.h", "fairmq/shmem/Message.h", "fairmq/shmem/Socket.h"],
     [("Allocate/Deallocate/ShrinkInPlace and the reference count", "fairmq/shmem/Manager.h")],
     "stateful testing, conservation invariant over the segment's free memory", "Free memory is read through the segment itself.",
     observe=["segment free memory", "addresses of live messages"])

prop("C05", "Unmanaged region blocks are acknowledged exactly once, after their last use",
     "For every block of an unmanaged region that is put in a message, the owner's acknowledgement callback (single or bulk) reports exactly that block with its size and hint exactly once, after the last message referring to it is gone wherever it was sent, and never before; blocks still in flight at destruction are not reported as free prematurely.",
     ["histories", "schedules"],
     "all histories of region messages: sent, copied, dropped, received and released in any order, several regions, block sizes and overlapping lifetimes, bulk sizes, both transports",
     "The tests use two messages and a fixed order.",
     ["fairmq/shmem/UnmanagedRegionImpl.h", "fairmq/shmem/UnmanagedRegion.h", "fairmq/shmem/Message.h", "fairmq/zeromq/UnmanagedRegion.h", "fairmq/zeromq/Message.h"],
     [("ack queue with bulk sending and a receiving thread", "fairmq/shmem/UnmanagedRegion.h"), ("reference count pool of the region", "fairmq/shmem/UnmanagedRegion.h")],
     "stateful testing with an ack ledger as oracle", "Completion is awaited with generous limits; missing acks only count after the documented flush.",
     observe=["region callback arguments"])

prop("C06", "Region bookkeeping: events, info and bounds match the regions that exist",
     "At any time the region information a transport reports, and the sequence of created/destroyed events a subscriber sees, describe exactly the regions (managed segments and unmanaged regions) that exist, with their ids, sizes, addresses and user flags; a message can only be created over memory that lies inside its region.",
     ["histories", "configurations"],
     "all histories of creating and destroying regions with all sizes, flags and ids, subscribing and unsubscribing at any point",
     "Tests create two regions with fixed parameters.",
     ["fairmq/shmem/Manager.h", "fairmq/shmem/UnmanagedRegionImpl.h", "fairmq/zeromq/Context.h", "fairmq/zeromq/TransportFactory.h", "fairmq/UnmanagedRegion.h"],
     [("region event thread and generation counter", "fairmq/shmem/Manager.h"), ("region event queue", "fairmq/zeromq/Context.h")],
     "stateful model-based testing", "Model: the set of live regions.",
     observe=["TransportFactory::GetRegionInfo", "SubscribeToRegionEvents"])

prop("C07", "A channel accepts exactly the documented configurations and keeps them consistent",
     "Channel validation accepts exactly those combinations of name, type, method, address, transport and limits that the documentation allows, answers or throws as documented for all others, and never crashes; every setter is reflected by its getter and un-validates the channel, copies carry the configuration but not the connection, and prefix and index follow from the name.",
     ["inputs", "configurations", "histories"],
     "all strings for name, type, method, address (multiple endpoints and modifiers) and transport, all integers for limits, all orders of setter, copy, assign, move and validate calls",
     "Tests validate about ten hand-picked configurations.",
     ["fairmq/Channel.h", "fairmq/Channel.cxx", "fairmq/TransportEnum.h"],
     [("Channel::Validate", "fairmq/Channel.cxx"), ("Invalidate on update", "fairmq/Channel.h")],
     "grammar-based and mutated inputs against a reference validator; stateful model", "The reference validator is written from the documentation and the error texts.",
     observe=["Channel::Validate", "Channel getters"])

prop("C08", "Only the documented state transitions happen, each once and in order",
     "From any state, a transition request is carried out if and only if the documented table allows it there (or it is the error transition), refused requests change nothing, automatic transitions follow by themselves, and each executed transition notifies every subscriber and runs the handler of the new state exactly once, in order, also under concurrent requests.",
     ["histories", "schedules"],
     "all sequences of transition requests, from one or several threads, with handlers that return, throw or request transitions themselves",
     "Tests follow two fixed walks through the table.",
     ["fairmq/StateMachine.h", "fairmq/StateMachine.cxx", "fairmq/States.h"],
     [("boost::msm transition table, ProcessWork loop", "fairmq/StateMachine.cxx")],
     "stateful model-based testing against the documented table; thread schedules", "Sequential histories are decided exactly; concurrent ones against the set of histories the table allows.",
     observe=["StateMachine::ChangeState", "GetCurrentState", "state change and state handler callbacks"])

prop("C09", "The state queue delivers every state once, in order, and errors are never missed",
     "States pushed to a state queue are handed to the waiter in order, each exactly once, whatever the interleaving; waiting for a state returns when that state has been reached and reports an error state as an error instead of blocking or skipping it.",
     ["histories", "schedules"],
     "all sequences of pushes, waits with and without timeout, and clears, over two or more threads",
     "No test exercises the queue directly.",
     ["fairmq/StateQueue.h"],
     [("queue under a mutex and condition variable", "fairmq/StateQueue.h")],
     "stateful model-based testing, producer/consumer threads", "Timeouts are only used to detect hangs.",
     observe=["StateQueue::WaitForNext", "WaitForState", "WaitForStateOrCustom"])

prop("C10", "Names of states, transitions, transports and results translate back and forth",
     "Every state, transition and transport has exactly one name; translating it to its name and back gives the same value, distinct values have distinct names (also as printed, and for transfer results and error codes), and any other text is rejected with an exception rather than mapped to some value.",
     ["inputs"],
     "all enumeration values and all strings",
     "Tests translate single names, never arbitrary or near-miss strings.",
     ["fairmq/States.h", "fairmq/States.cxx", "fairmq/TransportEnum.h", "fairmq/Error.h", "fairmq/Message.h"],
     [("lookup tables", "fairmq/States.cxx"), ("transport name tables", "fairmq/TransportEnum.h")],
     "exhaustive round trip over the values, mutated and random strings otherwise", "Exhaustive over enum values.",
     observe=["GetState/GetTransition/GetStateName/GetTransitionName", "TransportType/TransportName"])

prop("C11", "A device can be driven through any legal history and always ends cleanly",
     "Driving a device through any legal history, including resets from any resettable state, re-initialisation and user code that throws, runs each user hook exactly at its step, (re)creates the configured channels each time, turns an exception into the error state, and never crashes, hangs or loses the configuration.",
     ["histories", "fault_sequences", "configurations"],
     "all walks through the device life cycle, hooks that throw at any step, numbers and kinds of channels, transports",
     "Tests walk the straight line once and throw from one hook at a time.",
     ["fairmq/Device.cxx", "fairmq/Device.h", "fairmq/StateMachine.cxx"],
     [("InitWrapper/BindWrapper/ConnectWrapper/ResetWrapper", "fairmq/Device.cxx")],
     "stateful model-based testing of device histories, ASan", "Peers are real devices or sockets in the same process.",
     observe=["hook call log", "GetCurrentState", "GetNumSubChannels, Validate of channels"])

prop("C12", "At most one plugin controls the device, and only it can change its state",
     "At any time at most one plugin holds device control; a transition request by anyone else is refused with the documented exception and has no effect, control is handed over only by take, steal or release as documented, and waiting for release returns only when control is free.",
     ["histories", "schedules"],
     "all sequences of take, steal, release, wait and transition calls by several plugins, sequential and concurrent",
     "Tests cover one pair of plugins in fixed order.",
     ["fairmq/PluginServices.h", "fairmq/PluginServices.cxx"],
     [("optional controller name under a mutex", "fairmq/PluginServices.cxx")],
     "stateful model-based testing; concurrent histories checked against the sequential model", "",
     observe=["PluginServices::TakeDeviceControl/Steal/Release/GetDeviceController/ChangeDeviceState"])

prop("C13", "Transfer calls return the documented result and lose nothing when they fail",
     "A send or receive that cannot complete returns the documented code for its reason (timeout, interrupt, error) within its timeout rules, transfers nothing and leaves the caller's message intact so that the same call can be repeated successfully; a successful call returns the number of bytes transferred, also when it competes with interrupts.",
     ["histories", "fault_sequences", "schedules"],
     "all interleavings of sends, receives, full queues, missing peers, zero/short/infinite timeouts, transport interrupts and resumes",
     "Tests check one timeout and one interrupt on an idle socket.",
     ["fairmq/zeromq/Socket.h", "fairmq/shmem/Socket.h", "fairmq/zeromq/Common.h", "fairmq/Channel.h"],
     [("retry loop around zmq_msg_send/recv", "fairmq/zeromq/Common.h"), ("interrupt flag of the transport", "fairmq/zeromq/Context.h")],
     "stateful model-based testing with fault (interrupt, back-pressure) injection", "Elapsed time is only bounded from above with hang limits and from below by the requested timeout.",
     observe=["return codes", "message content after a failed call"])

prop("C14", "The poller reports exactly the channels that are ready",
     "After a poll, a channel or socket is reported as readable if and only if a message is waiting there, and as writable if and only if a send would not block, whatever the number, kind and transport of the polled channels; polling consumes nothing and does not report other channels.",
     ["histories", "configurations"],
     "all sets of channels and sub-channels of both transports, all subsets with pending messages or full queues, all orders of polls, sends and receives",
     "Tests poll two channels with one message.",
     ["fairmq/zeromq/Poller.h", "fairmq/shmem/Poller.h", "fairmq/Poller.h"],
     [("zmq_poll items indexed by channel and sub-channel", "fairmq/zeromq/Poller.h")],
     "stateful model-based testing", "",
     observe=["Poller::CheckInput/CheckOutput"])

prop("C15", "Messages cross transports unchanged and remain owned correctly",
     "A message created by one transport and sent over a channel of another, alone or as parts, arrives byte for byte as created, its buffer is released exactly once, and the sender's message object behaves as after an ordinary send.",
     ["histories", "configurations", "inputs"],
     "all pairs of transports, sizes, part counts, kinds of message (plain, user buffer, region), repeated and failed sends",
     "Tests send one or two messages across.",
     ["fairmq/Channel.h", "fairmq/Channel.cxx", "fairmq/Message.h"],
     [("CheckSendCompatibility/CheckReceiveCompatibility", "fairmq/Channel.h")],
     "property-based testing, content and callback oracle", "",
     observe=["Channel::Send/Receive across transports"])

prop("C16", "Shared memory sessions clean up after themselves, also after a crash",
     "When the last user of a shared memory session ends, by normal exit in any order or by being killed at any point followed by a cleanup, no shared memory object of that session is left, a new session under the same name works from scratch, and other sessions are never touched.",
     ["crash_points", "histories", "configurations"],
     "all points at which a process can be killed during creation, use and destruction of a session with segments, regions and messages; all orders of normal termination; several sessions at once",
     "Tests only cover orderly shutdown within one process.",
     ["fairmq/shmem/Manager.h", "fairmq/shmem/Manager.cxx", "fairmq/shmem/Monitor.h", "fairmq/shmem/Monitor.cxx", "fairmq/shmem/Common.h"],
     [("device counter in the management segment", "fairmq/shmem/Manager.h"), ("Monitor::Cleanup over the recorded names", "fairmq/shmem/Monitor.cxx")],
     "fault injection: processes killed at generated points, then cleanup; directory diff of /dev/shm as oracle", "Kill points are spread by operation count.",
     observe=["/dev/shm", "Monitor::Cleanup results"], level="fault_enumeration")

prop("C17", "Running out of shared memory is reported and does no harm",
     "When the shared memory segment cannot hold a requested message the request fails in the documented way (exception after the configured attempts), existing messages stay intact, and memory freed later can be used again.",
     ["histories", "fault_sequences", "configurations"],
     "all sequences of allocations of any size against any segment size, with frees in any order, configured attempts and intervals",
     "One test fills a segment once.",
     ["fairmq/shmem/Manager.h", "fairmq/shmem/Message.h"],
     [("Allocate's retry loop and MessageBadAlloc", "fairmq/shmem/Manager.h")],
     "stateful model-based testing at the memory limit", "",
     observe=["MessageBadAlloc", "content of other messages"])

prop("C18", "Socket options read back what was set and survive to the wire",
     "Every socket option that a socket or channel offers (linger, buffer sizes in messages and bytes, connect timeout) reads back the value that was set, channel options reach the socket, and invalid options are reported, for both transports and all socket kinds.",
     ["inputs", "configurations"],
     "all option values, all socket types, both transports, setting before and after binding",
     "Tests set each option once to one value.",
     ["fairmq/zeromq/Socket.h", "fairmq/shmem/Socket.h", "fairmq/Channel.cxx"],
     [("Set/Get wrappers around zmq_setsockopt", "fairmq/zeromq/Socket.h")],
     "round-trip property over generated values", "",
     observe=["Socket getters/setters"])

prop("C19", "Binding finds a free port in the configured range and publishes it",
     "A binding tcp endpoint ends up at the port it was configured with if that is free, and otherwise, with automatic binding, at a free port inside the configured range, even if many channels compete for few ports. The channel and the device configuration report the addresses actually bound, so that a peer can connect to each of them and reaches that channel; if nothing is free, the range is invalid, or automatic binding is off and the port is taken, initialisation fails visibly.",
     ["configurations", "fault_sequences"],
     "all port ranges, numbers of channels, occupied ports and endpoint kinds",
     "Tests bind one channel in the default range.",
     ["fairmq/Device.cxx", "fairmq/Channel.h"],
     [("Device::AttachChannel", "fairmq/Device.cxx"), ("Channel::BindEndpoint", "fairmq/Channel.cxx")],
     "property-based testing with occupied ports injected", "",
     observe=["channel address, config property, connectivity"])

prop("C20", "Data callbacks see every message of their channel exactly once",
     "With callbacks registered for any set of channels and sub-channels, on one or several transports, every message that arrives is handed to the callback of its channel exactly once with the right sub-channel index, in order per sender, and returning false ends the loop without losing further messages of other channels to a wrong callback.",
     ["histories", "configurations", "schedules"],
     "all assignments of messages to channels and sub-channels, single- and multi-part callbacks, transport mixtures",
     "Tests send one message to each of a few callbacks.",
     ["fairmq/Device.h", "fairmq/Device.cxx"],
     [("HandleSingleChannelInput/HandleMultipleChannelInput/PollForTransport", "fairmq/Device.cxx")],
     "property-based testing of generated devices", "",
     observe=["callback log"])

prop("C21", "The stock devices pass on every message, unchanged and in the right place",
     "The merger, proxy, multiplier, splitter and sink devices forward or consume every message they receive without loss, duplication or change: merger and proxy preserve per-input order, the splitter distributes in turn, the multiplier delivers each message to every output, the sink counts up to its limit, single- and multi-part alike.",
     ["histories", "configurations"],
     "all numbers of inputs and outputs, message streams, single- and multi-part mode, transports, iteration limits",
     "Tests check only that they start and stop with one or two messages.",
     ["fairmq/devices/Merger.h", "fairmq/devices/Proxy.h", "fairmq/devices/Multiplier.h", "fairmq/devices/Splitter.h", "fairmq/devices/Sink.h", "fairmq/devices/BenchmarkSampler.h"],
     [("the devices' run loops", "fairmq/devices")],
     "property-based testing: generated topologies and streams against a reference router", "",
     observe=["messages at the outputs"])

prop("C22", "Properties read back exactly what was stored, and updates are atomic",
     "The configuration behaves as a map from key to typed value: a stored property reads back with the same type and value, as text in its documented form, through every kind of query; reading a missing key or a wrong type fails as documented, updating any unknown key fails without changing anything, and channel configurations survive being stored.",
     ["histories", "inputs", "schedules"],
     "all sequences of set, update, delete, query (single, by regex, by prefix), channel additions and subscriptions, over all supported value types and arbitrary keys, also from several threads",
     "Tests set and read a few fixed properties.",
     ["fairmq/ProgOptions.h", "fairmq/ProgOptions.cxx", "fairmq/Properties.h"],
     [("variables map under a mutex", "fairmq/ProgOptions.cxx")],
     "stateful model-based testing", "Model: std::map of variants.",
     observe=["ProgOptions / PluginServices / Device property interface"])

prop("C23", "Subscribers are told every property change, once, with the new value",
     "Each successful change of a property notifies every subscriber of its value type, and every as-string subscriber, exactly once with the key and the new value; unsubscribed or differently typed subscribers hear nothing, and failed changes notify nobody.",
     ["histories", "inputs"],
     "all sequences of subscriptions, re-subscriptions, cancellations, single and batch changes of all supported types",
     "Tests subscribe to one type and change one property.",
     ["fairmq/ProgOptions.h", "fairmq/ProgOptions.cxx", "fairmq/Properties.cxx", "fairmq/EventManager.h"],
     [("PropertyHelper::fEventEmitters", "fairmq/Properties.cxx")],
     "stateful model-based testing", "",
     observe=["subscriber callbacks"])

prop("C24", "Event callbacks: exactly the current subscribers are called",
     "An emitted event reaches exactly the callbacks currently subscribed for that event and argument types, each once with the emitted key and arguments; subscribing again replaces the earlier callback of that subscriber, unsubscribing removes only that one, and unsubscribing what is not subscribed is reported; all of this also under concurrent use.",
     ["histories", "schedules"],
     "all sequences of subscribe, unsubscribe and emit over several events, signatures, keys and subscribers, from one or several threads",
     "The one test does a single subscribe-emit-unsubscribe sequence.",
     ["fairmq/EventManager.h", "fairmq/EventManager.cxx"],
     [("signal per event and signature, connection per subscriber", "fairmq/EventManager.h")],
     "stateful model-based testing; threads", "Model: map from (event, signature, subscriber) to callback.",
     observe=["callback log"])

prop("C25", "Every property value prints and converts in its documented form",
     "For every supported property type and every value, the printed form, the as-string notification and the type label are the documented ones and denote the value; values of unsupported types are reported as such and never printed as something else.",
     ["inputs"],
     "all values of all supported scalar, string, path and vector types, and values of other types",
     "Tests print none of them directly.",
     ["fairmq/Properties.cxx", "fairmq/Properties.h", "fairmq/PropertyOutput.h"],
     [("PropertyHelper::fTypeInfos and fEventEmitters tables", "fairmq/Properties.cxx")],
     "round-trip and reference-printer property over generated values", "",
     observe=["PropertyHelper::ConvertPropertyToString/GetPropertyInfo"])

prop("C26", "JSON configuration yields exactly the channels of the selected device",
     "Parsing a JSON configuration for a device id yields exactly the channel properties that the documentation prescribes for that device, sub-channel by sub-channel with common values inherited and defaults filled in, nothing from other devices (so nothing at all for a device the document does not mention), and a missing device id, a nameless channel or a malformed document is reported by an exception.",
     ["inputs", "configurations"],
     "all documents: devices, channels, sub-channels, value inheritance, missing and extra fields, malformed input",
     "Tests parse no generated document; one example file is used.",
     ["fairmq/JSONParser.cxx", "fairmq/JSONParser.h"],
     [("recursive property-tree walk", "fairmq/JSONParser.cxx")],
     "grammar-based generation against a reference translation; coverage-guided fuzzing of malformed input", "",
     observe=["the returned properties"])

prop("C27", "Channel option strings yield exactly the described channels, or an error",
     "A channel description on the command line yields exactly the sub-channels and values it spells, with defaults for the rest, and several descriptions yield the union; a string that is not a valid description is reported and never crashes the process.",
     ["inputs"],
     "all lists of strings over the sub-option grammar and beyond",
     "Tests parse about ten well-formed strings.",
     ["fairmq/SuboptParser.cxx", "fairmq/SuboptParser.h"],
     [("getsubopt loop", "fairmq/SuboptParser.cxx")],
     "grammar-based generation against a reference parser; coverage-guided fuzzing", "",
     observe=["the returned properties"])

prop("C28", "Command line options arrive as the properties they spell",
     "Parsing a command line stores every given option with the value and type spelled, defaults for the others, never lets an unknown option pass silently where that was not asked for, and the channel configurations given by string or file arrive as channel properties.",
     ["inputs", "configurations"],
     "all permutations and subsets of the documented options with all values, added options, malformed lines",
     "Tests parse two or three fixed command lines.",
     ["fairmq/ProgOptions.cxx", "fairmq/plugins/config/Config.cxx", "fairmq/DeviceRunner.cxx"],
     [("boost program_options with ParseDefaults", "fairmq/ProgOptions.cxx")],
     "grammar-based generation against a reference parser", "",
     observe=["stored properties"])

prop("C29", "The device runner and control plugin carry a device through its whole life",
     "For every static, configured start the runner loads the plugins, applies the hooks in the documented order, drives the device through its life cycle and returns its result code; a failure at any stage, also in user code, ends the run with an error instead of hanging or crashing. A request to end (SIGINT, SIGTERM, the command to quit) at any moment brings the device to its end through the regular states; every command given to the interactive controller, also in bursts, has its effect once and the end of its input has none. Log and printing options take effect as documented, also when they are changed later.",
     ["configurations", "fault_sequences"],
     "all combinations of control modes, startup and shutdown flags, hooks and failing stages",
     "Tests run a few fixed device executables.",
     ["fairmq/DeviceRunner.cxx", "fairmq/plugins/control/Control.cxx", "fairmq/runDevice.h"],
     [("RunWithExceptionHandlers", "fairmq/DeviceRunner.cxx")],
     "property-based testing over generated runs in child processes", "",
     observe=["exit code", "hook and state log"])

prop("C30", "Memory resources hand out usable memory and adopt it without copying",
     "Memory from a channel's memory resource is aligned as asked, disjoint while live, returned on deallocation, and a container living in it is turned into a message that holds exactly the container's bytes, without copy when the resources match and by copy otherwise; an allocation that cannot be satisfied is reported and leaves everything as it was.",
     ["histories", "inputs"],
     "all sequences of allocations, deallocations and container operations with all sizes and alignments, both transports",
     "Tests build two small vectors.",
     ["fairmq/MemoryResources.h", "fairmq/MemoryResources.cxx", "fairmq/MemoryResourceTools.h"],
     [("ChannelResource's map from pointer to message", "fairmq/MemoryResources.h")],
     "stateful model-based testing, ASan", "A stand-in transport is used where no real transport is needed.",
     observe=["ChannelResource::do_allocate, getMessage"])

prop("C31", "A parts container behaves as the sequence of messages put into it",
     "A multi-part container holds exactly the messages added, in order, owns each exactly once, and index, range, size, iteration, release and clear agree with that sequence; out-of-range access is reported.",
     ["histories"],
     "all sequences of adding single, several, moved messages and other containers, indexing, releasing, clearing, moving",
     "Tests add three messages.",
     ["fairmq/Parts.h"],
     [("vector of message pointers", "fairmq/Parts.h")],
     "stateful model-based testing, ASan", "",
     observe=["Parts interface"])

prop("C32", "Semaphores never lose or invent a signal",
     "Any number of concurrent waits and signals keep the count equal to initial plus signals minus completed waits and never below zero; a wait returns only when a unit was available, and every unit releases a waiter.",
     ["schedules", "histories"],
     "all interleavings of waits and signals from any number of threads, all initial counts, copied shared semaphores",
     "Tests use one thread.",
     ["fairmq/tools/Semaphore.h", "fairmq/tools/Semaphore.cxx"],
     [("counter under mutex and condition variable", "fairmq/tools/Semaphore.cxx")],
     "stateful testing with threads, conservation invariant", "",
     observe=["Wait, Signal, GetCount"])

prop("C33", "Small tools keep their contracts for all inputs",
     "Assembling a string (ToString) reproduces all arguments in order, turning a command line into strings keeps every argument, prefix and suffix tests (StrStartsWith, StrEndsWith) hold exactly for prefixes and suffixes, version comparison is a total order consistent with its fields, an instance limit admits exactly the allowed number of live objects, a scope-exit action runs exactly once if enabled and never otherwise, and raw terminal input lasts exactly as long as its object and changes nothing else.",
     ["inputs", "histories"],
     "all strings, version triples, sequences of construction (also failing) and destruction, enabling and disabling, and terminal settings",
     "Tests check a few literals.",
     ["fairmq/tools/Strings.h", "fairmq/tools/Version.h", "fairmq/tools/InstanceLimit.h", "fairmq/tools/Exceptions.h", "fairmq/tools/IO.h"],
     [("header-only helpers", "fairmq/tools")],
     "property-based testing against reference functions; algebraic laws", "",
     observe=["return values"])

prop("C34", "Unique ids are well-formed and never repeat",
     "Generated ids are well-formed random UUIDs and, like the generated hashes, pairwise distinct across calls, threads, forked processes and separate processes, even where clocks and process ids agree.",
     ["schedules", "inputs"],
     "all numbers of calls, concurrent callers, forks and processes",
     "No test compares ids.",
     ["fairmq/tools/Unique.cxx", "fairmq/tools/Unique.h"],
     [("random uuid generator", "fairmq/tools/Unique.cxx")],
     "property-based testing across threads and processes", "",
     observe=["Uuid, UuidHash"])

prop("C35", "Running a command returns its output, exit code and input faithfully",
     "Executing a command returns its exact exit code (or the number of the signal it died from) and its complete output on both streams, line by line and in order with the given prefix on every line, feeds the given input to it in full, delivers the given signal, and never mixes, loses or truncates output, whatever its amount or chunking, also with several commands at once.",
     ["inputs", "schedules"],
     "all commands, outputs of any size and chunking, inputs, exit codes",
     "Tests run two commands.",
     ["fairmq/tools/Process.cxx", "fairmq/tools/Process.h"],
     [("boost asio pipes", "fairmq/tools/Process.cxx")],
     "property-based testing with a scripted child as oracle", "Commands only write to their own pipes.",
     observe=["execute_result"])

prop("C36", "Plugins are found, loaded once, in order, or the failure is reported",
     "Plugin names resolve along the configured search paths in their documented order and prefix forms, each requested plugin is instantiated exactly once in the requested order, later additions do not disturb earlier ones, and anything that cannot be loaded is reported by the documented exception.",
     ["inputs", "configurations", "histories"],
     "all search path lists with override, prepend and append forms, existing and missing directories, name forms, repeated loads",
     "Tests load two fixed plugins.",
     ["fairmq/PluginManager.cxx", "fairmq/PluginManager.h", "fairmq/Plugin.h"],
     [("search path list and dll import", "fairmq/PluginManager.cxx")],
     "stateful model-based testing with generated plugin directories", "Plugins are built by the check in a scratch directory.",
     observe=["PluginManager queries, instantiation log"])

prop("C37", "The tidy tool flags exactly the deprecated type names",
     "The source checker reports a diagnostic with a correct replacement at every use of a deprecated, non-namespaced type name in any C++ program, and no diagnostic anywhere else.",
     ["programs"],
     "all C++ programs using the old and new type names in declarations, templates, functions, members and aliases",
     "Its test is not built here and covers one file.",
     ["fairmq/tidy/ModernizeNonNamespacedTypes.h", "fairmq/tidy/Tool.h", "fairmq/tidy/runTool.cpp"],
     [("AST matchers", "fairmq/tidy/ModernizeNonNamespacedTypes.h")],
     "generated programs with known answer", "",
     observe=["diagnostics"])

prop("C38", "Shared memory block headers keep payload and reference count apart",
     "For every allocation alignment and size, the header, the reference count and the user data of a shared memory block do not overlap, the user data is aligned as asked and fits in the allocated size, the count is exact under concurrent increments and decrements, and names derived from session and user ids are deterministic, distinct and of the fixed form.",
     ["inputs", "schedules"],
     "all alignments and sizes, all reference count interleavings, all session names, users and ids",
     "Tests check one address computation.",
     ["fairmq/shmem/Common.h", "fairmq/shmem/Common.cxx"],
     [("ShmHeader offset computations", "fairmq/shmem/Common.h"), ("makeShmIdString", "fairmq/shmem/Common.cxx")],
     "property-based testing of the layout functions", "",
     observe=["ShmHeader functions, makeShmName"])

prop("C39", "Connected peers are counted correctly",
     "Once connections over tcp or ipc are up, a socket reports exactly the number of peers currently connected to it, as peers come and go; sockets do not affect each other, whatever their names and however they end.",
     ["histories"],
     "all sequences of peers connecting and disconnecting, address kinds, socket types, both transports",
     "One test connects two peers.",
     ["fairmq/zeromq/Socket.h", "fairmq/shmem/Socket.h"],
     [("socket monitor events", "fairmq/zeromq/Socket.h")],
     "stateful testing, eventual agreement with the model", "Waits until the expected count is reached, with a hang limit.",
     observe=["Socket::GetNumberOfConnectedPeers"])

prop("C40", "Rate limiting never exceeds the configured rate over the long run",
     "A rate limited loop does not run more iterations than its rate allows over any long interval and never stalls, whatever the duration of its iterations.",
     ["schedules", "configurations"],
     "all rates and iteration durations",
     "No test measures it.",
     ["fairmq/tools/RateLimit.h"],
     [("batch-adaptive sleep", "fairmq/tools/RateLimit.h")],
     "property-based testing with a stand-in clock", "",
     observe=["calls to the clock"])
