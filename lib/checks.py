"""The table of checks: what each is built from and for how long it searches."""
import build as B


CHECKS = {}


def check(pid, rule, parts, level="exploration", assumptions=()):
    CHECKS[pid] = {"rule": rule, "parts": parts, "level": level, "assumptions": list(assumptions)}


check("C24", "A case is a generated history of subscribe, unsubscribe and emit over up to 5 (event, signature) kinds and 5 subscribers "
      "(with callbacks that unsubscribe themselves, subscribe others or emit), or a set of threads with generated plans. "
      "Non-trivial: at least one emission reached a subscriber and there was a second subscription, a replacement or a cancellation.",
      [{"src": "src/c24_events.cpp", "tus": ["EventManager"], "opt": "-O0", "quick_s": 10, "min_cases": 500},
       {"src": "src/c24_events.cpp", "tus": ["EventManager"], "san": "tsan", "cov": False, "opt": "-O0", "extra": ["-DFEW_KINDS"], "quick_s": 5, "min_cases": 50, "workers": 4,
        "only": "threads,same_subscriber"}])

check("C10", "A case is every enumeration value in turn (exhaustive), or a text made from the names by random edits, or an integer used as an enumeration value. "
      "Non-trivial: all of them.",
      [{"src": "src/c10_names.cpp", "tus": ["States"], "quick_s": 10, "min_cases": 1000}])

check("C31", "A case is a generated history of operations on three containers and the messages taken out of them, compared after every step with "
      "vectors of message ids and a ledger of destructions. Non-trivial: at least three operations and two messages.",
      [{"src": "src/c31_parts.cpp", "quick_s": 10, "min_cases": 500}])

check("C09", "A case is a generated sequence of pushes, waits of every kind and clears compared with a FIFO, or producer and consumer threads with generated plans. "
      "Non-trivial: at least two states delivered or an error reported; for threads, more than three states.",
      [{"src": "src/c09_statequeue.cpp", "more": ["lib/schedule.cpp"], "tus": ["States"], "quick_s": 10, "min_cases": 500},
       {"src": "src/c09_statequeue.cpp", "more": ["lib/schedule.cpp"], "extra": ["-DNO_INTERPOSE"], "tus": ["States"], "san": "tsan", "cov": False, "quick_s": 5, "min_cases": 50,
        "only": "two_threads,producers,custom_signal"}])

check("C25", "A case is a generated value of one of the 36 supported property types (or of an unsupported or added type), compared in printed form, label, "
      "streamed form and typed announcement with reference printers (printf). Non-trivial: the value prints as a non-empty text, or somebody is subscribed.",
      [{"src": "src/c25_values.cpp", "more": ["src/c25_A.cpp", "src/c25_B.cpp", "src/c25_C.cpp", "src/c25_D.cpp"], "tus": ["Properties", "EventManager"],
        "opt": "-O0", "quick_s": 12, "min_cases": 500}])

check("C32", "A case is a generated sequence of operations on one semaphore, or up to six threads with generated plans of waits, signals and reads under a generated "
      "schedule (a thread switch is possible at every lock, unlock, wait and notify; waits may end spuriously), or real threads. "
      "Non-trivial: a wait and more than four thread switches, or more than two operations.",
      [{"src": "src/c32_semaphore.cpp", "more": ["lib/schedule.cpp"], "tus": ["tools/Semaphore"], "quick_s": 10, "min_cases": 500}])

check("C33", "A case is a generated list of arguments, pair of strings, triple of versions, history of constructions and destructions of limited objects, sequence of "
      "enable and disable on a scope-exit action, or terminal setting. Non-trivial: the inputs are not empty; the history has more than three steps.",
      [{"src": "src/c33_tools.cpp", "san": "ubsan", "quick_s": 8, "min_cases": 1000, "ldextra": ["-lutil"]}])

check("C40", "A case is a rate and a constant or phase-wise constant iteration duration (with sleep overhead), simulated for 200 to 100000 iterations against a stand-in clock. "
      "Non-trivial: the limiter slept, or the work is slower than the rate; more than one phase.",
      [{"src": "src/c40_rate.cpp", "opt": "-O1", "quick_s": 8, "min_cases": 200}])

check("C34", "A case is a number of ids and hashes generated in one thread, several threads, forked processes (before or after the first id) or new processes, "
      "with or without clocks and process ids agreeing; none may ever repeat. Non-trivial: more than two ids.",
      [{"src": "src/c34_unique.cpp", "tus": ["tools/Unique"], "quick_s": 8, "min_cases": 300},
       {"src": "src/c34_unique.cpp", "tus": ["tools/Unique"], "san": "tsan", "cov": False, "quick_s": 4, "min_cases": 20, "only": "threads", "workers": 4}])

check("C35", "A case is a script for a child process (output on both streams in generated chunks, pauses, early closing, input to read, exit code or death by a signal). "
      "Non-trivial: there is output, input, a signal or a non-zero exit code.",
      [{"src": "src/c35_process.cpp", "tus": ["tools/Process"], "quick_s": 14, "min_cases": 100}])

check("C38", "A case is a set of blocks with generated sizes, alignments (up to 4 MiB, powers of two and others) and addresses and a history of writes and count changes; "
      "threads copying and releasing; a history of allocations and shrinkings; or a session, user and number. Non-trivial: the block has data; a block was shrunk; all ids.",
      [{"src": "src/c38_shm.cpp", "tus": ["shmem/Common"], "opt": "-O1", "san": "ubsan", "quick_s": 10, "min_cases": 300}])

check("C30", "A case is a history of allocations, deallocations and messages taken out and put back on two resources; of operations on a vector (five element types) or string "
      "that is turned into a message for the same, another or no resource; or of several containers with memory running out. Non-trivial: more than three steps; the container is not empty.",
      [{"src": "src/c30_pmr.cpp", "tus": ["MemoryResources"], "opt": "-O0", "quick_s": 10, "min_cases": 500}])

check("C07", "A case is a generated channel configuration (name, type, method, endpoints, limits; well-formed or damaged) compared with a reference validator; a history of setters, "
      "copies, assignments, moves and validations of three channels; a channel made from properties; or a history of operations on a channel with a stand-in socket. "
      "Non-trivial: every configuration; more than two steps; at least one property given.",
      [{"src": "src/c07_channel.cpp", "tus": ["Channel", "MemoryResources"], "opt": "-O0", "quick_s": 10, "min_cases": 500}])

check("C08", "A case is every pair of state and transition in turn (exhaustive); a walk of requests (valid, invalid, repeated, with exceptions and changing subscribers) compared with the "
      "documented table; or several requesting threads, the processing thread and waiters under a generated schedule, judged by the history of callbacks. "
      "Non-trivial: more than two states visited and a request refused; more than five thread switches.",
      [{"src": "src/c08_fsm.cpp", "more": ["lib/schedule.cpp"], "tus": ["StateMachine", "States"], "quick_s": 12, "min_cases": 500}])

check("C26", "A case is a generated document (devices with id or key, channels, sub-channels, inherited, missing and extra fields, any order, layout and spelling of values) with the properties it must yield; "
      "or a damaged document. Non-trivial: the selected device has a channel; every damaged document.",
      [{"src": "src/c26_json.cpp", "tus": ["JSONParser", "Properties", "EventManager"], "opt": "-O1", "quick_s": 10, "min_cases": 500}])

check("C27", "A case is a generated list of channel descriptions with the properties they must yield, or an arbitrary, damaged or incomplete description. "
      "Non-trivial: a sub-channel is described; every damaged description.",
      [{"src": "src/c27_subopt.cpp", "tus": ["SuboptParser", "JSONParser", "Properties", "EventManager"], "opt": "-O1", "quick_s": 10, "min_cases": 500}])

check("C37", "A case is a generated program with uses of deprecated names at known places (declarations, templates, bases, casts, lambdas, macros, several files) between look-alikes; "
      "or a broken program. Non-trivial: the program has a use; every broken program.",
      [{"src": "src/c37_tidy.cpp", "san": "none", "cov": False, "opt": "-O0", "quick_s": 10, "min_cases": 100,
        "extra": ["-I/usr/lib/llvm-18/include", '-DINCLUDE_DIRS="%s/stubs","%s","%s/fairmq"' % (B.VERIF, B.REPO, B.REPO)],
        "ldextra": ["-L/usr/lib/llvm-18/lib", "-lclang-cpp", "-lLLVM"]}])

_PO = ["ProgOptions", "Properties", "EventManager", "Channel", "MemoryResources"]
check("C22", "A case is a generated history of changes and queries of every kind (single, batch, regular expression, prefix, wrong type, missing key) over 15 value types compared with a map; "
      "of channels stored and made again from the properties; or several threads with generated plans under a generated schedule. Non-trivial: more than one change; more than one channel; more than three thread switches.",
      [{"src": "src/c22_progopts.cpp", "more": ["lib/schedule.cpp"], "tus": _PO, "opt": "-O0", "quick_s": 10, "min_cases": 300, "only": "map_history,channels,scheduled"},
       {"src": "src/c22_progopts.cpp", "more": ["lib/schedule.cpp"], "extra": ["-DNO_INTERPOSE"], "tus": _PO, "opt": "-O0", "san": "tsan", "cov": False, "quick_s": 5, "min_cases": 20, "only": "threads", "workers": 4}])

check("C23", "A case is a generated history of subscriptions (typed, as string, again, cancelled, with callbacks that change or delete properties) and changes, each compared with the exact set of notifications due. "
      "Non-trivial: somebody was told and there was more than one change.",
      [{"src": "src/c22_progopts.cpp", "more": ["lib/schedule.cpp"], "tus": _PO, "opt": "-O0", "quick_s": 10, "min_cases": 300, "only": "notify_history,scheduled"}])

check("C28", "A case is one or several generated command lines over the documented options and generated ones (every spelling, order and value kind), compared with the table of options; a line damaged in one place; "
      "or a choice of channel configurations by file and text carried through a device's initialization. Non-trivial: the line has an argument; the device gets a channel.",
      [{"src": "src/c28_cmdline.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 10, "min_cases": 300}])

_MSG = "A case is a generated history of up to 60 operations (create and rebuild in all forms, write, resize, copy, send and receive singly and in parts, destroy) on up to ten messages of two factories, "
_MSGN = " Non-trivial: more than three operations, of which two send, copy or resize."
check("C02", _MSG + "compared after every operation with what each message must hold." + _MSGN,
      [{"src": "src/c02_messages.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 14, "min_cases": 300, "only": "content_zmq,content_shm"}])
check("C03", _MSG + "with a ledger of the callbacks of all user buffers." + _MSGN,
      [{"src": "src/c02_messages.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 14, "min_cases": 300, "only": "callbacks_zmq,callbacks_shm"}])
check("C04", _MSG + "with the addresses, reference counts and free memory of the shared segments compared with what is live." + _MSGN,
      [{"src": "src/c02_messages.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 14, "min_cases": 300, "only": "memory_shm"}])

check("C05", "A case is a generated history over one to three devices and one to three unmanaged regions: messages over blocks, copies, transfers between the devices, bursts, the end of messages, devices and regions in any order; "
      "every acknowledgement is compared with what refers to the block. Non-trivial: more than four operations, one of which copies or sends.",
      [{"src": "src/c05_regions.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 16, "min_cases": 100}])

check("C06", "A case is a generated history of creating (every overload, automatic or chosen id, kept, backed by a file), destroying and listing regions in up to four devices that come and go, subscribing and unsubscribing, "
      "and messages over ranges inside, across and outside the bounds; or several threads creating, destroying and listing. Non-trivial: more than one region and a listing; more than one thread.",
      [{"src": "src/c06_regioninfo.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 15, "min_cases": 100}])

check("C01", "A case is a generated history of sends and receptions (single and multi-part, all kinds and sizes of messages, timeouts, full queues) over 1-3 x 1-3 peers of a pattern over inproc, ipc or tcp, "
      "or a thread per peer doing so; every reception is compared with what is due. Non-trivial: more than two messages sent.",
      [{"src": "src/c01_transfer.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 16, "min_cases": 100}])

check("C13", "A case is a generated history of sends and receptions with generated timeouts on a channel with few places, with or without a peer, interrupted and resumed, some of them blocked in a thread until they are interrupted or become possible; "
      "of calls that break the rules of the pattern; or of threads sending and receiving while others interrupt and resume. Results, durations, counters, the failed call's messages and what arrives are compared with a model. "
      "Non-trivial: a call failed or was blocked.",
      [{"src": "src/c13_results.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 16, "min_cases": 60}])

check("C18", "A case is a generated history of setting options (directly, by the channel, before and after binding, invalid ones) on a socket of any kind, all read back after each step; "
      "or the number of messages that fit, the time a transport lingers and the buffers of the kernel for generated values. Non-trivial: an option was set.",
      [{"src": "src/c18_sockets.cpp", "extra": ["-DWITH_OPTIONS"], "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 12, "min_cases": 200}])
check("C39", "A case is a generated history of sockets that are made, bound (also again to the address of one that ended), connected and ended; all counts are compared with the model's when they have settled. "
      "Non-trivial: two sockets were connected.",
      [{"src": "src/c18_sockets.cpp", "extra": ["-DWITH_PEERS"], "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 12, "min_cases": 60}])
check("C14", "A case is a generated set of channels of different kinds and transports with sub-channels, of which some have messages waiting and some are full or not connected, and a history of sends, receptions, "
      "polls by generated pollers (over vectors, pointers or names, in any order; also while a message is coming) whose reports are compared with the model. Non-trivial: some but not all of several polled channels were readable.",
      [{"src": "src/c14_poller.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 12, "min_cases": 60}])
check("C15", "A case is a generated history of messages of both transports (plain, aligned, shrunk, user's buffer, region, simple, copies) that are sent, alone or as mixed parts, also without success, over channels of both transports, received into messages of either and sent on. "
      "All contents are compared with the model, all buffers have to be given back exactly once. Non-trivial: a message crossed transports.",
      [{"src": "src/c15_cross.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 12, "min_cases": 60}])
check("C17", "A case is a generated history of messages created in every way, shrunk, copied and dropped in a small segment (of either allocation algorithm), including sizes and alignments that cannot fit; what is refused is compared with what the segment itself says, contents with the model, "
      "and all memory must be usable again; or attempts of generated number and interval, memory given back or an interruption while waiting, or threads at the limit. Non-trivial: a request was refused or had to wait.",
      [{"src": "src/c17_oom.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 12, "min_cases": 60}])
check("C11", "A case is a generated history of a device: a walk through the life cycle with refused and competing requests, hooks that throw, block, wait or ask for states themselves, channels of generated kinds that transfer messages and change between initializations, and configurations that cannot work; "
      "states, hooks, channels and the configuration are compared with the documented life cycle after each step. Non-trivial: initialized more than once, a hook threw, or more than six steps with channels.",
      [{"src": "src/c11_device.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 14, "min_cases": 100}])
check("C12", "A case is a generated history of take, steal, release, query, wait and transition calls by several plugins compared with a model of the one controller after each call; or such calls by plugins in threads, by a plugin that is told of states and by waiting threads, under generated schedules, "
      "for which a single order must exist that one controller explains. Non-trivial: something was refused and control or the state changed; for threads, more than three calls of which one was refused.",
      [{"src": "src/c12_control.cpp", "more": ["lib/schedule.cpp"], "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 12, "min_cases": 200}])
check("C20", "A case is a generated set of one to four input channels with sub-channels of generated kinds and transports and callbacks (single or multi-part, member function or not), and one to three runs with messages from peers sent before and while running, of which callbacks may end the loop or throw; "
      "every callback is compared with what was sent where. Non-trivial: more than four messages over more than one sub-channel.",
      [{"src": "src/c20_ondata.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 14, "min_cases": 40}])
check("C21", "A case is a merger, proxy, splitter or multiplier with generated inputs and outputs (kinds, transports, single or multi-part) and one to three runs with bursts of messages of generated contents, every output compared with what was sent; a sink with generated limits whose counts and file are compared with what was sent; "
      "or a sampler whose messages are counted and inspected. Non-trivial: more than three messages with several inputs or outputs (or a proxy); more than two messages for a sink, more than one for a sampler.",
      [{"src": "src/c21_stock.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 14, "min_cases": 40}])
check("C16", "A case is a generated history of up to three processes with devices in two sessions (segments, regions of all kinds, messages, listings, subscriptions), which end in any order or are killed between operations or at a generated call within one; "
      "after each step the objects in /dev/shm are compared with what may and must be there; what is left of killed ones is cleaned up in one of five ways, after which nothing may be left and the session must work from scratch. Non-trivial: more than one device, and a kill or a third device.",
      [{"src": "src/c16_sessions.cpp", "tus": B.ALL_TUS, "extra": ["-DBOOST_INTERPROCESS_MANAGED_OPEN_OR_CREATE_INITIALIZE_TIMEOUT_SEC=1"], "opt": "-O0", "quick_s": 16, "min_cases": 40}])
check("C19", "A case is a device with one to three channels of up to five sub-channels with up to three endpoints each (tcp by address, name, wildcard or interface, ipc, connecting ones in between), a range of 1 to 17 ports of which generated ones are occupied by other sockets, and automatic binding on or off; "
      "from the free ports it is known whether the device can initialize. If so, every bound port must be the asked or a free one of the range, published in channel and configuration, and a message sent there must arrive at that sub-channel; if not, the device must fail. "
      "Non-trivial: several bound endpoints, a moved one or too few ports.",
      [{"src": "src/c19_bind.cpp", "tus": B.ALL_TUS, "opt": "-O0", "quick_s": 14, "min_cases": 60}])
check("C36", "A case is a generated history of search path changes (set, prepend, append; existing, missing, empty paths and files), file searches, loads of single plugins and lists in every name form (repeated, missing, broken, without options or factory, builtin, linked to the program, only known to the dynamic linker) and instantiations on one manager, "
      "or a command line with such, over 14 directories with libraries in both file name forms; paths, loaded options, order, origin and number of the instances are compared with a model that looks at the directories itself. Non-trivial: two plugins loaded, or one loaded and one refused; for command lines, a plugin or two paths.",
      [{"src": "src/c36_plugins.cpp", "so": "src/c36_plugin.cpp", "tus": B.ALL_TUS, "opt": "-O0", "ldextra": ["-rdynamic", "-Wl,-rpath,$ORIGIN/../c36sys"], "quick_s": 10, "min_cases": 200}])
check("C29", "A case is a process with a device under the runner: a generated control mode, command line, hooks and plugins (also one that drives the device itself, and failing ones), a failing stage or hook, requests to end (SIGINT, SIGTERM) after a generated step, commands for the interactive controller (in bursts, refused ones, end of input), "
      "options that only print and log settings, with generated delays at locks; order of hooks, states and plugins, log settings and exit code are compared with the documented ones, and the process must end. Non-trivial: something fails, is commanded, signalled, printed, or a plugin or delays take part.",
      [{"src": "src/c29_runner.cpp", "tus": B.ALL_TUS, "opt": "-O0", "ldextra": ["-rdynamic"], "quick_s": 18, "min_cases": 60}])
