# Further properties; executed by props.py.
PC = "lib/pubsub/ps_channel.go"
PT = "lib/pubsub/ps_topic.go"
PM = "lib/pubsub/ps_mgr.go"

prop("P01", "A channel's subscriber gets what is published, once and in order",
 "An actor that has subscribed to a channel of a topic handles every message published to the topic from any node from then on exactly once, in the order published, with event and body unchanged, whatever the number and timing of the messages. If the store fails for a command a message is handled at most once, and the subscription goes on with later messages, also after the store lost the topic.",
 [S, I, F], "Up to 25 messages of up to two publishers on two nodes, one lost command at every point, the loss of the topic, all interleavings within the deviation bound.",
 "Tests publish a few messages with pauses; loss, duplication and reordering depend on schedule, batch sizes and faults.",
 [PC, PT, RT], [("read loop", PC+":loop"), ("delivery to the mailbox", PC+":addHandlers"), ("Sub", RT+":Sub")],
 "stateless exploration of the real pub/sub code against an in-memory stream store with injected faults", ["handled messages"])

prop("P02", "Channels of a topic are independent; subscribers of one share it",
 "Every channel of a topic gets every message published to it, whatever other channels exist, on whichever node and however fast they are. Subscribers of the same channel share its messages: each is handled by exactly one of them. A message is removed from the store once all channels have handled it.",
 [S, C], "Two channels on one and two nodes, one starting while the other runs, two subscribers of one channel, two topics; all interleavings within the deviation bound.",
 "Whether the fast channel takes a message away from the slow one depends on the schedule.",
 [PC, PT], [("acknowledge, then delete when no channel needs it", PC+":ack")],
 "stateless exploration against an in-memory stream store", ["handled messages per channel", "length of the stream"])

prop("P03", "A subscriber that stops and starts again misses nothing",
 "Messages published while the subscriber of an existing channel is stopped, stopping, starting or moving to another node are handled exactly once, in order, when it has started. An actor that has exited handles no more messages and takes none away from the next subscriber. A new channel gets only what is published after it was created.",
 [S, H], "Stops, restarts and moves at every point relative to the published messages.",
 "The loss happens between reading a message and the end of the actor; tests do not stop subscribers.",
 [PC, RT], [("Stop hands over what was read", PC+":Stop"), ("subscriptions end before the mailbox", RT+":Exit")],
 "stateless exploration against an in-memory stream store", ["handled messages before and after the stop"])

prop("P04", "A topic exists once per node and lives as long as it is needed",
 "Any actor of any node can publish to a topic whether or not the node subscribed to it. Creating a topic, also from several goroutines or nodes at once, gives one topic per node and delivers nothing by itself; its options (life time) take effect. Closing a topic removes it from the store only if it has neither messages nor subscribers.",
 [S, C], "Concurrent creation on one and two nodes, publication before subscription, expiry, close with and without messages and subscribers.",
 "Tests create a topic once, before use.",
 [PT, PM], [("newTopic", PT), ("GetOrCreateTopic", PM)],
 "stateless exploration and exhaustive enumeration against an in-memory stream store", ["stream, topic list, returned objects"])

NW = "core/node.go"
prop("S09", "A node that leaves drains its actors and takes its records with it",
 "Exit of a node that is registering no actors ends when every message its actors accepted has been handled, and leaves no actor record, type record, weight or node entry of it in the address book, while those of other nodes stay as they were. Calls and sends that arrive meanwhile are handled or reported as failed, never dropped silently. After SIGTERM or SIGINT WaitClose returns once everything is drained, at the latest after thirty seconds.",
 [S, C], "Every placement of actors, Exit against calls, sends, registrations on the other node and removals, both nodes at once, return of a node; all interleavings within the deviation bound.",
 "Tests exit idle nodes; what is lost depends on what is under way when the exit begins.",
 [PROC, SYS, AB], [("WaitClose", PROC+":WaitClose"), ("Exit", SYS+":Exit"), ("Clear", AB+":Clear")],
 "stateless exploration of one and two nodes on a virtual clock against an in-memory store", ["handled messages, records in the store, WaitClose's return"])

prop("S10", "Store failures and crashes leave no record that cannot be cleared up",
 "A registration that fails because the store fails leaves neither a running actor nor a counted record, and once the store answers again the id can be registered, the removed id registered anew, and records, limits and weights match the running actors. A node that dies at any point of registering, removing or leaving and is started again with the same id reaches that state too by registering its actors and leaving in order.",
 [F, K, H], "One or two failing store commands, with and without effect, and a crash before or after every store command of register, unregister and exit.",
 "A half-done registration needs a failure between two particular commands.",
 [SYS, AB], [("registerScript and its undo", AB+":Register"), ("unregisterScript", AB+":Unregister"), ("Clear is one transaction", AB+":Clear")],
 "exhaustive enumeration of fault patterns and crash points on the real code against an in-memory store", ["records, type sets and weights in the store"])

prop("S11", "A dead node or a stale record costs one error, not the caller",
 "Calls and sends to an actor whose node has died end in an error well before the call timeout, also when the node dies during the call, and the caller goes on. Once the node is back, or the actor runs elsewhere, calls reach it again. A record that names a node which does not run the actor is an error for the call that meets it and is removed, unless the id is being registered there.",
 [H, S, K], "Death before, during and after calls, return and move, stale records of every kind, against a concurrent registration.",
 "Tests have no dying nodes.",
 [SYS, GC, AB], [("dropStale", SYS+":dropStale"), ("connections of the client", GC)],
 "stateless exploration of two nodes with node deaths at every point of a call", ["Call's error and virtual time, records"])

prop("S12", "Address book lookups answer from all the records",
 "A lookup by id gives the record of that actor or an error; by type all actors of the type, each once; a count the size of that list. The least loaded node for a type is a node whose weight is minimal, and a wildcard pick is an actor of the type whose node is no heavier than that of any other considered (up to ten, drawn at random). If the store fails the answer is an error, never a wrong record.",
 [C, F], "Every placement of up to three actors on two nodes with several weights, every order in which maps and sets are iterated, one failing command.",
 "The order of map iteration is random; tests have one layout.",
 [AB], [("GetLowWeightNodeForActor", AB), ("GetWildcardActor", AB), ("GetByType", AB)],
 "exhaustive enumeration of layouts, iteration orders and faults on the real code", ["lookup results"])

prop("L01", "The mailbox queue loses, repeats and reorders nothing and always wakes",
 "What producers push, from any number of goroutines, is popped exactly once, the elements of one producer in the order pushed. A consumer that waits for the signal when the queue is empty is woken whenever something is in it. Empty and Count agree with what can be popped when nothing is under way.",
 [S, H], "Up to three producers and a sleeping or polling consumer, all interleavings within the deviation bound; all sequences of operations up to length 7 (10).",
 "A lost wake-up is a window of two instructions between test and wait.",
 [MPSC], [("Push and Pop", MPSC)],
 "stateless exploration with every atomic operation a scheduling point", ["popped elements"])

UB = "lib/unbounded/unbounded.go"
prop("L02", "The unbounded channel delivers everything once and in order",
 "Put never blocks, and a reader that receives from Get and calls Load after each value receives every element exactly once, those of one writer in the order put. Len is the number of elements waiting behind the one that can be received.",
 [S, H], "Up to three writers and a reader, all interleavings within the deviation bound; all sequences up to length 8 (10).",
 "An element stays behind only if Put and Load overlap in a particular way.",
 [UB], [("Put and Load", UB)],
 "stateless exploration and exhaustive operation sequences against a list", ["received elements"])

DM = "lib/dismutex/dismutex.go"
prop("L03", "A distributed lock has one holder, and only its holder releases it",
 "At most one caller holds the lock of a key, for as long as it holds it within the expiry, also when the store loses commands or replies. Unlock with a value that is not the current holder's releases nothing and says so. A lock whose holder died or forgot it is free after its expiry; a free lock is acquired, and a lock that stays held is given up after the retries with an error.",
 [S, F, K], "Two and three lockers, holders that are slow, late or die, one or two failing store commands, all interleavings within the deviation bound on a virtual clock.",
 "Tests have one locker at a time, or sleep.",
 [DM], [("Lock", DM+":Lock"), ("Unlock", DM+":Unlock")],
 "stateless exploration against an in-memory store on a virtual clock", ["holders at once, results of Lock and Unlock"])

TI, TT = "lib/timer/timer.go", "lib/timer/timer_tick.go"
prop("L04", "A tick task runs at its times, in one loop, until it is stopped",
 "A started tick task runs first after its due time and then once per interval, never twice at once, whatever its runs do: an error or a panic reaches the exception handler once and the task goes on at its interval. Stopped, removed or replaced by a task of the same name, before it is due or at any later time, it begins no further run, and started again it starts over. Starting a running task, stopping a stopped one and tasks that are switched off change nothing; the service may be used by several goroutines.",
 [H, I, S], "All sequences of start, stop and waiting up to length 5 (6), every pattern of errors and panics over four runs, stops at the moment of a tick, concurrent use.",
 "There are no tests; a doubled loop shows only after a panic or a restart at the wrong moment.",
 [TI, TT], [("startTickTask", TT), ("stop", TI)],
 "stateless exploration on a virtual clock against the exact list of run times", ["times of the runs"])

prop("L05", "RPC calls get their own answer, and a failed call gives its slot back",
 "Concurrent calls of one client, to one or several servers, each get the response to their own request or an error, and reach a handler at most once; every failure (handler error, cancelled context, deadline, stopped server, unknown address, lost message) is an error by the deadline. No more than the configured number of calls are under way at once, and a call that has ended in any way makes room for the next. An address has one connection however many calls go to it, at once or in turn. Interceptors run once per call in the order given. Close of a graceful server answers the calls in progress and takes no more.",
 [H, F, S], "All sequences of good and failing calls up to length 4 (5) with limit one, concurrent calls within the deviation bound, lost messages.",
 "A leaked slot blocks only the call after many failures.",
 [GC, GS], [("Call and CallWait", GC), ("Close", GS)],
 "stateless exploration of client and server over an in-process transport", ["responses, handler runs, time"])

SR = "lib/tracer/slow_reporter.go"
prop("L06", "The span reporter delivers what it accepted before its sender closes",
 "Spans reported before Close is called are handed to the sender exactly once, those of one goroutine in order, and are flushed before the sender is closed, which happens once however often Close is called. Report never blocks: when the queue is full spans are dropped. Without Close spans are flushed about once a second; the sender is never used by two goroutines or after it was closed.",
 [S], "Reports and Close from several goroutines, all interleavings within the deviation bound, on a virtual clock.",
 "What is lost depends on where the queue goroutine is when Close begins.",
 [SR], [("processQueue", SR), ("Close", SR)],
 "stateless exploration of the real reporter with a recording sender", ["what the sender got"])

TK = "lib/token/token.go"
prop("L07", "A token gives back exactly the id it was made for, or nothing",
 "Parse of a token made by Create gives the same id, for every id that Create accepts; the empty id is not accepted. Any other text, such as a token with a byte changed, removed or added, parts of different tokens put together, one signed with another key or not at all, or claims without an id, is an error or the unchanged id, never another one.",
 [I], "Every id up to three (four) characters of an alphabet with every kind of character, every one-byte change of several tokens, every recombination of two.",
 "Tests check one id and no damaged token.",
 [TK], [("Create", TK+":Create"), ("Parse", TK+":Parse")],
 "exhaustive enumeration of the inputs on the real code", ["Parse's result"])

MC = "router/msg/msg_custom_map.go"
prop("L08", "Custom fields of a message read back as they were written",
 "A field written to the request or response of a message, alone or with others, in one step or several, is read back with the same value by GetReqCustomField or GetResCustomField for every scalar type, up to 2^53 for integers, and remotely as locally; fields written before stay. A missing field or one of another type reads as zero. A value that cannot be written is reported and changes nothing. Objects are read back equal, and a message built with other serializers uses them both ways.",
 [I], "Every scalar type at its bounds, in requests and responses, in every order of writing, local and remote.",
 "Tests use a few types.",
 [MC, "router/msg/msg.go", "router/msg/map_custom_object.go"], [("GetReqCustomField", MC), ("WithReqCustomFields", MC)],
 "exhaustive enumeration of the inputs on the real code", ["values read back"])

EN = "core/entity.go"
prop("L09", "Entity versions are walked upwards one by one, whatever their order",
 "The version after a given one is the smallest registered version above it, or the same one if there is none, whatever the order in which strategies were registered and also when they are registered concurrently. The strategy of a registered version is found, that of any other is reported as not found.",
 [I, S], "Every set of up to four versions in every order of registration, concurrent registrations and lookups.",
 "There are no tests; the order of registration is that of package initialisation.",
 [EN], [("GetNextVersion", EN), ("RegisterVersionStrategy", EN)],
 "exhaustive enumeration and stateless exploration against a reference list", ["GetNextVersion, GetVerStrategy"])

FI = "utils/file/file.go"
prop("L10", "A file reads as what was last written to it",
 "After SaveFile or WriteJSON the file holds exactly the bytes given, whatever it held before, and other files are unchanged. Exist tells whether it is there, reading a missing file is an error. The stem and the extension of a name make up the name.",
 [H, I], "All sequences of three (four) writes of different lengths to two files; all names up to four (five) characters of an alphabet.",
 "There are no tests.",
 [FI], [("WriteJSON", FI), ("SaveFile", FI)],
 "exhaustive enumeration of operation sequences against a reference map, in a scratch directory", ["file contents"])

LG, LO, LF = "lib/log/helper.go", "lib/log/options.go", "lib/log/flow.go"
prop("L12", "A log line is written whole, once, from its level up",
 "Every call of a log function at or above the level of the logger in use writes one line, in order, with its level, its formatted text and its fields, below the level none; to the file, and to the standard output if that was asked for. With the caller asked for, the line names the code that logged it. A log that outgrows its file goes on in the next one without losing a line. A flow's fields are the common ones, then its own, grouped under a key on request.",
 [H, I], "All sequences of two (three) calls of the log functions at every level; all combinations of the caller options; rotation sizes and line counts; all flows of up to four fields and groupings.",
 "There are no tests of the log package.",
 [LG, LO, LF], [("Log and SystemLog", LG), ("NewLogger", LO), ("TaDataFields", LF)],
 "exhaustive enumeration of call sequences and options against the lines expected, in a scratch directory", ["the JSON lines in the files"])

WG = "lib/warpwaitgroup/warpwaitgroup.go"
prop("L11", "A counted wait group is released exactly when its count is back at zero",
 "Wait returns when, and not before, every Add has been matched by a Done, also when work adds more work before it is done and when the group is used again. Count is the number of Adds not yet matched.",
 [S], "Two workers, nested work and reuse, all interleavings within the deviation bound.",
 "The count and the group are two variables; tests see them at rest.",
 [WG], [("Add, Done and Wait", WG)],
 "stateless exploration", ["Wait's return, Count"])

EC = "lib/errcode/errcode.go"
prop("L13", "An error code is found again however its error was wrapped",
 "The code and message of an error code are those of any error that wraps it, by github.com/pkg/errors or with %w, to any depth; an error that holds no code counts as the unknown code with its text, no error as OK. Two codes are equal exactly if their numbers are, whatever their messages. A code of one's own that is not positive is refused.",
 [I], "All sample errors in all wrappings up to depth three (four), all pairs of codes.",
 "There are no tests; a wrapping that hides the code shows as an unknown error far from where it was made.",
 [EC], [("Cause and Equal", EC)],
 "exhaustive enumeration of the inputs on the real code", ["codes, messages, equality"])

SP, SG = "lib/span/span_call.go", "lib/span/span_grpc.go"
prop("T01", "Tracing follows a call across actors and nodes and changes nothing",
 "With a tracer, each Call and Send of a system is one span, and each hop to another node one span at either end; the spans of one chain of calls form one trace in which each is the child of the one that caused it, down from the caller's own span if there is one. Two chains at once are two traces. Every span is finished exactly once, also when the call fails, panics or times out. Results and errors are the same as without a tracer.",
 [C, S, I], "Chains of up to three actors on two nodes, every kind of target and outcome, two chains at once; all interleavings within the deviation bound.",
 "The tests do not look at spans.",
 [SP, SG, SYS, ACC], [("span of a call", SYS+":Call"), ("interceptors", SG)],
 "stateless exploration with a recording tracer", ["finished spans"])

RD = "3rd/redis/client.go"
prop("R01", "The redis helpers do exactly what their commands do",
 "Each helper of 3rd/redis (but CAD, a command of another server) gives the result of the command it is named after, has the same effect on the store and reports its error, in every state of the key; a transaction is applied as a whole. GetCmdsByteSlice returns the results before the first failed command together with its error.",
 [H, F], "Every sequence of two (three) out of fifty helpers on a key, also sequences of three that start on each data type, a failing command for each; compared with the client's own methods.",
 "Tests use a few helpers on fresh keys.",
 [RD, "3rd/redis/client_utils.go"], [("helpers", RD)],
 "exhaustive enumeration of operation sequences against an in-memory store, compared with the commands themselves", ["results and store contents"])

MG, MM, MO = "3rd/mgo/collection.go", "3rd/mgo/mgr.go", "3rd/mgo/mgr_opts.go"
prop("R02", "The mongo helpers do exactly what their commands do",
 "Every helper of a collection sends the command the driver itself would send for the same arguments, to the server of its database and to no other, and returns the driver's result or error; a database nobody connected to is refused. Databases on one server are told apart by name. With a tracer that gives spans, each traced command is one span, begun and ended; with one that gives none, nothing changes.",
 [I], "Every helper with every combination of filter, document, kind of reply (success, command error, write error), database and tracing.",
 "The repository has no test of these helpers.",
 [MG, MM, MO], [("helpers", MG), ("Build and Collection", MM), ("AppendConn", MO)],
 "exhaustive enumeration of helpers, arguments and replies against the driver's own methods, over a recording server", ["commands sent", "results and spans"])

prop("P05", "Closing a channel ends its own subscription and no one else's",
 "After Close of a channel object has returned it passes no message on and takes none from the store, whatever is published meanwhile or later. When it was the channel's only subscriber the channel is gone from the topic, so that the topic can be closed and a later channel of the same name begins anew; otherwise the other subscribers of the channel get every message that was not passed on before, and other channels lose nothing. Close after Stop or Close returns promptly, and a Close whose store commands fail reports it.",
 [S, F, H], "One or two subscribers of one or two channels, closed alone, together, twice, after Stop, against two publications, opened again; one lost store command at every point (two in the thorough check); all interleavings within the deviation bound.",
 "The tests close channels of topics nobody publishes to; what a closing reader takes with it depends on the schedule.",
 [PC, PT], [("Close", PC+":Close"), ("Stop ends the read loop", PC+":Stop"), ("read loop", PC+":loop")],
 "stateless exploration of the real pub/sub code against an in-memory stream store with injected faults", ["messages passed on, consumer groups in the store, results of Close"])
