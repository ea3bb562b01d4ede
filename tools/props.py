#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = "core/actor/actor_runtime_impl.go"
SYS = "core/node/system_impl.go"
ACC = "core/node/system_acceptor.go"
PROC = "core/node/node_process_impl.go"
AB = "core/addressbook/addressbook_impl.go"
TM = "core/actor/actor_timer.go"
RE = "core/actor/actor_reenter_impl.go"
CH = "core/actor/actor_chain.go"
BLD = "core/actor/actor_build_impl.go"
CTX = "core/actor/actor_context_impl.go"
MPSC = "lib/mpsc/mpsc.go"
GC = "lib/grpc/client.go"
GS = "lib/grpc/server.go"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or []),
        note=note))

S, H, I, C, F, K = "schedules", "histories", "inputs", "configurations", "fault_sequences", "crash_points"

prop("A01", "One handler of an actor at a time, messages of one sender in order",
 "The event handlers and timer callbacks of one actor never overlap in time, and what one of them wrote is visible to the next without locks of the user's. Messages that one goroutine sends to one actor on its node are handled in the order sent, each exactly once.",
 [S], "All interleavings of up to three senders, synchronous callers and timers of one actor.",
 "The tests send from one goroutine or check only totals; overlap and reordering depend on the schedule.",
 [RT, MPSC, TM], [("one goroutine per actor drains the mailbox", RT+":Update"), ("multi-producer single-consumer queue", MPSC)],
 "stateless exploration of the real actor runtime; overlap, order, loss, duplication and data races (plain memory is tracked with vector clocks) are checked on every schedule within the deviation bound",
 ["handler entry and exit", "plain memory accesses of handlers"])

prop("A02", "A panicking or failing handler harms only its own message",
 "When a handler or timer callback returns an error or panics, the actor goes on and handles every other message sent to it exactly once, and the process stays alive. A synchronous caller of the failing handler still gets its answer rather than waiting for the timeout.",
 [S, I], "Every position of the failing handler among the messages, with returned errors, panics and runtime errors, under all interleavings with the senders.",
 "The tests have no panicking handler under concurrent load.",
 [RT, CH], [("recover around each message", RT+":Update")],
 "stateless exploration; a crash of the process is detected as a dead worker", ["handled messages", "caller's return"])

prop("A03", "A synchronous call returns after its whole chain, with the chain's response",
 "A Call that succeeds has run the called handler, and every handler that this one forwarded the message to, exactly once each before it returns. The caller then reads the response these handlers wrote to its own message, never another call's, also when one message object is used for several calls in a row.",
 [S, H], "Chains of up to three actors, fan-out, nested calls and reuse of the wrapper, with up to two concurrent callers, all interleavings.",
 "The tests have single chains; a missed or premature completion needs a particular interleaving of forwarding and finishing.",
 [RT, SYS, "router/msg/msg.go"], [("wait group of the wrapper", "router/msg/msg.go"), ("done channel of a call", SYS+":localCall")],
 "stateless exploration of local call chains; completion, response contents and data races between caller and handlers", ["Call's return", "response of the wrapper"])

prop("A04", "A call always ends by its deadline, with an error unless it was answered",
 "Every Call returns within its caller's deadline, or within the system's call timeout if that is earlier, even if the handler blocks, is queued behind a long one, forwards to one that blocks or two actors call each other. It returns an error unless its handlers finished; an unknown target or event is reported (or, for an event the actor does not know, ends) at once.",
 [S, I], "Slow, blocked, mutually calling and missing handlers on a virtual clock, with deadline and cancellation at every point, all interleavings.",
 "Tests cannot wait for every timing; they have one timeout case.",
 [SYS, RT], [("select on done, context and timeout", SYS+":localCall")],
 "stateless exploration on a virtual clock: timers fire at every point relative to the goroutines", ["Call's return and virtual time"])

prop("A05", "A call chain that would come back to the actor it began at is refused at once",
 "A call that would lead a chain of calls, each made from the handler of the one before, back to the actor the chain started from (the origin named in the message header) is refused with an error at once, instead of deadlocking until the timeout: whatever types the actors have and whichever nodes they run on. The other calls of the chain complete normally and later calls to the same actors succeed.",
 [S, C], "Rings of one to three actors, of one or of different types, on one or two nodes, by id and by type, two chains at once from both ends.",
 "The tests have one ring; which actors are in the chain depends on the route and schedule.",
 [SYS, CTX], [("the chain's origin travels with the message", SYS+":Call")],
 "stateless exploration of rings", ["Call's error and virtual time"])

prop("A06", "A message keeps its header, an actor its own context and options",
 "What a message is built with (id, origin, token, timestamp, custom fields, body) reaches its handler unchanged, whether the actor is local or remote, addressed by id or symbol, called or sent, and what the handler puts into the response's header and body reaches the caller of a synchronous call. A message that actors pass on names the first actor of the chain as its origin unless it had one, and, within a node, the type of the actor that passed it on last. An actor's context has the values of its registration and those the actor itself adds, which no other actor sees; id, type, system and calls of the context are its actor's. Options given to one actor builder reach that actor's constructor and no other builder, also when builders of one type are used at the same time.",
 [I, S], "Every subset of the header's parts, local and remote, by id and both symbols, called and sent; all four ways of passing a message on; two actors made with one context; builders of one type at once, with no, empty and preset options; all interleavings within the deviation bound.",
 "The tests look at the body and at few header fields, and use one builder of a type at a time.",
 [RT, CTX, BLD, "router/msg/msg.go", ACC], [("origin and previous type", RT+":Call"), ("WithValue", CTX+":WithValue"), ("WithOpt", BLD+":WithOpt"), ("WithReqHeader", "router/msg/msg.go:WithReqHeader")],
 "stateless exploration and exhaustive enumeration on the real runtime; concurrent map accesses are detected", ["header and body seen by the handler and by the caller", "options seen by the constructor"])

prop("A07", "An unregistered actor handles what it accepted, then nothing more",
 "Removing an actor waits for its running handler and for every message accepted before, if that takes no more than about ten seconds; afterwards no handler or timer callback of it runs. A concurrent Send or Call either is reported as failed or is handled, removing an actor twice harms nobody, and its id can be registered again.",
 [S], "Unregister at every point relative to sends, calls, timers and a second Unregister.",
 "Tests stop idle actors only; the losing interleavings are windows of a few instructions.",
 [RT, SYS, MPSC], [("Exit", RT+":Exit"), ("mailbox close and drain", RT+":Update")],
 "stateless exploration of the stop of an actor against every concurrent user", ["handled messages vs. accepted ones", "Unregister's return"])

prop("A08", "Timers fire at their due time and then at every interval, never early",
 "A timer with a due time fires first at that time and then once per interval; without a due time it fires first after one interval; without an interval it fires exactly once. Its callback gets the argument given with it. An actor that is free runs the callback at those times, independently of its other timers, and an error from a callback does not stop the timer. NextTrigger, Interval and IsActive tell when a timer fires next, how often, and whether it still does.",
 [S, I], "Every combination of due time and interval at coarse steps on a virtual clock, timers started before and in handlers, all interleavings.",
 "Wall-clock tests allow for slack and cannot see a missing or an extra tick at a boundary.",
 [TM, RT], [("timer goroutine", TM+":start")],
 "stateless exploration on a virtual clock, exact fire times compared", ["virtual time at each callback"])

prop("A09", "A cancelled timer stays silent and a reset one keeps its new interval",
 "After an actor cancels or stops one of its timers, that timer's callback does not run again, no matter whether it was waiting for its due time, between ticks or already queued for the actor. Reset gives the timer its new interval from then on, and cancelling twice or cancelling nothing is harmless.",
 [S, H], "Cancel, stop and reset before, at and after every tick, with ticks queued behind a long handler.",
 "The race is between the tick and the cancel; a test samples one side.",
 [TM, RT], [("stopped flag checked when the tick is handled", TM), ("CancelTimer", RT+":CancelTimer")],
 "stateless exploration on a virtual clock", ["callbacks after the cancel"])

prop("A10", "A future completes once and every callback runs exactly once",
 "Each callback attached to a future runs exactly once with the value of the first completion, whether it was attached before, during or after that. Callbacks of a chain run in the order of the chain, and completing a future again changes nothing.",
 [S], "All interleavings of attaching and completing from up to three goroutines.",
 "The window between testing and setting completion is a few instructions.",
 [RE], [("future state under its lock", RE)],
 "stateless exploration; data races are reported as well", ["callback counts, order and values"])

prop("A11", "A reentrant call completes its future once, without blocking its actor",
 "A ReenterCall returns at once, its actor handles other messages meanwhile, and its future completes exactly once, with the callee's response when that came in time and otherwise with an error. Its callbacks never run at the same time as another handler of the same actor, and two calls of one handler each get their own answer.",
 [S, F], "Answers, timeouts, cancellation, unknown and panicking callees at every point.",
 "The callback and the mailbox race; the tests have a single undisturbed call.",
 [RT, RE, CTX], [("reenter queue of the actor", RT+":Update")],
 "stateless exploration of caller, callee and timeout", ["future completions", "overlap of callback and handlers"])

prop("A12", "A handler chain runs its parts in order and stops at the first error",
 "The middlewares registered before an event's handler run in order, then the handler, then those after it, each once; the first one that returns an error or panics ends the message and nothing after it runs. An event name has one chain: registering it again is refused.",
 [I, C], "Every chain of up to 3+1+3 parts with every pattern of errors and panics.",
 "The tests have one chain without errors.",
 [CH, RT], [("DefaultChain.Execute", CH), ("OnEvent", RT+":OnEvent")],
 "exhaustive enumeration of the inputs on the real code", ["order of the parts that ran"])

prop("A13", "What has ended leaves nothing running",
 "When an actor has been unregistered its goroutines, those of its timers, its subscriptions and of the calls it made or got have ended, at the latest when the call timeout, the deadlines of those calls and the due times of its timers have passed; the goroutines of others go on. The same goes for a node that has left, a channel object that was stopped or closed, a future that is complete, a tick task, span reporter or RPC server that was stopped, and a registration that was refused with an error.",
 [S, H], "Actors with timers, calls of every outcome and subscriptions, stopped at every point, twice each; nodes that leave; refused registrations; all interleavings within the deviation bound.",
 "Tests end with their process; a goroutine that stays behind for each actor, timer or call is not seen by any of them.",
 [RT, TM, SYS], [("timer goroutine and Exit", RT+":OnTimer"), ("waiting goroutines of a call", SYS+":localCall")],
 "stateless exploration; the goroutines that exist at rest are compared with those before", ["goroutines alive, by where they were started"])

prop("S01", "Registry, address book and running actors agree when registrations settle",
 "When no register or unregister is in progress, an actor runs on a node exactly if its node lists it, finds it by id and its address record names that node. This holds after any concurrent mix of registering, unregistering, calling and sending, and a call that is reported as successful was handled by a registered actor.",
 [S, H], "All sequences of register, unregister and call up to length 4 (5) over two ids, and all interleavings of pairs of operations on one id.",
 "Tests register sequentially; the disagreement appears only between concurrent operations on one id.",
 [SYS, AB, BLD], [("Register and Unregister hold the id", SYS+":Register"), ("atomic record update", AB)],
 "stateless exploration of a node against an in-memory store whose commands are scheduling points", ["Actors, FindActor, records, weights"])

prop("S02", "An id is registered once: concurrent registrations get one success",
 "Of any registrations of the same id on a node while it is taken, exactly one succeeds and one instance runs; the others get an error and leave the running actor, its record and the node weight untouched. It does not matter whether they use the same actor type. A registration without id or type is refused.",
 [S, H], "All interleavings of two registrations of one id, same and different types, and the repeated registration.",
 "A double registration needs both to pass the check before either is entered.",
 [SYS, AB], [("id reserved during Register", SYS+":Register")],
 "stateless exploration", ["constructed instances, records, errors"])

prop("S03", "Quantity limits hold across nodes",
 "The number of registered actors of a type never stays above its global quantity limit, whichever nodes register them and however the registrations overlap, and a registration that stays below the limit on its own succeeds. A type marked unique per node never has two actors on one node.",
 [S, H], "All interleavings of registrations on one and two nodes with limits 1 and 2.",
 "The check and the registration are separate store operations; a test runs them one after the other.",
 [SYS, AB], [("count checked before and after the record is written", SYS+":Register"), ("NodeUnique", SYS+":Register")],
 "stateless exploration of two nodes on one in-memory store", ["records of the type", "errors"])

prop("S04", "A node's weight is the sum of the weights of its actors",
 "At rest, the weight the address book holds for each node equals the sum of the weights of the actors it has recorded for that node, and each type's record set and count contain exactly these actors. This holds for any order of registrations and removals, repeated or concurrent ones and removals requested by another node.",
 [S, H], "All histories of register and remove up to length 5 over two nodes and two types, and all interleavings of concurrent ones.",
 "Tests check one registration; a drift needs a repeated or concurrent removal.",
 [AB], [("record and weight change in one step", AB+":Unregister"), ("Register pipeline", AB+":Register")],
 "stateless exploration plus exhaustive operation sequences against a reference sum", ["node weights and records in the store"])

prop("S05", "A message reaches exactly the actor its target names",
 "A call or send by id runs the handler of the actor with that id, wherever it is, and no other; by wildcard one actor of the type, on the lightest node among up to ten such actors drawn at random; by local-first a local actor of the type if there is one and otherwise as wildcard. An actor that moved is reached at its new node, and no target is reported as found if it does not exist.",
 [C, S, H], "Every placement of up to three actors on two nodes, every kind of target from either node, all store orders; moves at every point.",
 "The tests have one or two placements.",
 [SYS, AB], [("routing by symbol", SYS+":Call"), ("GetWildcardActor", AB+":GetWildcardActor")],
 "exhaustive enumeration of layouts plus stateless exploration with moves", ["which handler ran", "errors"])

prop("S06", "A call to another node behaves like a local one",
 "Event, target, custom fields and body of a call arrive unchanged at the handler on the other node and its response (body and header) arrives unchanged at the caller, each call getting its own. A call succeeds only if the remote handlers finished without a failure of the call and every fault of the network, a missing or stopping actor and a passed deadline end in an error; a handler never runs twice for one call.",
 [S, I, F], "Every combination of request and response fields, lost requests and responses, concurrent callers, remote stop and timeouts.",
 "The tests make undisturbed calls.",
 [SYS, ACC, GC, GS, "router/msg/msg.go"], [("handleRemoteCall", SYS), ("Routing", ACC)],
 "stateless exploration of two nodes over an in-process transport with injected losses", ["fields at both ends", "handler runs vs. Call's error"])

prop("S07", "A send returns without waiting for the handler and runs it at most once",
 "A successful Send, local or to another node, leads to exactly one run of the target's handler and returns without waiting for that handler to finish. With network faults it runs at most once; a send to an actor that does not exist is an error.",
 [S, F], "Local and remote sends by id, wildcard and local-first, two senders, lost messages, all interleavings.",
 "Remote sends with slow or failing handlers are not tested.",
 [SYS, ACC, GC], [("handleRemoteSend", SYS), ("routingSend", ACC)],
 "stateless exploration of two nodes with injected losses", ["handler runs", "Send's return"])

prop("S08", "No request from the network can crash or wedge a node",
 "Whatever header, target, event or body a remote request carries, including missing ones, the node answers it (with an error if it cannot be routed) and goes on serving well-formed requests.",
 [I, S], "Every combination of missing, empty and odd header fields, alone and together with a good request.",
 "The tests send well-formed requests only.",
 [ACC, SYS, GS], [("Routing", ACC)],
 "exhaustive enumeration of request shapes on the real acceptor", ["answers and liveness of the node"])

exec(open(os.path.join(here, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(here, "tools", "props_more.py")) else None

NA = []
if os.path.exists(os.path.join(here, "tools", "na.json")):
    NA = json.load(open(os.path.join(here, "tools", "na.json")))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    for n in NA:
        if "prop" in n: f.write(json.dumps(n["prop"]) + "\n")
man = dict(version=1, setup_cmd="bash mc/setup.sh",
  hooks=dict(guard="verif", enable="no hooks are compiled into /repo: the checks instrument a copy of its sources at build time (go build -overlay)", source_commits=[]),
  checks=[dict(property=p["id"], quick_cmd="bash check.sh %s quick" % p["id"], thorough_cmd="bash check.sh %s thorough" % p["id"],
     technique="model checking: " + p["note"], level="model_checking",
     level_note="bounded-exhaustive on the real code: every schedule within the stated number of deviations from the default one, every enumerated input and fault, up to the bounds recorded in the evidence") for p in P],
  not_applicable=[dict(property=n["property"], reason=n["reason"]) for n in NA])
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
print(len(P), "properties")
