from meta import P, N

P("C01", "The clock never runs backwards and never passes a pending event",
  "For every model, no component is ever scheduled before the current simulated time: a time argument in the past raises ValueError, or is treated as the current time when capping is requested. The clock only moves by jumping to the time of the event being taken, so simulated time never decreases and never skips over a pending event.",
  ["programs", "histories", "inputs"], "every interleaving of process-interaction calls, every at/till/delay/duration/fail_at/fail_delay value, both yield styles, cap on/off",
  "tests run a handful of fixed models; the guarantee is about every call site that can schedule, on every path",
  [("Environment.step", "takes the next event and sets the clock"), ("Component._reschedule/_push", "guards and inserts an event"), ("Component.activate/hold/request/wait/...", "compute the time")],
  "Every push on the event list has a time whose normal form the path facts imply to be >= now; the clock is only written with the popped entry's time; a path with a past time raises ValueError only when capping is off and is scheduled at now when it is on.",
  state=[("_now", "simulated time"), ("_event_list", "heap of pending events")])

P("C02", "Events at the same time run by priority, then urgency, then order of scheduling",
  "Among events due at the same time, the one with the lowest priority value is executed first; among equal priorities urgent ones come first (the last urgent first) and the others in the order in which they were scheduled. The priority and urgency given to any scheduling call reach its event unchanged; a component whose request, wait or store call is honored by others gets an ordinary event (priority 0, not urgent). Rescheduling or cancelling one component never loses or reorders another component's event.",
  ["programs", "schedules", "histories"], "every set of simultaneous events produced by any sequence of scheduling, rescheduling and cancelling calls",
  "only a few tie-break orders are sampled; removal from the middle of the heap is never exercised systematically",
  [("Component._push", "entry layout and sequence number"), ("Component._remove", "removal from the heap"), ("Environment.step", "takes the least entry")],
  "Layout of each pushed entry, monotone sequence number negated iff urgent, priority/urgent reach the entry from all scheduling calls, heap repaired after each in-place change, the right slot removed, the popped entry's component becomes current.",
  state=[("_event_list", "heap of (time, priority, sequence, component, value)"), ("_seq", "global sequence number")])

P("C03", "Time arguments mean the documented moment, also after the clock was reset",
  "at/till/fail_at are absolute in the time frame the user sees and delay/duration/fail_delay are relative to now; with neither, activate/hold schedule for now and run/request/wait/store calls never time out; giving both where that is excluded is an error. Scheduled, creation, mode, enter and start times are reported in that same frame, and resetting the clock changes only this frame, not when events happen.",
  ["inputs", "programs", "configurations"], "every combination of present/absent time arguments, time units and previous clock resets",
  "the tests hardly use reset_now, and never with all calls; a wrong frame is invisible with a zero offset",
  [("Component.activate/hold/request/wait/from_store/to_store/wait_for", "argument to moment"), ("Environment.run", "till/duration"), ("Environment.reset_now", "shifts the frame"), ("Environment.spec_to_time/spec_to_duration", "conversion")],
  "On every path of each scheduling call the final scheduled time is, as a normal form, exactly the documented combination of argument, clock offset and now; the event carries that same time; getters subtract the offset; reset_now writes only the offset.",
  state=[("_offset", "difference between internal and reported time")])

P("C04", "A component has at most one pending event",
  "Whatever process-interaction calls are made on a component, by itself or by others, there is never more than one pending activation for it: scheduling it again replaces the earlier one. A component that is taken off the schedule (cancelled, passivated, interrupted, rescheduled, or no longer standby) is never resumed by a stale event.",
  ["programs", "histories", "schedules"], "every status in which a component can be when any scheduling call is made on it",
  "13 calls times 10 statuses times two yield styles; tests reach a few of the pairs",
  [("Component._remove", "takes a component off the event/standby list"), ("Component._push", "puts it on"), ("all process-interaction calls", "must remove before push")],
  "On every path, a component is pushed (or put on standby) only when it was unlinked earlier on that path or its status implies that it has no event; the membership flag mirrors the list; unlinking removes the entry, or leaves both standby lists.",
  state=[("_on_event_list", "membership flag"), ("_standbylist/_pendingstandbylist", "standby components")])

P("C05", "A component's status always matches what the scheduler will do with it",
  "After any process-interaction call the component has the status documented for that call, and status, scheduled time and event agree: scheduled/requesting/waiting components with a finite time have exactly one event at that time; passive, interrupted and data components have none and a scheduled time of infinity; standby components are on the standby list once. The current component has status current, and a component whose process ended is a data component. A mode given with a call becomes the component's mode at that moment; without it the mode does not change.",
  ["programs", "histories"], "every process-interaction call on a component in every status, both yield styles",
  "tests assert the status after a few calls; the agreement of the three representations is not asserted anywhere",
  [("Component.activate/hold/passivate/interrupt/resume/cancel/standby/request/wait/...", "set status, time and event"), ("Component.__init__", "initial status"), ("Environment.step/_terminate", "current and ended components")],
  "For each call and path: last status tallied is in the documented set for the call; last scheduled time and the pushes on the path agree with that status; step makes a component current (status, time inf) before it is resumed; termination leaves data/inf/no process; isXXX() is the test for status XXX.",
  state=[("status", "monitored status"), ("_scheduled_time", "time of the event, inf when none")])

P("C06", "A blocking call suspends exactly the current component, after its bookkeeping",
  "In yieldless models a blocking call on the current component suspends its process exactly once, and does so only after all bookkeeping of the call is complete; a call on another component, a call that is honored at once, or a call that raises never suspends the caller. In models with yield no call switches control itself.",
  ["programs", "schedules"], "every blocking call, on the current and on another component, honored at once or not",
  "an extra or missing control switch only shows in specific interleavings of several processes",
  [("Component._reschedule/_push and all blocking calls", "switch to the environment"), ("Component._tryrequest/_trywait", "honoring")],
  "On every path of each blocking call: number of control switches is 0 or 1, 1 exactly when the subject is implied to be the current component and something was scheduled, and no bookkeeping event follows the switch.",
  state=[("_glet", "greenlet of a process"), ("_current_component", "component that is running")])

P("C07", "An abandoned or expired request leaves nothing behind, and failed() tells",
  "When a component with a pending request, wait or store action gets another process-interaction call, or its time-out expires, the component leaves every queue it was waiting in, its pending action is forgotten, its time-out event is cancelled and failed() is True; a new request clears failed() first, and an honored one never sets it.",
  ["programs", "histories"], "every process-interaction call on a component with every kind of pending action; every time-out",
  "tests cover time-outs of single requests; cancelling, activating or interrupting pending components with several kinds of requests is not tested",
  [("Component._check_fail", "drops pending actions"), ("Environment.step", "expiry"), ("all process-interaction calls", "must call it")],
  "On every path where the status may be requesting/waiting, the pending action is dropped (unless keep_request/keep_wait), before a new queue is entered and together with its event; the dropping function leaves the queue of each pending kind, empties it and sets the flag exactly when something was pending; expiry drops before the process is resumed.",
  state=[("_requests/_waits/_from_stores/_to_stores", "pending actions"), ("_failed", "failed flag")])

P("C27", "The monitors of an object are created, switched and reset together",
  "The monitor argument of a queue, resource, state or store applies to all monitors and queues that are created with it. monitor(value) and reset_monitors(monitor, stats_only) of a queue, resource or state apply, with these arguments, to exactly the monitors that all_monitors() lists: length and length of stay of a queue, those of the requesters, claimers or waiters queues, and the value, capacity, claimed and available quantity and occupancy monitors. A component's status and mode monitors are reset together. Assigning to capacity.value, mode.value or value.value has the effect of set_capacity, set_mode and set; a status cannot be assigned.",
  ["programs", "configurations"], "every object with monitors, every monitor and stats_only argument",
  "tests switch single monitors; a monitor that is left out is noticed only by who looks at that one",
  [("Queue/Resource/State.monitor, reset_monitors, all_monitors", "group operations"), ("Queue/Resource/State/Store.__init__", "create the monitors"), ("_CapacityMonitor/_ModeMonitor/_StateMonitor.value", "assignment through a monitor")],
  "On every path of the group operations, the set of monitors on which Monitor.monitor or Monitor.reset acts (through all helpers) is exactly the documented set and the arguments are the given ones; each monitor and queue created in a constructor gets the constructor's monitor argument and its owner; the value setters call the owner's method with the value.",
  state=[("_monitor", "whether a monitor is on"), ("parent", "owner of a monitor")])

P("C28", "Environments do not influence each other",
  "Several environments may exist side by side. Every component, queue, monitor, resource, state and store belongs to the environment it is created for (the default environment if none is given), as do all objects that the library creates for it. A new environment starts with its own clock, event list, sequence numbers and names, and no operation in one environment changes anything that another environment uses.",
  ["configurations", "programs"], "every number of environments, created and used in any order, whichever is the default one",
  "nearly all tests use one environment, where a wrong environment is invisible",
  [("Component/Queue/Monitor/Resource/State/Store.__init__", "binding to an environment"), ("Environment.__init__", "fresh state"), ("all library code that creates queues, monitors and components", "hands its environment over")],
  "On every path of each constructor the environment is the one given, or the default one if none is given; each internal creation of a stateful object hands over the environment of the object at hand (followed through locals, parameters and dictionaries); each part of the environment's state is initialised with a new value; no function reachable from a simulation operation writes module-wide state; no class-level or default container is changed in place.",
  technique="path-sensitive dataflow for constructors; def-use query over all creation sites; call-graph effect analysis for module-wide writes",
  state=[("env", "environment of an object"), ("g.default_env", "environment used when none is given")])

P("C29", "Interrupt and resume preserve the remaining duration",
  "Interrupting a scheduled component remembers how long it still had to go; it continues for exactly that long once every nested interrupt has been resumed (or all at once), and not before. remaining_duration() reports the same quantity in every status, setting it reschedules accordingly, and interrupt level and interrupted status are reported correctly.",
  ["programs", "histories"], "any nesting of interrupt/resume, at any time, in every status",
  "nesting, hold(interrupted), setting remaining_duration in each status and clock offsets are not combined in tests",
  [("Component.interrupt/resume/hold/passivate/remaining_duration", "save and restore")],
  "Normal forms of the saved remaining duration (scheduled time - now), of the level (1, +1, -1) and of the new scheduled time (now + remaining) on every path, for every status; refused statuses are exactly the documented ones.",
  state=[("_remaining_duration", "left to go"), ("_interrupt_level", "nesting level"), ("_interrupted_status", "status to return to")])

P("C31", "Objects are named and numbered by the documented rule",
  "An object without a name gets the lower case name of its class with a sequence number. A name that ends with a dot is numbered from 0, a name that ends with a comma from 1; numbers are consecutive per base name, kind of object and environment, and the name shown is the base without its last character, a dot and the number. Any other name is used as it is. base_name() and sequence_number() keep reporting the values of creation when the object is renamed. The names of the queues and monitors that belong to an object are derived from its name, at creation and on renaming alike.",
  ["inputs", "histories"], "every name, every order of creation, any number of renamings",
  "tests create a few objects; numbering across kinds, environments and renamings is not sampled",
  [("_set_name", "naming rule"), ("Component/Queue/Monitor/Resource/State/Environment.__init__", "name themselves"), ("name, base_name, sequence_number", "getters and renaming")],
  "The contents of texts are followed symbolically (concatenation, formatting, slicing, test of the last character): for no name, '', '.', ',', any name ending with a dot or a comma, and any other name, the values stored on every path are the documented ones; each constructor names itself once, with the given name, in a register of its own kind that lies in its environment; each derived object is renamed with the same text that it was created with.",
  technique="path-sensitive symbolic dataflow over text terms",
  state=[("_name", "name shown"), ("_base_name", "name at creation"), ("_sequence_number", "number at creation")])

P("C32", "run() ends at its end time, and standby components get one turn after each event",
  "A run ends when, and only when, the end event of main is taken (or, without an end time, when no events are left, keeping the clock); with an end time but no events left the clock still goes to that end. After each event every standby component gets exactly one turn, in order, without moving the clock, unless the component just run has skip_standby; none is lost.",
  ["programs", "schedules"], "every model with any number of standby components and any run() argument combination",
  "tests have at most one standby component and only a few forms of run()",
  [("Environment.run", "schedules main"), ("Environment.step", "standby turns and end of run")],
  "Paths of run(): main is scheduled before running is set, end-on-empty exactly without till/duration. Paths of step(): only main's entry ends the run; standby list is moved (not overwritten) to the pending list after an event, popped from the front, only components still standby are resumed, clock untouched.",
  state=[("_standbylist/_pendingstandbylist", "standby components"), ("running", "run in progress"), ("end_on_empty_eventlist", "no end time")])

P("C08", "A resource's claimed quantity is the sum of the components' claims",
  "Honoring a request claims exactly the requested quantity of all requested resources (of exactly one for a oneof request), for the component and for the resource alike; releasing gives back exactly what is released, never more than the component claims. A component is in the claimers queue of a resource exactly when it has a claim on it, and in no requesters queue once its request is honored; anonymous resources have no claimers. A refused request changes nothing.",
  ["programs", "histories", "inputs"], "every mix of requests (all/oneof, repeated resources, any quantity, priority, put/get) and releases",
  "the tests check a few totals after fixed scenarios; the accounting identity is never asserted",
  [("Component.request/_tryrequest", "recording and honoring"), ("Component._release/release, Resource.release", "releasing"), ("Component.claimed_quantity/isclaiming", "reporting")],
  "On every path of honoring and releasing, the change of the resource's claimed quantity and of the component's claim are the same normal form (the requested/released amount); claims entry, claimers queue, requesters queue and pending request move together; no other function writes this bookkeeping.",
  state=[("_claimed_quantity", "total per resource"), ("_claims", "claims per component"), ("_requests", "pending quantities"), ("_claimers/_requesters", "queues")])

P("C09", "A request is honored if and only if it fits",
  "A request is never honored when it exceeds what is available (or puts back more than is claimed), when the component is interrupted, is not first at an honor_only_first resource or lacks the highest priority at an honor_only_highest_priority resource; and it is refused only for one of these reasons. All-of requests need every resource, oneof requests one.",
  ["programs", "inputs", "schedules"], "every combination of quantities, capacities, honor modes and competing requesters",
  "tests sample a few capacities; the guard must hold for all resources in a combined request",
  [("Component.honor_all/honor_any/_tryrequest", "the test"), ("Resource._tryrequest", "who is tried")],
  "Path facts at each increase of the claimed quantity imply the capacity inequality (tolerance 1e-6) and the honor modes; on each refusing path some (oneof: every) requested resource is implied to be blocked for an allowed reason.",
  state=[("_capacity", "capacity"), ("_honor_only_first/_honor_only_highest_priority", "honor modes")])

P("C10", "Resource monitors always show the current quantities",
  "After every change of a resource the monitors claimed_quantity, available_quantity, occupancy and capacity have the values that follow from its claimed quantity and capacity (available = capacity - claimed, occupancy = claimed/capacity or 0), also initially, and before other requesters are served.",
  ["programs", "histories"], "every request, release, preemption and capacity change",
  "tests read one monitor at the end of a run; a missed tally in one path shifts statistics silently",
  [("Component._tryrequest/_release", "tally after a change"), ("Resource.release/set_capacity/__init__", "tally")],
  "On every path that writes claimed quantity or capacity the last tally of each dependent monitor is the normal form computed from the final values; initial tallies likewise.",
  state=[("claimed_quantity/available_quantity/occupancy/capacity", "level monitors")])

P("C11", "No requester is forgotten when something becomes available",
  "Whenever quantity is released, capacity changes, something is put back, a preemption leaves a surplus or an earlier requester leaves an honor_only resource, the waiting requesters are tried at once, in queue order, until none is left or none can be honored; so a pending request that could be honored does not stay pending.",
  ["programs", "schedules", "histories"], "every sequence of claims and releases with any number of waiting requesters",
  "lost wake-ups need particular combinations of competing requests and never show as an error",
  [("Resource._tryrequest", "walk over requesters"), ("Component._release/_tryrequest/_check_fail, Resource.release/set_capacity", "trigger it"), ("Component.request", "smallest pending quantity")],
  "Every path that frees quantity calls the walk on that resource afterwards; the walk ends only with no requesters left, at an honor mode boundary or when even the smallest pending quantity does not fit; that smallest quantity is a lower bound and the re-entrancy mark is always reset.",
  state=[("_minq", "smallest pending quantity"), ("_trying", "re-entrancy mark")])

P("C12", "Preemption bumps only lower-priority claimers, only if needed and sufficient",
  "A request for a preemptive resource takes claims away only from claimers with a strictly lower priority, starting with the lowest, only as long as what is available is not enough, and only if the request can be honored that way; every bumped claimer loses its whole claim and is activated. Preemptive resources cannot be combined in one request.",
  ["programs", "inputs"], "any number of claimers with any priorities and quantities",
  "tests use one or two claimers with equal quantities",
  [("Component.request", "bump loop"), ("Component._release(bumped_by)", "bump")],
  "For each path with bumps: facts imply priority < claimer's priority for each, the order is from the tail of the claimers queue, available before the last bump < quantity <= available after it, each bump is followed by activate and precedes the attempt; a path without bumps implies that none was needed or possible.",
  state=[("_claimers", "claimers in order of priority")])

P("C13", "A component that ends or is cancelled gives back all it claimed",
  "When a process ends or a component is cancelled, all its claims are released completely and offered to waiting requesters, before any other process runs.",
  ["programs", "histories"], "every way a process can end, with any set of claims",
  "the tests end processes with at most one claim",
  [("Environment._terminate", "process end"), ("Component.cancel", "cancel"), ("Environment.step", "detects the end")],
  "On every path of termination and cancel that sets the data status each claim is released (whole, as an ordinary release) before control is given away; step terminates the current component.",
  state=[("_claims", "claims per component")])

P("C14", "A state's value, its monitor and its waiters stay in step",
  "Setting or resetting a state to a different value changes its value, is recorded by its monitor and gives every waiter, in queue order, the chance to continue, at that moment. A trigger lets at most max waiters continue on the trigger value, then the state takes the value after (by default the value it had), which is monitored and offered to all waiters. Nothing else changes a state's value.",
  ["programs", "histories", "inputs"], "every value (also falsy ones), any number of waiters, any max, nested value changes",
  "tests use boolean values and one or two waiters; falsy values, max and value_after combinations are not covered",
  [("State.set/reset/trigger", "change the value"), ("State._trywait", "walk over the waiters"), ("State.__init__", "initial value")],
  "On every path of set/reset/trigger: last value written, last value tallied and the walk come in that order with the documented value; trigger passes max for the first walk and no limit for the second; the walk tries each waiter once and only stops at the end of the queue or when max waiters were honored; no other method writes the value.",
  state=[("_value", "value"), ("value", "level monitor"), ("_waiters", "waiting components")])

P("C15", "A wait is honored exactly when its condition holds",
  "A wait for any (all) of a list of states is honored exactly when one (each) of its conditions - a value, an expression with $, a function, or the condition of wait_for - holds for the state it was given for; not while the component is interrupted. An honored component leaves all waiters queues and continues at the current time; one that is not honored changes nothing. A wait is tried when it is made, and waiters are in order of request priority.",
  ["programs", "inputs", "histories"], "any number and mix of conditions of each kind for one or several states, both any and all",
  "tests use one or two plain values; the 3 kinds x any/all x repeated states are not combined",
  [("Component.wait/wait_for", "records the conditions"), ("Component._trywait", "evaluates them")],
  "wait() records for every argument the state, value and kind that the argument implies and enters each waiters queue once, with its priority; on every path of the test, honored/not honored is implied by the truth of the recorded conditions (evaluated on the right state), for all and for any; honoring empties the waits, leaves each queue and reschedules at now.",
  state=[("_waits", "conditions"), ("_wait_all", "all or any"), ("_cond", "condition of wait_for")])

SHAPE_TECH = "shape analysis of linked queues in an abstract heap, over all paths of each operation, against an oracle table"
SHAPE_ASSUME = ["queues of 0..3 members (0..4 thorough) are materialised in the abstract heap; priorities, times and capacity stay symbolic; an operation looks at neighbours and at one position, so longer queues repeat the same steps"]

P("C16", "A queue is a consistent sequence: no operation loses or duplicates members",
  "After every queue operation (enter, add, insert, leave, pop, remove, clear, change of priority, ...) the queue contains exactly the components that should be in it, each once, in the documented position, and traversal from head to tail and from tail to head gives the same sequence as the reported length. A component knows that it is a member exactly when it is. Entering twice, or operating relative to a component that is not a member, raises ValueError, an index out of range raises IndexError, and a refused operation changes nothing.",
  ["histories", "inputs"], "every operation on a queue of any length, at every position, from either the component or the queue interface",
  "tests enter and remove a few components; the links in both directions, the membership map and the count must agree after each of ~30 operations at each position",
  [("Qmember.insert_in_front_of", "links a member"), ("Component.leave/enter*/priority", "component interface"), ("Queue.add*/insert/pop/remove/clear/__getitem__", "queue interface")],
  "Each operation is followed on all paths from each queue of k members with symbolic priorities; final links, length, membership map, result and raised errors are compared with the expected sequence.",
  technique=SHAPE_TECH, assumptions=SHAPE_ASSUME, state=[("_head/_tail/successor/predecessor", "links"), ("_length", "count"), ("Component._qmembers", "membership")])

P("C17", "A queue is ordered by priority, first come first served within a priority",
  "A component that enters with a priority is placed behind all members with a lower or equal priority value and before all with a higher one, and so is a member whose priority changes. Entering at the tail, the head, or next to another member gives the priority of its neighbour, so that a queue that was in order of priority remains in order whatever operations are applied.",
  ["inputs", "histories"], "every ordering (including ties) of the priorities of members and newcomer, every insertion operation",
  "ties and boundary positions (first, last, equal to neighbour) multiply; tests use a few distinct values",
  [("Component.enter", "sorted insertion"), ("Component.priority", "re-sorting"), ("Component.enter_at_head/enter_behind/enter_in_front_of, Queue.insert", "inherit a priority")],
  "On each path of each insertion or priority change, the comparisons assumed on the path entail that the final sequence of priorities is sorted and that the subject comes last among equals; the priority stored is the documented one.",
  technique=SHAPE_TECH, assumptions=SHAPE_ASSUME, state=[("Qmember.priority", "priority in the queue")])

P("C18", "Queue statistics mirror the queue: length, stay, capacity, arrivals",
  "After every operation the length monitor has the current length, available quantity is capacity minus length, and number of arrivals and departures count each entry and each departure once; the length of stay tallied when a component leaves is the time since it entered this queue. A queue never holds more components than its capacity: an entry that would exceed it raises QueueFullError and changes nothing. Arrival and departure rates are counts divided by the time since they were last reset.",
  ["histories", "inputs"], "every sequence of entries, departures, priority changes and capacity changes",
  "statistics are read by tests for one or two models; a missing or doubled tally on one path biases every result silently",
  [("Qmember.insert_in_front_of", "entry statistics"), ("Component.leave", "departure statistics"), ("Queue.set_capacity/arrival_rate/departure_rate", "capacity and rates"), ("Queue.__init__", "initial values")],
  "On every path of each operation the last tallies on the length and available-quantity monitors equal the new length and capacity minus length; arrivals/departures/length-of-stay change exactly for those who entered/left; entering paths imply room, refused paths imply a full queue.",
  technique=SHAPE_TECH, assumptions=SHAPE_ASSUME, state=[("length/length_of_stay/capacity/available_quantity", "monitors"), ("number_of_arrivals/number_of_departures", "counters")])

P("C19", "Iterating, slicing and combining queues is faithful, also under change",
  "Iterating over a queue forward or backward while components enter, leave or change priority in the loop body never fails, never gives a component that is no longer in the queue, gives none twice, and gives all those in the queue that had no turn yet, in queue order. Slices behave as those of the list of members. Union, intersection, difference, symmetric difference, copy and move give a new queue with exactly the right members in order and leave their operands as they were (move empties the source); extend appends those that are not members yet.",
  ["schedules", "inputs", "histories"], "every change to the queue at every point of an iteration; every pair of queues; every slice",
  "the interplay of an iteration with changes at each point is not sampled; neither are overlapping operands",
  [("Queue.__iter__/__reversed__", "iteration with restart"), ("Queue.__getitem__", "slices"), ("Queue.union/intersection/difference/symmetric_difference/copy/move/extend", "derived queues")],
  "The generators are followed on all paths with each change applied (through the real operations) at each yield; yielded terms are compared with the members not served yet; slices and derived queues are compared with the list semantics for overlapping and disjoint operands.",
  technique=SHAPE_TECH, assumptions=SHAPE_ASSUME, state=[("_iter_touched", "iterations under way that must restart")])

P("C20", "Store items are handed over exactly once, to the first who can have them",
  "An item that enters a store is given to the first waiting from_store requester whose filter accepts it, or stays; an item that leaves, or more capacity, lets the waiting to_store requesters put their items, in order, as long as there is room. Whoever is served gets exactly one item (or puts exactly its own), leaves the requesters of all the stores it waited for, continues at the current time with the right item and store reported, and no item is ever lost, duplicated or given to two components. Nobody keeps waiting for an item or room that is there. from_store takes the first matching item, or the one with the least key, to_store the first store with room.",
  ["histories", "inputs", "schedules"], "every filter and key, every mix of pending from_store and to_store requests over several stores, every chain of hand-overs",
  "an item entering can serve a requester, whose departure admits another item, and so on; tests do one or two single steps with one store",
  [("Qmember.insert_in_front_of", "item enters: serves from_store"), ("Component.leave", "item leaves: serves to_store"), ("Store.rescan/_rescan_to/set_capacity, Component.filter", "changed conditions"), ("Component.from_store/to_store", "requests")],
  "Two stores with their requesters are materialised in the abstract heap (filters, keys, priorities, capacities symbolic); every operation is followed on all paths, including the chain of hand-overs; conservation, order, filter truth, complete withdrawal, scheduling at now and absence of a servable waiter are checked on the final heap.",
  technique=SHAPE_TECH, assumptions=["0..2 items and 0..3 requesters per store, two stores; capacities are integral (or inf); keys are not None"], state=[("_from_store_requesters/_to_store_requesters", "who waits"), ("_from_stores/_to_stores/_from_store_item/_to_store_item", "pending request")])

LIST_TECH = "abstract interpretation of all paths with lists of symbolic elements, results compared as rational functions with the documented definition"

P("C21", "A monitor records exactly what was tallied, when it was on",
  "While a monitor is on, each tally adds the value, the current time and the weight to its record (a level monitor replaces the value when the last one has the same time); while it is off nothing is recorded, but a level monitor still knows its current value. Switching a level monitor on records its current value, switching it off records 'off'. A reset, like the creation of a monitor, starts an empty record at the current time, with the current value if it is a level monitor that is on. A stats_only monitor keeps, for all values and for nonzero values, the count, total weight, weighted mean, sum of squares, minimum and maximum of what would have been recorded. A refused tally (weight on a level monitor, the value off, a derived monitor) changes nothing. Statistics computed before are not used after a change.",
  ["histories", "inputs"], "every value, weight and time; monitors switched on, off and reset at any time; level/non level, stats_only or not",
  "on/off/reset at the same or another time, weights that appear late and stats_only accumulation are combinations; tests sample few of them",
  [("Monitor.tally", "records"), ("Monitor.monitor", "on/off"), ("Monitor.reset/__init__", "(re)start")],
  "The record is a list of 0..2 (thorough 0..3) symbolic values, times and weights; after every path of tally/monitor/reset/__init__ the lists equal the required ones, running statistics are compared as rational functions with their definition, and the cached statistics are gone.",
  technique=LIST_TECH, assumptions=["values are numbers (conversion of other values is not covered)", "0..3 recorded values; the code treats the last element and the appended one only"],
  state=[("_x/_t/_weight", "record"), ("_tally/_ttally", "current value"), ("n/sumw/mun/sn/_minimum/_maximum/_ttally_monitored", "stats_only"), ("cached_xweight", "cache")])

P("C33", "Monitor statistics follow from the record",
  "Mean, standard deviation, minimum, maximum, percentiles and median (with each interpolation), total weight or duration, number of entries, time or weight per value or per bin, the recorded series (xt, tx) and the value at a time are exactly the ones that follow from what was recorded: a level monitor's value counts for the time until the next one (the last one until now), values recorded as off do not count, ex0 leaves out zeroes, weights count. No query changes the record, and a cached result is only used for the same question at the same time. A stats_only monitor refuses what needs a record.",
  ["inputs", "histories"], "every series of values, times and weights, zero and off values included",
  "tests compare a few numbers; the treatment of off, zero, weights and the last interval multiplies over ~15 statistics",
  [("Monitor._xweight", "values with their weights"), ("Monitor.mean/std/minimum/maximum/duration/weight/number_of_entries", "statistics"), ("Monitor.xt/tx/get/bin_*/value_*", "series and time per value")],
  "With 0..2 (thorough 0..3) symbolic values that are off, zero or other, the returned term of each query is compared, as a rational function, with the definition; extremes by entailment from the comparisons on the path.",
  technique=LIST_TECH, assumptions=["values are numbers", "0..3 recorded values: sums and selections are uniform over the elements", "percentiles and histograms are not covered"],
  state=[("_x/_t/_weight", "record"), ("cached_xweight", "cache")])

P("C34", "Derived monitors show the same history",
  "A slice of a level monitor has, at any time from start up to (not including) stop, the value of the monitor, and is off elsewhere; a slice of a non level monitor has exactly the entries from that interval, with their weights; with modulo the same holds for every period, up to now. Merging level monitors, also of different types, gives their sum at any time (off when one of them is off); merging other monitors gives all entries with their weights in order of time. Mapping or multiplying applies the function to every value and keeps times and weights. The result is a new monitor that is off, cannot be changed and can itself be sliced, merged and mapped; the monitors it is derived from are not changed. A frozen monitor is a fixed copy in an environment of its own whose clock shows the time of freezing.",
  ["inputs", "histories"], "every order (ties included) of recorded times, bounds and now, every on/off pattern",
  "ties between recorded times, bounds and now, and periods in which a monitor is off, are combinations that tests do not enumerate",
  [("Monitor.slice", "slice"), ("Monitor.merge", "merge, +"), ("Monitor.x_map/multiply/t_multiply", "mapping")],
  "All weak orders of the time points are enumerated; on each path the step function (or list of entries) recorded in the new monitor is compared with the required one at every time point.",
  technique="abstract interpretation of all paths over every order type of the time points; step functions compared at each time point",
  assumptions=["1..2 recorded values per monitor (3 for slices, thorough), two monitors", "slices with modulo are not covered", "start of a slice is not after now and not after its stop"],
  state=[("_x/_t/_weight/isgenerated/_monitor", "record of the new monitor")])

DIST_TECH = "abstract interpretation of all paths of constructors and sample()/mean() with symbolic parameters; formulas compared as rational functions with the documented definition"

P("C24", "Distributions sample and report the documented quantity, in the right time unit",
  "For every distribution, parameters given as documented (also as alternatives, such as rate instead of mean, or as a standard deviation or coefficient of variation) give a sample that is the documented transformation of one draw of its own random stream, multiplied once by the factor of its time unit, and mean() is the mean of exactly that. Parameters that are not allowed (negative, missing, contradictory, in the wrong order) raise ValueError instead of giving some other distribution. A distribution without a stream of its own uses the global one.",
  ["inputs", "configurations"], "every parameter value and combination of given/absent parameters, with and without a time unit, each random stream",
  "tests cannot see a factor that is applied twice or not at all when no time unit is used, nor a bound that is off for one combination of parameters",
  [("Exponential/Normal/IntUniform/Uniform/Triangular/Constant/Poisson/Weibull/Gamma/Erlang/Beta", "constructors, sample, mean"), ("_Distribution", "common part")],
  "Every path of each constructor is followed with symbolic parameters; paths that refuse must imply a documented error, others must not; sample() on the constructed object must equal the documented expression of one draw times the time-unit factor, mean() its expectation.",
  technique=DIST_TECH, assumptions=["the draws of the random stream (random.Random) have the distributions Python documents", "shapes of numpy streams and of fallback algorithms (Poisson) are not covered"],
  state=[("_mean/_alpha/.../time_unit_factor", "parameters"), ("randomstream", "stream")])

P("C35", "Table distributions give the listed values with the listed probabilities",
  "Pdf, Pmf, CumPdf, CumPmf and Cdf accept a table in each documented notation and refuse an invalid one (no values, decreasing cumulative values or x-values, total not positive, odd length). A sample is one of the given values, or the sample of the given distribution, the one for which the draw lies in its share of the (normalised) probabilities; each value's share is its probability and the shares cover all draws. For Cdf the sample interpolates linearly between the two points around the draw. The mean is the probability weighted mean of the values (nan when values are not numbers). Sampling n values without replacement is possible exactly when all probabilities are equal and gives distinct values.",
  ["inputs"], "every table of values and probabilities (lists, dicts, pairs, one probability for all), zero probabilities included, every draw",
  "tests draw samples of a few tables; a wrong share at the edge or for one notation is hardly visible in samples",
  [("Pdf/Pmf/CumPdf/CumPmf/Cdf.__init__", "tables"), ("Pdf/CumPdf/Cdf.sample", "look up"), ("mean", "mean")],
  "Tables of 1..2 (thorough 1..3) symbolic values and probabilities in each notation; on every path of constructor followed by sample the returned value's share, as implied by the comparisons on the path, is the required interval, and on refusing paths the table is implied to be invalid.",
  technique=DIST_TECH, assumptions=["1..3 entries: the look up is uniform over the entries", "probabilities are finite numbers"],
  state=[("_x/_cum", "table"), ("supports_n", "sampling without replacement")])

P("C36", "Bounded, mapped and composed distributions do what they say",
  "A bounded sample is a value of the distribution that lies within the bounds (bounds included or not, as given), and otherwise, after the given number of tries, the documented fail value; at most that number of samples is taken, each one new. Arithmetic on distributions gives a distribution whose sample is that operation applied to fresh samples of its operands (in their order), and whose mean is the one that follows, or nan. Map applies its function to the sample. Distribution, External and calling a distribution behave as the distribution they stand for.",
  ["inputs", "programs"], "every operator and operand kind (number or distribution, either side), every combination of bounds, inclusion, fail value and number of tries",
  "the combinations (open/closed, one or both bounds infinite, retries exhausted) are not sampled by the tests",
  [("_Distribution.bounded_sample/Bounded", "bounds"), ("_Expression and the operators", "arithmetic"), ("Map/Distribution/External", "wrappers")],
  "All paths with symbolic bounds and samples: a sample is returned only if the comparisons on the path imply that it is within the bounds, the fail value only after exactly the allowed number of distinct samples, all implied to be out of bounds; operators compared term by term.",
  technique=DIST_TECH, assumptions=["2 tries (a loop count)", "shapes of external (numpy/scipy) distributions are not covered"],
  state=[("_lowerbound/_upperbound/_fail_value/_number_of_retries", "bounds"), ("dis0/dis1/op", "expression")])

EFF_TECH = "call-graph effect analysis (receiver types, constant arguments, fresh objects) and comparison of all paths of a function with a switch on and off"

P("C22", "Looking at a model and tracing it do not change it",
  "Asking for anything (status, queue contents, monitor statistics, histograms, claimed quantities, distribution means, times, names, information printed on components, queues, resources, states, stores, monitors and the environment) changes no part of the simulation and takes no random number, so that a model gives the same results however much is asked in between. The same holds for tracing: with the trace on or off the same things happen, in the same order, with the same outcome.",
  ["programs", "configurations", "histories"], "every query and print function of the public interface at any moment; every operation with the trace on and off",
  "tests run with the trace off or only compare the text; a query that changes something only shows in what happens later",
  [("the queries of Component, Queue, Store, Monitor, Resource, State, Environment and the distributions", "read only"), ("Environment.print_trace and every function that reads the trace switch", "no other effect")],
  "No write to an attribute that the operations of the simulation write (computed from the source), and no draw, is reachable from a query or from print_trace; each function that reads the trace switch has the same effects on paths with the same conditions with the switch on and off.",
  technique=EFF_TECH, assumptions=["attributes are told apart by name (and class where it can be inferred)", "the running statistics of stats_only monitors, which are brought up to date when asked for, are covered by C33", "caches and iteration bookkeeping are not simulation state"],
  state=[("all attributes written by the operations", "simulation state")])

P("C30", "Animation shows the model and does not change it",
  "Creating, changing, drawing and removing animation objects, taking a snapshot, making video frames, pausing and changing the speed change no part of the simulation: the animation loop advances the model by taking the same steps as a run without animation, and a step does the same with animation on and off.",
  ["programs", "configurations"], "every animation class and every function of the animation loop, whatever the model",
  "the test machine has no display: none of the animation code runs in the tests",
  [("AnimateXXX and Animate3dXXX", "drawing"), ("Environment.simulate_and_animate_loop/animation_pre_tick/snapshot/paused/...", "animation loop"), ("Environment.step", "same with animation on and off")],
  "No write to simulation state is reachable from the methods of the animation classes or, other than through step(), from the functions of the animation loop; step() has the same effects on paths with the same conditions with animation on and off.",
  technique=EFF_TECH, assumptions=["sliders linked to a State, user interface events and the callbacks of the user are not covered: changing the model is what they are for", "starting or ending an animation (animation_parameters, video_close, quit) may start helper components and is not covered", "attributes are told apart by name"],
  state=[("all attributes written by the operations", "simulation state")])

P("C23", "A run is determined by the model and the seed",
  "Creating an environment, or random_seed(), seeds the random stream (the one given, otherwise the global one, and numpy's unless switched off) with exactly the seed given: 1234567 if none is given, at random only for '*', and not at all for ''. Every seed, zero and strings included, counts as given. What happens in a run does not depend on the address or hash of objects, on the clock, or on the order of an unordered collection, so the same model with the same seed gives the same run.",
  ["inputs", "histories", "programs"], "every seed and stream, every way to create an environment, every operation of the simulation",
  "a test runs in one process with one hash seed and one memory layout; dependence on either shows between processes only",
  [("random_seed", "seeding"), ("Environment.__init__", "seeds"), ("all operations, distributions and generators", "no unordered iteration")],
  "All paths of random_seed per kind of seed: which stream is seeded with what; every way through Environment.__init__ seeds once with the seed given; in all functions reachable from the operations (call graph) no iteration over a set-valued expression, and no id(), hash(), clock or operating system randomness.",
  technique="path-sensitive dataflow for seeding; call graph reachability with a type inference for unordered collections",
  assumptions=["a model's own code is deterministic", "the animation (which follows the clock) is not part of the run: C30", "Poisson with prefer_numpy draws from numpy's global stream"],
  state=[("random, numpy.random, randomstream", "random streams")])

P("C25", "Temporary settings are put back, whatever happens in between",
  "suppress_trace(), cap_now() and over3d() apply the setting asked for during the with block and put back the setting that was there before, also when the block ends with an exception, which is passed on; nested use works. capture_stdout and redirect_stdout capture output in their block and afterwards put back the stdout that was there. Freezing a monitor leaves the monitor as it was, also when it cannot be copied.",
  ["schedules", "inputs"], "every way to leave the block: normally or with an exception; every earlier value of the setting",
  "tests leave the blocks normally and with the default setting",
  [("Environment.suppress_trace, cap_now, over3d", "context managers"), ("capture_stdout, redirect_stdout", "stdout"), ("Monitor.freeze", "temporary environment")],
  "All paths through each context manager, with the body ending normally and with an exception thrown in at the yield: each cell that is written has its old value at the end, the value asked for at the yield, and the exception comes out.",
  technique="path-sensitive dataflow with exceptional exits at every yield",
  assumptions=["a setting that is None is not distinguished from leaving the setting as it is"],
  state=[("_trace, _default_cap_now, _default_over3d, sys.stdout, Monitor.env", "settings")])

P("C26", "Time units and dates are converted consistently",
  "A duration given in years, weeks, days, hours, minutes, seconds, milliseconds or microseconds is converted to and from the time unit of the environment with the exact factors, in both directions (the one is the inverse of the other), for environments, monitors and distributions alike; a distribution as argument is sampled. Without a time unit, a conversion raises an error and an unknown unit is refused. Dates: t_to_datetime and datetime_to_t, and timedelta_to_duration and duration_to_timedelta, are inverses that agree with the time unit; infinity stays infinity; resetting the clock shifts the date at 0 so that the present moment keeps its date; setting a date does not change a time unit that was set.",
  ["inputs", "configurations"], "every unit of the environment, every unit converted to or from, every value, with and without datetime0, any earlier offset of the clock",
  "tests try a few units with a few values; the combinations of unit, date and reset are not covered",
  [("Environment.years..microseconds/to_years..to_microseconds/to_time_unit", "conversion"), ("Monitor.to_years..to_time_unit", "monitors"), ("_time_unit_lookup/_time_unit_factor", "factors"), ("t_to_datetime/datetime_to_t/timedelta_to_duration/duration_to_timedelta/datetime0/reset_now", "dates")],
  "All paths with symbolic argument and time unit; the result is compared as a rational function with the required formula (Monitor: the values of the new monitor).",
  technique="path-sensitive dataflow; formulas compared as rational functions",
  assumptions=["a year has 365 days, as documented", "parsing of dates (dateutil) is not covered"],
  state=[("_time_unit, _time_unit_name, _datetime0, _offset", "unit and date of the environment")])

P("C37", "Generators create the right components at the right moments",
  "A component generator creates components of the given class (or of the classes sampled) with the given arguments, in its own environment, and leaves the default environment as it was. With inter arrival times the first one comes at the start (force_at) or one interval later, each next one one (newly sampled) interval later, none after till, and not more than number; a disturbance shifts a component but not the ones after it. A spread draws number moments between start and till (with the first or last at the end points if forced), equidistant divides the duration evenly, and moments are kept exactly, in order. start, till and duration are in the time frame of the user, whatever reset_now did. at_end is called exactly once, at till or after the last component. Contradictory specifications are refused. All this holds in yield and in yieldless mode.",
  ["inputs", "configurations", "schedules"], "every combination of at/delay, till/duration, number, iat, force_at, force_till, disturbance, equidistant and moments; sampled or constant; yield and yieldless; any offset of the clock",
  "tests use one or two combinations, in one mode; an off-by-one at till or a wrong time frame needs the particular combination",
  [("ComponentGenerator.__init__", "specification"), ("ComponentGenerator.do_iat/do_spread/do_iat_disturbance and their yieldless twins, do_finalize", "generation")],
  "All paths of the constructor per combination: the process that is started, its first moment and the stored limits are compared with the specification as terms; refusing paths must imply a documented contradiction. Then all paths of each process that can be started, with the clock moved at each hold: creations, their moments, default environment, end.",
  technique="abstract interpretation of all paths of constructor and processes with symbolic times",
  assumptions=["up to 2 (thorough 3) components per generator: each round of the loop is the same", "spread: the moments between the first and the last are interpolated as in interpolate()", "at_end and components created do not raise"],
  state=[("till/number/iat/intervals/force_at/disturbance/kwargs/at_end", "specification"), ("g.default_env", "default environment")])

P("C42", "New objects hand their arguments to setup and to the process",
  "Creating an environment, component, queue, monitor, resource or state calls its setup() exactly once, when the object is ready, with exactly the keyword arguments that are not parameters of the initialization. For a component, the keywords that are parameters of its process go to that process and only there; so do all keywords of activate(..., process=...), which refuses keywords the process does not know. The process that starts is the given one (or process() if there is one), once, in yield and in yieldless mode alike; a generator in a yieldless model, or a non generator in a model without generators, is refused. A parameter that occurs in more than one of __init__, setup and process is refused. A component without process is data: it is not scheduled, and at, delay, priority and urgent are refused for it.",
  ["inputs", "configurations", "programs"], "every set of keywords, divided over setup and process in every way; generator, plain function, no process, named process; yield and yieldless",
  "the tests pass one or two keywords in one mode; an argument dropped or handed over twice shows only for a particular division over setup and process in one mode",
  [("Component.__init__ / Component.activate", "process creation"), ("Queue/Monitor/State/Resource/Environment.__init__", "call of setup"), ("_check_overlapping_parameters", "overlap")],
  "All paths of each initializer with two unknown keywords, each of which may or may not be a parameter of the process: the keywords of the call of setup, of the generator call and of the function run by the greenlet are compared, as terms, with the division; number of setup calls and of schedulings is counted on each path.",
  technique="abstract interpretation of all paths of the initializers with symbolic keywords",
  assumptions=["inspect.signature(p).parameters are the parameters of p; inspect.isgeneratorfunction is right", "two keywords stand for any number: each is handled by itself", "user overrides of setup and process are arbitrary functions"],
  state=[("_process / _process_kwargs / _process_isgenerator / _glet", "the process of a component")])

P("C43", "An event runs its action exactly once, at its moment",
  "An Event is scheduled exactly as given (name, at, delay, priority, urgent, mode, trace and standby options, environment). Its action is called exactly once, without arguments, when the event becomes current, both in yield and in yieldless mode; action_taken() is False until then and True afterwards. action() and action_string() return the current setting and, given a value, change it and nothing else.",
  ["inputs", "configurations"], "every combination of scheduling arguments, every action, yield and yieldless",
  "the tests make a few events with one or two arguments in one mode",
  [("Event.__init__ / Event.process / Event.process_yieldless", "scheduling and execution"), ("Event.action / action_string / action_taken", "queries")],
  "All paths of the initializer with unknown arguments: each has to reach the component initializer as the same term, with a process of the kind of the mode; on all paths of that process the calls of the action are counted and the flag is compared before and after.",
  technique="abstract interpretation of all paths with symbolic arguments",
  assumptions=["the action is an arbitrary function; what it does to the model is decided by the other properties", "scheduling itself is C01-C05 and C42"],
  state=[("_action / _action_taken", "the action of an event")])

P("C44", "Period monitors divide what their parent records over the periods",
  "Each value tallied to a monitor goes, with its weight, to the monitor of the current period of each of its period monitors, and once to the parent itself. Periods follow one another cyclically, each for its given duration. When a period starts, the monitor of the previous one is switched off and the new one on; for a level monitor the new period starts with the current value of the parent. A reset resets the monitors of all periods and the parent. Several period monitors on one monitor do not make a value be recorded twice. The monitors of the periods are of the kind of the parent (level or not) and belong to the environment the period monitor is created for.",
  ["inputs", "histories", "configurations"], "every number of periods and durations, every value and weight, level and non level, any number of period monitors",
  "the tests look at one series of values with one set of periods",
  [("PeriodMonitor.__init__ / PeriodMonitor.process", "creation and switching"), ("PeriodMonitor / Monitor.tally / Monitor.reset", "forwarding")],
  "All paths of creation, of one round of the switching process, of tally and of reset over a symbolic parent with several period monitors: the recipients and arguments of the forwarded calls, the hold durations and the switching on and off are compared with the specification.",
  technique="abstract interpretation of all paths over a symbolic set of period monitors",
  assumptions=["two period monitors with two periods each stand for any number", "itertools.cycle is right"],
  state=[("PeriodMonitor.m / perperiod / iperiod", "the monitors and the current period")])

P("C45", "Registering keeps an object in a list exactly once",
  "register(list) of a component, queue, store, resource, state or monitor appends the object to that list and returns it; it refuses an object that is already there (ValueError) and anything but a list (TypeError). deregister(list) removes exactly that object, returns it, and refuses one that is not there. A refused call changes nothing.",
  ["inputs", "histories"], "every list, with or without the object",
  "the tests register an object once or not at all",
  [("Component/Queue/Resource/State/Monitor.register", "append"), ("....deregister", "remove")],
  "All paths of each register and deregister over an unknown argument: the changes of the list are compared with the membership facts of the path; refused paths must have no effect.",
  technique="abstract interpretation of all paths, per class",
  assumptions=["list.append, list.remove and in are right"],
  state=[("registry", "a list of the user")])

P("C46", "Times can be given as numbers, distributions, dates or texts",
  "Wherever a time or a duration can be given (activate, hold, run, reset_now, the creation of a component or a component generator, the fail_at and fail_delay of request, wait, wait_for, from_store and to_store) it may be a number, a text with a number, a distribution or other callable, or, if the environment has a datetime0, a date (for a time), a timedelta (for a duration) or a text with a date or time. A callable is called exactly once per call. A number is used as it is, a date, timedelta or text is converted with the time unit and datetime0 of the environment; anything else is refused. A time is never taken for a duration or the other way round.",
  ["inputs", "configurations"], "every kind of specification for every time argument of every scheduling call, with and without datetime0",
  "the tests give numbers nearly everywhere; a distribution sampled twice, or a date that is not converted in one of the calls, passes them all",
  [("Environment.spec_to_time / spec_to_duration", "conversion"), ("Component.__init__/activate/hold/request/wait/wait_for/from_store/to_store", "time arguments"), ("Environment.run / reset_now", "time arguments"), ("ComponentGenerator.__init__", "at, delay, till, duration, moments")],
  "All paths of the two conversions, with float() succeeding or failing, with and without datetime0, compared with the specification; on all paths of each call the conversions of each time argument are counted and their kind compared, and no time that is stored or scheduled may contain the argument unconverted.",
  technique="abstract interpretation of all paths plus a taint analysis of the time arguments",
  assumptions=["float() accepts exactly numbers and texts with a number", "dateutil.parser.parse is right", "datetime_to_t and timedelta_to_duration are decided by C26"],
  state=[("_datetime0 / _time_unit", "date and unit of the environment")])

P("C47", "Interpolation and spacing give the values they promise",
  "interpolate(t, t0, t1, v0, v1) is v0 at t0, v1 at t1, linear in between and constant outside, whichever of t0 and t1 comes first; for a list or tuple this holds for each of the values. linspace(start, stop, num, endpoint) gives num evenly spaced values from start up to and including stop, or excluding stop without endpoint. interp(x, xp, fp) is fp at the points xp, linear in between, and left and right (the first and last of fp if not given) outside.",
  ["inputs"], "every order of t, t0 and t1, every value; every place of x between the points of the table",
  "the tests look at a few values",
  [("interpolate / _i", "interpolation"), ("linspace", "spacing"), ("interp", "table")],
  "All paths for each order of the arguments, with unknown values: the result is compared, as a rational function, with the linear formula.",
  technique="abstract interpretation of all paths, per order of the arguments, with exact comparison of rational functions",
  assumptions=["exact arithmetic; rounding is not considered", "bisect is right", "tables of up to three points stand for any table: only the two points around x are used", "when t0 equals t1, or at infinity, only what follows from the above is claimed"],
  state=[])

N("C38", "Samples follow the named probability law",
  "The values sampled from each distribution class have, over a long run, the distribution that its name and parameters say (mean, spread, shape, independence).",
  ["inputs", "histories"], "every parameter setting, every length of the sample",
  "a statistical statement about infinitely many samples",
  [("Exponential/Normal/Gamma/Beta/Erlang/Weibull/Poisson/....sample", "transform uniform samples")],
  "The law of a sample is a statement about real numbers produced by the generators of the standard library (random, numpy, scipy), which are not in this repository, and about transcendental functions; no dataflow or type argument bounds it. What is structural about it (parameters reach the generator, time unit, bounds, tables, use of the given random stream) is claimed in C23, C24, C35 and C36.")

N("C39", "Statistics are numerically accurate on long runs",
  "Means, variances and percentiles of monitors are within rounding error of the exact values, also for very long or badly scaled runs.",
  ["inputs", "histories"], "every series of tallied values",
  "accuracy depends on the actual numbers",
  [("Monitor.mean/std/percentile", "sums of floating point numbers")],
  "Floating point error depends on runtime values that cannot be bounded from the source; the formulas themselves are decided over exact arithmetic in C33.")

N("C40", "Simulated time makes progress",
  "A model never executes infinitely many events at one moment, so that run() always comes to its end time.",
  ["programs"], "every model",
  "a liveness statement about user processes",
  [("Environment.run/step", "main loop")],
  "Progress depends on the durations that user code passes to hold() and on which states and resources it waits for; the library neither guarantees nor can guarantee it. That each step takes exactly one event and that walks over requesters and waiters advance is part of C01, C11 and C32.")

N("C41", "The picture on the screen is what the animation objects describe",
  "Rendered frames (tkinter, Pythonista, video files, OpenGL) show each animation object with the described position, colour, size and text.",
  ["configurations", "inputs"], "every animation object, every back end",
  "pixels",
  [("AnimateXXX / Environment.animation_post_tick", "rendering")],
  "The result is produced by PIL, tkinter, OpenGL and imageio, none of which is analysed; that animating does not change the model is claimed in C30.")
