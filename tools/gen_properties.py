#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the anchors stay easy to edit)."""
import json, os

P = []

def add(id, title, statement, over, quant, why, files, mech, observe, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook, state=state or [])))

SIM = "pyactr/simulation.py"; PR = "pyactr/productions.py"; DM = "pyactr/declarative.py"; UT = "pyactr/utilities.py"
VI = "pyactr/vision.py"; MO = "pyactr/motor.py"; GO = "pyactr/goals.py"; BU = "pyactr/buffers.py"; EN = "pyactr/environment.py"; ML = "pyactr/model.py"; CH = "pyactr/chunks.py"

add("C01", "Simulated time never runs backwards and every event happens at its stamp",
    "In every simulation the reported events are in non-decreasing order of time, each is reported exactly when the simulated clock (to a tenth of a millisecond) shows the time stamped on it, and none precedes the initial time the simulation was started with. This holds for every mix of module durations, random draws, stimulus schedules, key presses and interrupted actions.",
    ["schedules", "inputs", "configurations"],
    "all models, initial times, module delays, noise draws (including extreme ones), stimulus schedules and triggers",
    "The tests follow six fixed models and look at a handful of stamps; which stamps meet depends on durations and draws that only vary outside the tests.",
    [SIM, PR, EN],
    [("delay computed from event time and rounded clock", SIM + " __localprocess__, __envprocess__"), ("event stamps", PR + " roundtime(time) in every action")],
    ["event trace (current_event / printed trace)", "Simulation.show_time()"])

add("C02", "A run's history does not depend on how the simulation is driven",
    "For a fixed model, inputs and random draws, the history of events, the final buffers, declarative memory, rule set and utilities are the same whether the simulation is run in one go, in arbitrary slices of run(), by step() or steps(), with or without trace output, in virtual or in real time, and in any process (any string-hash seed). In particular pausing and resuming a run at an arbitrary point, or continuing to run it after it has come to rest, changes nothing.",
    ["schedules", "crash_points", "configurations"],
    "all models and draws; all pause points, slicings and driving modes",
    "Every test drives its model one way, by step(); no test pauses a run, resumes it, or compares two ways of driving.",
    [SIM, PR],
    [("run/step/steps", SIM), ("end-of-run compilation", SIM + " run"), ("rule order", PR + " procedural_process")],
    ["event history, buffers, memory, productions after each drive"])

add("C03", "One rule at a time: a selected rule fires or is stopped, after the firing time",
    "At most one production rule is in progress at any time: every selected rule is followed exactly one rule-firing time later by that rule firing, if its conditions hold at that moment, or else by that rule being reported as stopped, and no other rule is selected in between. A stopped rule changes no buffer, memory or utility. Once a rule has ended - fired, its immediate actions done, or stopped - rule selection is tried again at that same instant.",
    ["schedules", "histories"],
    "all interleavings of module completions, stimulus changes and key presses with the firing interval of the selected rule",
    "The stopped-from-firing path needs a module to change a buffer inside the 50 ms between selection and firing; no test reaches it.",
    [PR, SIM],
    [("procedural_process", PR), ("__procprocessGenerator__", SIM)],
    ["PROCEDURAL events", "buffers before and after"])

add("C04", "The rule selected is a matching rule of the highest utility",
    "A rule is selected only if its conditions hold at that instant, and no rule whose conditions hold has a higher current utility (utility plus the noise drawn for it, when utility noise is on; the current utility includes what has been learned). 'No rule found' is reported only when no rule's conditions hold; conditions cover buffer contents (values, negated values, variables shared across buffers, empty slots) and queries of buffers and module states.",
    ["inputs", "programs", "schedules", "histories"],
    "all rule sets, buffer contents, module states, noise draws and learning histories",
    "Tests use at most four rules and compare one selection order; nothing evaluates all rules at every conflict resolution, or after utilities have moved.",
    [PR, CH, UT],
    [("conflict resolution loop", PR + " procedural_process"), ("LHStest/test/query", PR), ("Chunk.match", CH)],
    ["RULE SELECTED / NO RULE FOUND events", "buffers", "productions' utilities"])

add("C05", "No lost wake-up: a model is idle only while no rule can apply",
    "Whenever simulated time is about to advance while no rule is in progress, no rule's conditions hold; so once all modules and the environment have gone quiet, the model rests only in a state in which no rule applies. Every completion of a retrieval, goal-like, visual or motor action while no rule is in progress leads to rule selection being tried again at that same instant, within a bounded number of steps.",
    ["schedules", "histories"],
    "all orders in which simultaneous or near-simultaneous module completions, stimulus changes and key presses can reach an idle production system",
    "It is a liveness property over the order of simultaneous events; tests see one order per model and stop when they have seen the event they wait for.",
    [SIM],
    [("proc_activate lock", SIM + " __activate__, __procprocessGenerator__"), ("bottom-of-queue hack", SIM + " five zero timeouts")],
    ["PROCEDURAL events", "buffers and states whenever the clock advances"])

add("C06", "Firing a rule performs exactly its actions on the buffers",
    "A buffer's content changes only through an action of a fired rule, the completion of a request, or automatic vision at a change of the screen or a movement of the eye, and then exactly as specified: modifying changes just the named slots, clearing empties, overwriting and setting a goal-like buffer put exactly the specified chunk there with the values bound by the rule's conditions. Under strict harvesting, a buffer tested by the fired rule and not used in its actions is emptied at the firing instant; without it, such a buffer is left as it is.",
    ["programs", "inputs", "schedules"],
    "all rules, bindings, harvesting settings, goal delays and interleavings with other modules",
    "Tests inspect single buffers after single rules; nothing checks that every other buffer stays untouched at every step of every run.",
    [PR, BU, GO],
    [("update and its action methods", PR), ("Buffer.modify / Goal.create / clear", BU + ", " + GO), ("strict harvesting", PR + " update")],
    ["buffers after every step"])

add("C07", "Declarative memory only gains: each clearing adds exactly one trace",
    "Each time a chunk is cleared from a buffer, that chunk gains exactly one presentation in the declarative memory tied to that buffer, stamped with the moment of clearing; nothing else adds presentations. No chunk or earlier presentation is ever lost, altered or reordered, and no presentation lies in the future.",
    ["histories", "schedules", "inputs"],
    "all histories of clearing, retrieval, harvesting and interruption over one or several declarative memories",
    "Tests look up one chunk's times at one point of one model; conservation is over every step of every history.",
    [DM, BU, GO, VI, PR],
    [("DecMem.add", DM), ("clear in each buffer", GO + ", " + DM + ", " + VI), ("clear with fallback memory", PR + " clear")],
    ["declarative memories after every step"])

add("C08", "Retrieval returns a matching chunk of the highest activation, or nothing",
    "A retrieved chunk is an element of the retrieval buffer's declarative memory that matches the request (after bindings; with partial matching, any chunk) and, with subsymbolic activation, has the highest activation at or above the retrieval threshold among all candidates, where activation is base-level learning over the chunk's presentations plus spreading activation, mismatch and the noise drawn for it. Nothing is retrieved only if no candidate qualifies; a chunk presented for the first time at that very instant, and chunks excluded by a recently-retrieved test, are not candidates.",
    ["inputs", "histories", "configurations"],
    "all memory contents and presentation histories, requests, activation parameters, noise draws and retrieval moments",
    "Tests use one or two chunks and compare one or two activations; the winner among many candidates at arbitrary moments with arbitrary draws is never checked.",
    [DM, UT, CH],
    [("DecMemBuffer.retrieve", DM), ("baselevel_learning, spreading_activation", UT), ("Chunk.match with partial matching", CH)],
    ["RETRIEVED events", "retrieval buffer content"])

add("C09", "Every retrieval ends on time and in the right outcome",
    "An uninterrupted retrieval ends exactly its latency after it was requested: F*exp(-f*A) for a retrieved chunk of activation A, F*exp(-f*threshold) on failure in the subsymbolic mode, and zero or one rule-firing time respectively otherwise. On success the buffer then holds the retrieved chunk (its old content having gone to memory) and the module is free; on failure the buffer is unchanged and the module reports an error until the next request to the buffer or another action on it.",
    ["schedules", "inputs", "configurations"],
    "all requests, latency parameters, activations and moments",
    "Tests compare two latencies; outcomes of failing retrievals with full buffers, zero latencies and back-to-back requests are not covered.",
    [DM, PR, UT],
    [("retrieve", PR), ("retrieval_latency", UT)],
    ["START RETRIEVAL / RETRIEVED events", "?retrieval state queries"])

add("C10", "A superseded request never delivers; the last request always does",
    "When a rule makes a request to a retrieval, goal-like or visual-location module that is still working on an earlier request, the earlier one produces no further event and no effect. Every request that is not superseded delivers its outcome exactly once, after exactly its own duration counted from its own start. Only a later request supersedes an earlier one, except that automatic vision at a change of the screen may take over from a visual-location request.",
    ["schedules", "histories"],
    "all timings of a second or third request relative to the progress of the earlier ones, including equal instants",
    "Needs a request to arrive inside another one's interval, and in particular at its boundaries; no test issues overlapping requests to these modules.",
    [SIM, PR],
    [("interruptibles and __extraprocessGenerator__", SIM), ("_INTERRUPTIBLE actions", PR)],
    ["module events", "buffers"])

add("C11", "Key presses are performed in order, once each, never overlapping",
    "Each motor command that is not replaced while it is still being prepared leads to exactly one press of its key, and presses happen in the order of the commands. Preparation, initiation, execution and finishing take the times the motor module specifies for that key (preparation shortened after a similar key or when prepared), initiation starts only when preparation is complete and the previous movement has finished, and no two movements are ever in execution at once.",
    ["schedules", "histories"],
    "all sequences and timings of key-press commands relative to the phases of earlier ones",
    "One test presses three keys at fixed moments and looks at two stamps.",
    [PR, MO, SIM],
    [("motorset / motorcontinue", PR), ("two-stage process", SIM + " __extraprocessGenerator__"), ("last_key", MO)],
    ["manual events"])

add("C12", "The environment shows each stimulus exactly for its window",
    "The stimuli appear in the given order, each until its scheduled end (the start of the environment plus the durations of the stimuli up to it) or until a key in its trigger set is pressed while it is shown, whichever comes first; a key press advances the environment by at most one stimulus, other keys have no effect, and the last stimulus stays. This holds for key presses at any moment, including at the very instant a stimulus ends, and after the last stimulus.",
    ["schedules", "inputs", "histories"],
    "all stimulus lists, durations, trigger sets and key-press moments",
    "One test runs one schedule whose triggers never coincide with a stimulus boundary.",
    [EN, SIM, PR],
    [("environment_process", EN), ("__envGenerator__", SIM), ("env_interaction", PR + ", " + SIM)],
    ["Environment.stimulus after every step", "key press events"])

add("C13", "Visual search finds only, and always, what is on the screen and fits",
    "A visual-location request returns the location of a stimulus that is on the screen at that moment and satisfies the request (value, exact, relative and lowest/highest/closest positions, attended or not within the memory of recent locations), and fails only if no stimulus on the screen does. Automatic search, at each change of the screen and each movement of attention, places in the buffer the location of the closest stimulus on the screen that has not been attended recently, and of no other.",
    ["inputs", "schedules", "histories"],
    "all screens, requests, focus positions, attention histories and moments of stimulus change",
    "No test checks a search result against the screen; the screen changes and focus moves happen during runs.",
    [VI, PR, SIM],
    [("VisualLocation.find / automatic_search", VI), ("retrieveorset", PR), ("__envGenerator__", SIM)],
    ["ENCODED LOCATION events", "visual_location buffer"])

add("C14", "Attention shifts encode the attended object on EMMA's schedule",
    "A shift of attention encodes the object that was on the screen at the requested location, with its text as value; preparation, eye movement and encoding take the times EMMA gives for the distance and the draws made (the fixed times without EMMA), the eye lands at the object, and successive eye movements do not overlap. A new shift requested during preparation replaces the old one, which then encodes nothing it has not yet encoded, and a shift to an object that is gone when its encoding is due fails; a shift never leaves the module busy, or the run broken, because the screen changed meanwhile. Without a request, an object is encoded only if a new screen shows it within a degree of the focus of attention, its text not being the one in the buffer; such an object is encoded, in EMMA's time, unless attention is shifted meanwhile or that was turned off.",
    ["schedules", "inputs", "fault_sequences"],
    "all screens, distances, draws, and moments at which stimuli change or new shifts are requested",
    "One test follows one shift with noise off on a screen that does not change meanwhile.",
    [VI, PR, UT],
    [("visualshift / visualcontinue / visualencode", PR), ("Visual.shift", VI), ("EMMA timing", UT)],
    ["visual events", "visual buffer", "Environment.current_focus"])

add("C15", "Rewards reach every rule used since the last reward, once, discounted by delay",
    "With utility learning on, when a rule carrying a reward fires, every rule selected since the previous reward, including itself, has its utility moved by alpha*(reward - delay - utility) once per selection in order, where delay is the time since that selection, and no other utility changes. Without utility learning, or at rules without a reward, utilities never change.",
    ["histories", "schedules"],
    "all histories of rule selections and rewards, over any number of simulations of one model",
    "One test checks one reward with two rules.",
    [UT, PR],
    [("modify_utilities", UT), ("used_rulenames", PR)],
    ["productions' utilities after every step"])

add("C16", "Simulations in one process do not influence each other",
    "Several simulations of separately built models that do not define the same chunk types or named chunks differently, stepped in any interleaving in one process, each have exactly the history they have when run alone. Building or starting another model, with its own similarities, parameters or motor preparation, changes nothing in a simulation already prepared.",
    ["schedules", "configurations"],
    "all interleavings of the steps of several simulations and of the construction of further models",
    "No test runs two simulations in turns; shared class-level state only shows under interleaving.",
    [CH, ML, SIM, PR],
    [("class-level registries", CH), ("model parameters", ML), ("similarities", ML + ", " + CH)],
    ["event histories"])

add("C17", "Real-time runs follow the clock and change nothing else",
    "With realtime on, each event is reported no earlier than its simulated time after the start on the wall clock and, if the host keeps up, no later; the history of events is the one of the virtual-time run. Stalls of less than one second, early or late wake-ups and a coarse clock do not change, drop or reorder any event.",
    ["fault_sequences", "schedules"],
    "all host clock behaviours with stalls under a second: late and early wake-ups, coarse ticks, slow steps",
    "No test runs in real time.",
    [SIM],
    [("RealtimeEnvironment", SIM)],
    ["trace output against a simulated host clock"])

add("C18", "The GUI front end shows every screen, in order, and always comes to an end",
    "In GUI mode the simulation thread and the window thread together give the same history of events as without the GUI, and the window draws the stimuli and focus positions in the order in which they occurred, the drawn screen always being one that was shown. When the simulation ends or fails, the window loop ends within a bounded number of polls, under any interleaving of the two threads.",
    ["schedules", "fault_sequences"],
    "all interleavings of the worker thread's steps and the window's polls; errors raised in the worker",
    "The GUI cannot run in the tests (no display), and thread interleavings are not sampled by any test.",
    [SIM],
    [("__workerThread1__ / __periodicCall__", SIM), ("GuiPart.processIncoming", SIM)],
    ["drawing calls on a stand-in tkinter", "event history"])

add("C19", "Compiled rules do what their parents did",
    "A rule created by production compilation applies only where the first parent applies and the second would apply after it (a retrieval between them returning what it returned); in the situation it was compiled from it applies, unless modules changed something between the two firings, and leaves goal-like buffers as firing the two parents one after the other does and makes the requests they make; compilation never alters the parent rules or happens for pairs whose merging is unsafe (competing requests, dependence on the outcome of a motor or visual request or of a failed retrieval). A pair compiled again is recognised, not duplicated, and its utility moves toward the first parent's only then and only with utility learning on.",
    ["programs", "histories", "schedules"],
    "all pairs of rules that fire in succession, their bindings and retrieved chunks, and all run histories that compile them",
    "Tests compile eleven fixed pairs.",
    [PR, UT],
    [("compile_rules, __collapse__, __rename__, __substitute__", PR), ("match, make_chunkparts_*", UT)],
    ["RULE CREATED / RE-CREATED events", "productions", "differential runs"])

add("C20", "Module states tell the truth",
    "A module that has accepted a request which is neither finished nor superseded answers busy to a state query, and one that has none pending answers free, or error after a failed request, never busy; so no module is left busy when everything has gone quiet. For motor the preparation, processor and execution states are busy exactly during the phases they name; the visual module is busy from a request to shift attention until the object is encoded or the shift fails, its preparation and execution states busy while it prepares and moves, and everything is free when it rests.",
    ["schedules", "histories"],
    "all interleavings of requests, completions, interruptions, clearings and stimulus changes",
    "Tests query states at two points of two models.",
    [PR, SIM, BU, MO, VI],
    [("state assignments in action methods", PR)],
    ["buffer.test(state, value) after every step"])

add("C21", "Buffers hold at most one chunk, and chunks in them are ground",
    "At every moment of every run each buffer holds at most one chunk, and no chunk in a buffer or declarative memory contains an unresolved variable or a negated value. A chunk once in a buffer or memory never changes in place: contents change only by replacing the chunk.",
    ["schedules", "programs", "histories"],
    "all moments of all runs",
    "Tests inspect contents at the end of a few runs.",
    [BU, GO, DM, UT],
    [("check_bound_vars", UT), ("Buffer.add", BU)],
    ["buffers and memories after every step"])

add("C22", "Admissible models never break the simulator; faulty rules are reported",
    "Running a model whose rules are legal never ends in an internal error, whatever the timing, draws, screens and keys; it ends only by reaching the requested time or by coming to rest. A rule that cannot be carried out (an unbound variable, a negated value in an action that sets a buffer, an unknown key or command) is reported as an ACT-R error naming the problem when it fires, and never silently skipped, nor does the buffer concerned ever get a chunk from it.",
    ["schedules", "inputs", "fault_sequences"],
    "all legal models and interleavings; all rule faults injected at arbitrary points of a run",
    "Tests run six well-behaved models to a chosen event; internal errors need particular coincidences.",
    [SIM, PR, DM, VI, MO, UT],
    [("error wrapping in procedural_process", PR), ("check_bound_vars", UT), ("interrupt and trigger handling", SIM)],
    ["exceptions from run()/step()"])

add("C23", "Chunk subsumption is a partial order consistent with equality",
    "For ground chunks, being part of another chunk is reflexive, transitive and antisymmetric up to equality, and equal chunks hash alike. Slot order, the way a chunk was written and empty slots do not matter.",
    ["inputs"], "all ground chunks",
    "Tests compare about forty fixed pairs.",
    [CH], [("__le__, match, __hash__", CH)], ["comparison operators"])

add("C24", "String and function notations for chunks and rules are equivalent",
    "A chunk or rule written as a string means the same as one built by makechunk or as a Python function with the same slots, values, variables and negations. Ill-formed strings are rejected with an ACT-R error.",
    ["inputs", "programs"], "all chunk and rule texts",
    "Tests parse about twenty fixed strings.",
    [CH, UT, ML], [("getchunk / getrule / createchunkdict", CH + ", " + UT)], ["parsed chunks and rules"])

add("C25", "Visual geometry is symmetric and monotone in distance",
    "Visual angle, pixel distance and the EMMA delay are symmetric in the two positions, zero only for equal positions, and grow with distance for every screen size, resolution and viewing distance. Converting an angle to a distance and back gives the same angle.",
    ["inputs"], "all positions and screen geometries",
    "Tests evaluate no geometry directly.",
    [UT], [("calculate_visual_angle, calculate_distance", UT)], ["function results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
