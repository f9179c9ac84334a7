#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/"
TESTS = ("The tests drive single components by hand (one junction, one buffer, one regulator), each on one input and on "
         "whatever interleaving the executor happens to pick; ")
SCHED = ["schedules", "inputs", "configurations"]
LEVEL = ("Exhaustive over the stated scenarios: every interleaving (states identified by fingerprint, sleep-set style "
         "reduction of non-interfering steps) where that fits the state cap, else every interleaving with at most n deviations from a fair default "
         "scheduler; evidence lists which. Executes the crate itself; the modelled part is async-std and the operating system below it, bound to the real "
         "ones by running the same scenarios with the real binary, files, pipes and processes. Trusts that model, the scenario list being representative, and the stated sizes.")
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique or
                  "stateless model checking of the real crate under a controlled scheduler (modelled async-std), plus the same scenarios on the real binary",
                  note=note or LEVEL, state=state))

prop("C01", "A line of components delivers exactly what it was given",
 "Along a pipeline without branches - from a file, stdin or a program, through launches, junctions, buffers and regulators, to a file, stdout or stderr - what comes out is byte for byte and in order what the programs on the way make of what went in: nothing is lost, repeated, reordered or altered, and pa2 ends with success.",
 SCHED, "every content (empty, unterminated, binary, CRLF, blank lines), every amount, every chain of components and every interleaving of the components, programs and readers",
 TESTS+"losing the last message, or a message when a queue is full, needs an interleaving or amount they never have.",
 ["src/motion.rs","src/faucet.rs","src/drain.rs","src/launch.rs","src/buffer.rs","src/junction.rs","src/regulator.rs","src/waiter.rs"],
 "motion() copies messages from a pull to a push until the pull ends, then closes the push; every component is built on it", "the bytes in the drains' destinations")
prop("C02", "Messages are whole lines however the bytes arrive",
 "Input is cut into messages after every LF (CRLF included), with an unterminated rest as a last message, whatever the sizes of the reads and writes it arrived in, and no part of a line is passed on before the line is complete or its source has ended. Where streams meet, lines of different sources are never torn or mixed into each other.",
 SCHED, "every way of cutting the input into reads, line lengths around the read size, every interleaving of several writers",
 TESTS+"the splitting tests use a handful of fixed chunks.",
 ["src/motion.rs","src/faucet.rs","src/launch.rs"],
 "motion_read collects 255-byte reads in a ReadSplitControl until a line end is found", "the bytes in the destinations, and when they become visible")
prop("C03", "Every output of a component gets everything",
 "When the output of a component goes to several receivers (by naming them in several connections or through a junction), every receiver gets every message exactly once and in the same order as the others, however fast or slow each of them is. A program's standard output and standard error stay separate streams.",
 SCHED, "fan-outs of two and three over every component type, amounts beyond every queue, slow receivers, every interleaving",
 TESTS+"only one fan-out with empty queues is tested.",
 ["src/motion.rs","src/junction.rs","src/config.rs","src/config_manip.rs","src/waiter.rs"],
 "motion_one sends each message to all pushes; a junction is inserted where several connections leave one port", "the bytes in the destinations")
prop("C04", "Inputs are merged completely, by priority and fairly",
 "When several inputs meet, everything from every input comes out exactly once and in that input's order. While a message waits at a junction input, at most one message is taken from each other input whose priority is the same or worse (a higher number is worse), so no input starves behind one that is not preferred to it; and nothing is taken from a worse input while one which was just served still has more waiting.",
 SCHED, "two to four inputs, equal and different priorities in any order of declaration, every interleaving of producers, junction and consumer",
 TESTS+"one fixed arrival order is tested; grouping and starvation depend on declaration order and arrival.",
 ["src/junction.rs","src/motion.rs","src/config.rs","src/config_manip.rs"],
 "junction inputs are grouped by priority; each round reads one message from every input of the first group that has any", "order of messages taken from the inputs; the bytes in the destinations",
 state=[{"name":"stdin groups","meaning":"inputs by priority, best first; served in that order"}])
prop("C05", "A pipeline whose sources end always ends",
 "When all sources of a pipeline without loops have ended, pa2 ends - with success or with reported errors, never by hanging, spinning or panicking - whatever the launched programs do with their input and output: ignore it, close it, exit, fail or are killed. This also holds when a source cannot be opened or a destination cannot be created.",
 SCHED+["fault_sequences"], "every behaviour of the programs with respect to their pipes, every kind of pipe, shapes with several sources and sinks, every interleaving",
 TESTS+"end-to-end termination with misbehaving programs is only tried by a few shell scripts.",
 ["src/waiter.rs","src/motion.rs","src/launch.rs","src/junction.rs","src/buffer.rs","src/regulator.rs","src/faucet.rs","src/drain.rs","src/back_off.rs"],
 "closing a component's inputs makes it close its outputs; errors drop the channel ends; waiter.start joins all components", "how the process ends")
prop("C06", "By default a receiver that goes away is an error with names",
 "When a receiver connected by an ordinary pipe or |T| stops accepting input while the sender still has more to say, pa2 ends with a failure which names the two components (one of them being the junction if several connections meet there); messages are never dropped with success reported. If everything sent was accepted, there is no error.",
 SCHED+["fault_sequences"], "receivers that read nothing, read one line, fail, are killed or close stdin, behind every type of sender, every interleaving",
 TESTS+"the breaking of each type of pipe is not tested with more messages than a queue holds.",
 ["src/motion.rs","src/launch.rs","src/junction.rs","src/connectable.rs","src/bin_support.rs"],
 "Breakable::Terminate turns a closed receiver into MotionError::OutputClosed with its journey", "exit status and the errors printed")
prop("C07", "|F| ends the sender quietly when its receivers are gone",
 "When all receivers behind |F| have gone away the sender finishes early - also when its own input never ends - and what feeds it is told likewise; pa2 ends with success if nothing else is wrong. As long as one receiver remains it gets everything, and everything the leaving receiver had written is delivered.",
 SCHED+["fault_sequences"], "chains of |F| over every component type, endless sources, several receivers of which some leave at any moment, every interleaving",
 TESTS+"no test has a receiver leave in the middle of a stream.",
 ["src/motion.rs","src/launch.rs","src/junction.rs","src/connectable.rs","src/buffer.rs"],
 "Breakable::Finish: the closed push is dropped; with no push left the motion ends and closes its pull", "exit status, destinations, whether the sending program was cut off")
prop("C08", "|C| consumes the rest when the receiver is gone",
 "When the receiver behind |C| goes away the sender carries on: its input is consumed to the end and the excess discarded, so a program sending into it runs to its normal end and is never cut off. Other receivers of the same sender lose nothing and pa2 ends with success.",
 SCHED+["fault_sequences"], "every component type as sender, every way of leaving, other receivers with any kind of pipe, every interleaving",
 TESTS+"no test has a receiver leave in the middle of a stream.",
 ["src/motion.rs","src/junction.rs","src/connectable.rs","src/buffer.rs","src/launch.rs"],
 "Breakable::Consume: the push stays and swallows", "exit status, destinations, exit of the sending program")
prop("C09", "A buffer takes everything at once and gives it back in order",
 "A buffer accepts any amount without ever holding up what feeds it, even while nothing is taken out, and delivers all of it in order and without loss. The size it reports to regulators is what it holds at that moment (the end of its input may count as one more).",
 SCHED, "amounts from none to thousands, any number of monitors, consumers that start late or leave, every interleaving of producer, buffer and consumer",
 TESTS+"one scripted sequence of buffer sizes is tested.",
 ["src/buffer.rs","src/motion.rs","src/utils.rs"],
 "an unbounded channel between two motions, each message counted in and out", "whether the feeder finishes, the bytes delivered, the sizes reported")
prop("C10", "Without a buffer, a slow receiver holds up its sources",
 "A receiver that does not read stops what feeds it: between a source and the slowest receiver no more than a fixed number of messages (16 for each component on the way) is ever held, however much the source offers, and branches which share the source are held up alike. No component other than a buffer, and no regulator watching it, stores without limit.",
 SCHED, "chains, fans, trees and merges over every component type except buffers; a receiver that stops at any point; amounts far above the bound; every interleaving",
 TESTS+"no test looks at how much is taken from a source.",
 ["src/motion.rs","src/waiter.rs","src/junction.rs","src/launch.rs","src/faucet.rs","src/regulator.rs"],
 "bounded channels between all components but inside the buffer", "what was taken from stdin compared with what came out")
prop("C11", "A regulator lets messages in between its watermarks",
 "Once the messages in its monitored buffers together reach the high watermark a regulator stops letting messages in (a few already on the way excepted), and it does not go on before they have fallen to the low watermark or less; then it does. What the buffers hold therefore stays within a small constant above the high watermark however much is offered, and below the high watermark nothing is held back.",
 SCHED, "watermark pairs including 0 and neighbours, one or several buffers near or far behind the regulator, messages one at a time and in bursts, every interleaving near the default",
 TESTS+"one scripted sequence against a hand-driven control is tested.",
 ["src/regulator.rs","src/buffer.rs","src/waiter.rs","src/motion.rs"],
 "buffers report sizes to the regulator's control which pauses and resumes the motion through a token channel", "messages in buffers and messages taken from stdin at every standstill",
 state=[{"name":"paused","meaning":"from total >= high until total <= low"}])
prop("C12", "A regulator never loses a wake-up",
 "A paused regulator always resumes once its buffers have drained to the low watermark - whatever the order of pauses, resumes, arriving messages and ends, with several regulators on one buffer and several buffers on one regulator - so that everything arrives and pa2 ends. It also ends when whoever empties the buffer goes away while the regulator is paused.",
 SCHED, "arrival patterns, consumers, watermark pairs and shapes; every interleaving near the default",
 TESTS+"a lost or blocking resume needs a particular interleaving of the buffer's reports with the regulator.",
 ["src/regulator.rs","src/buffer.rs","src/motion.rs","src/waiter.rs"],
 "pause and resume travel through a bounded token channel of which the motion holds the other end", "whether pa2 ends and what was delivered")
prop("C13", "Loops deliver every message and do not lock up",
 "In a configuration which feeds outputs back to earlier components through a buffer, every message goes round as often as the programs send it round and comes out exactly once, none is lost or duplicated, and the loop never deadlocks however many messages are in it. When the program in the loop ends, so does everything else.",
 SCHED, "loops over junctions with priorities, regulators and implicit junctions; up to 150 messages with several rounds each; every interleaving near the default",
 TESTS+"the one loop of the examples is run by hand.",
 ["src/buffer.rs","src/junction.rs","src/regulator.rs","src/waiter.rs","src/config.rs","src/motion.rs"],
 "a buffer in the loop keeps the cycle of bounded queues from filling up", "the bytes in the destinations and how the process ends")
prop("C14", "Programs are started and connected as configured",
 "A launch starts its command exactly once with exactly its arguments in order, in its directory, with its environment variables added to those pa2 has. The program reads on stdin precisely what was sent to it and then end of file (nothing if there is no input); everything it writes to a connected output before it ends, however it ends, is delivered, and what it writes to an unconnected one vanishes without disturbing anybody.",
 SCHED, "argument lists over an alphabet of awkward strings, combinations of environment, directory and arguments, every order of writing to both outputs beyond what pipes hold, every way of ending, every interleaving",
 TESTS+"one launch with one line of input is tested.",
 ["src/launch.rs","src/motion.rs","src/waiter.rs","src/config.rs"],
 "Launch::start builds the process and joins three motions for stdin, stdout and stderr", "what the program sees, what it writes and what arrives")
prop("C15", "pa2 ends only after all its programs have",
 "pa2 does not end while a program it launched is still running, even if that program has no output connected, has closed all its pipes long before, or something else in the pipeline has failed; and it does not kill programs to end.",
 SCHED+["fault_sequences"], "programs which let go of their pipes at any point and live on for any time, with every combination of connected ports, failing neighbours, every interleaving",
 TESTS+"no test has a program outlive its pipes.",
 ["src/launch.rs","src/waiter.rs","src/config.rs"],
 "every launch has an exit-status consumer added if the configuration has none, and the launch waits for the status", "whether every program's last action precedes pa2's end")
prop("C20", "The exit port carries the program's exit status",
 "A launch's exit output delivers exactly one message: the exit code in decimal, or an underscore if a signal ended the program. It is sent after the program has ended and before pa2 does, whatever else is connected, and can be routed like any other message.",
 SCHED, "every exit code and signal, every combination of connected ports, programs that close their pipes early, exits routed into every component type, every interleaving",
 TESTS+"exit ports are not tested with other ports or signals.",
 ["src/launch.rs","src/motion.rs","src/waiter.rs","src/config.rs"],
 "after the three motions end the status is awaited and sent", "the bytes in the destinations")
exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": p["mech"], "where": ", ".join(p["files"])}], "observe_at": [p["observe"]]}
        if p["state"]:
            a["state"] = p["state"]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "./check build",
     "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "model_checking", "level_note": p["note"]} for p in P],
     "not_applicable": []}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
