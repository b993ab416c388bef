#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Whatever is encoded for sending is decoded back as the same command",
 "For every protocol that can be sent (NEC, NEC16, NEC debug, Samsung NEC, RC5, RC6) and every command whose fields fit the protocol (NEC family: a full frame, i.e. the repeat flag clear), decoding the pulse train produced by the encoder at a given tick frequency with a receiver of the same frequency yields exactly one command, equal in every field (address, command, toggle, start bits, raw bits, repeat flag) to the one encoded, and no error. This holds at every tick frequency from 20 kHz upwards, and for any number of frames sent back to back or separated by pauses longer than any interval of the protocol.",
 ["inputs", "configurations"],
 "all commands of the protocol x all tick frequencies >= 20 kHz x any number of consecutive frames",
 "The tests cover addr/cmd 0..254 of NEC and RC6 and RC5 without toggle, at 40 kHz, comparing only two fields; other frequencies get one command each, and NEC16/Samsung/debug and toggles get none.",
 ["src/protocol/nec/encoder.rs", "src/protocol/rc5/encoder.rs", "src/protocol/rc6/encoder.rs", "src/protocol/nec/decoder.rs", "src/protocol/rc5/decoder.rs", "src/protocol/rc6/decoder.rs", "src/protocol/nec/standard.rs", "src/protocol/nec/nec16.rs", "src/protocol/nec/samsung.rs", "src/protocol/rc5/mod.rs", "src/protocol/rc6/cmd.rs"],
 [("ProtocolEncoder::encode", "src/sender/mod.rs, src/protocol/*/encoder.rs"), ("pack/unpack", "src/protocol/nec/*.rs, src/protocol/rc5/mod.rs"), ("decoder state machines", "src/protocol/*/decoder.rs")],
 observe=["ProtocolEncoder::encode output", "Receiver::event results"])

prop("C02", "Frames within the protocol's timing tolerance are decoded exactly",
 "A well-formed frame of any supported protocol (NEC, NEC16, Samsung NEC, Apple NEC, NEC debug, RC5, RC6, Samsung Blu-ray, Denon), built from the protocol definition, is reported as exactly one command with exactly the transmitted fields, at its last bit and without any error, whenever every interval lies inside the protocol's tolerance (rise-to-rise for the pulse-distance protocols: NEC header and repeat 7 %, zero 25 %, one 12 %; Blu-ray header and pause 5 %, bits 10 %; Denon header 8 %, bits 10 %; each interval for RC5: 12 % single, 10 % double; RC6: 12 %, leader -6 %/+12 %) allowing for tick rounding. For the pulse-distance protocols the split of a bit into mark and space does not matter. It holds for every tick resolution fine enough to express the tolerance.",
 ["inputs", "configurations"],
 "all payloads x all in-tolerance interval assignments x all tick resolutions (20 kHz to the GHz range)",
 "Tests replay seven recorded captures, all near nominal timing and mostly at 40 kHz; Samsung Blu-ray has no decoding test at all and the Denon test only counts commands.",
 ["src/protocol/nec/decoder.rs", "src/protocol/rc5/decoder.rs", "src/protocol/rc6/decoder.rs", "src/protocol/sbp/mod.rs", "src/protocol/denon/mod.rs", "src/receiver/time.rs", "src/receiver/time/primitives.rs", "src/protocol/utils.rs"],
 [("PulseSpans windows", "src/receiver/time.rs"), ("scale_with_samplerate", "src/protocol/utils.rs"), ("bit accumulation per protocol", "src/protocol/*")],
 state=[("bitbuf/buf/address/command", "bits collected so far", "protocol decoders")],
 observe=["Receiver::event results"])

prop("C03", "A command is reported only for a complete, in-tolerance frame",
 "Every command a receiver reports is justified by the signal just received: an unbroken run of intervals, each inside the protocol's tolerance, from the frame's start to its last bit, and it carries exactly the bits of that run (a NEC repeat: an in-tolerance repeat header). A frame with one interval outside every tolerance window (a zero-length one included), or cut short, is never reported; if that happens after its header the NEC family and Samsung Blu-ray report exactly one decoding error for it, at the offending interval or when the next signal starts, and no receiver reports an error while nothing is being received.",
 ["inputs", "fault_sequences", "histories"],
 "all alternating edge/interval streams, including noise, truncated frames, stretched or zero-length intervals at any position",
 "Only one test feeds a foreign signal (one RC5-like capture); no test feeds corrupted, truncated or random intervals and checks that nothing is reported.",
 ["src/protocol/nec/decoder.rs", "src/protocol/rc5/decoder.rs", "src/protocol/rc6/decoder.rs", "src/protocol/sbp/mod.rs", "src/protocol/denon/mod.rs", "src/receiver/time.rs"],
 [("window lookup and reset on a miss", "PulseSpans::get, event() of each decoder")],
 observe=["event stream fed", "Receiver::event results"])

prop("C04", "After a pause every receiver is ready: earlier signals leave no trace",
 "Whatever edges and intervals a receiver has seen before (noise, foreign or broken frames, valid frames, errors, in any order and number), once the line has been quiet for longer than the longest interval of the protocol, the next well-formed frame is decoded to exactly the command a new receiver would report for it, at the same edge; at most its very first edge may report the error of an earlier, broken off frame. No bit, flag or position of an earlier signal ever shows up in a later command.",
 ["histories", "fault_sequences"],
 "all prior event histories (any edges, any intervals, any length) followed by a pause and a valid frame",
 "Tests use a fresh receiver per command; the two multi-frame captures repeat the same command, so leaked bits would be invisible.",
 ["src/protocol/nec/decoder.rs", "src/protocol/rc5/decoder.rs", "src/protocol/rc6/decoder.rs", "src/protocol/sbp/mod.rs", "src/protocol/denon/mod.rs", "src/receiver.rs", "src/receiver/ppoll.rs"],
 [("ProtocolDecoder::reset", "protocol decoders"), ("reset after Done/Error", "src/receiver.rs event_edge, src/receiver/decoder.rs event_total")],
 state=[("state, bitbuf, dt_save, clock, toggle", "decoder registers that must not survive a frame", "protocol decoders")],
 observe=["results of the receiver with history vs the transmitted command"])

prop("C05", "NEC repeats report the last received command, flagged as repeat",
 "For the NEC family, a repeat code (in tolerance) reports exactly one command equal to the most recently received frame with the repeat flag set, however many repeats follow and whatever the pauses; a full frame always has the repeat flag clear. If no frame has been received yet, or the most recent frame was broken off or invalid, a repeat code reports nothing.",
 ["histories", "inputs"],
 "all sequences of frames, repeats, broken frames and pauses",
 "One capture with one command followed by seven repeats, checking only the flags of three of the eight.",
 ["src/protocol/nec/decoder.rs", "src/protocol/nec/standard.rs", "src/protocol/nec/samsung.rs", "src/protocol/nec/nec16.rs", "src/protocol/nec/apple.rs"],
 [("bit buffer kept across reset", "src/protocol/nec/decoder.rs"), ("RepeatDone", "src/protocol/nec/decoder.rs")],
 state=[("bitbuf", "bits of the last frame, reused by a repeat", "NecDecoder")],
 observe=["Receiver::event results"])

prop("C06", "Every receiver front end reports the same for the same signal",
 "Event receivers fed by interval, by timestamp, by explicit edge or through a pin, the periodically polled receiver (with or without pin), the buffer receiver and the bare decoder state machine all report the same commands in the same order for the same signal, and all but the buffer receiver the same errors at the same edges. In particular the buffer receiver returns every command in the buffer, also those after a corrupted frame, starts afresh with every buffer it is given (also after a pass that was abandoned), and gives the same commands through every way of using its iterator (step by step, nth, last, for_each). A pin that reads low means mark.",
 ["inputs", "histories", "configurations"],
 "all signals (valid, noisy, mixed) x all front ends x all protocols",
 "Tests exercise one front end at a time; polled and pin-based receivers have one RC5 capture and no decoding test respectively.",
 ["src/receiver.rs", "src/receiver/ppoll.rs", "src/receiver/bufferinput.rs", "src/receiver/iter.rs", "src/receiver/decoder.rs", "src/receiver/error.rs"],
 [("event_edge / event / event_instant", "src/receiver.rs"), ("poll_base", "src/receiver/ppoll.rs"), ("BufferIterator::next", "src/receiver/iter.rs"), ("event_total", "src/receiver/decoder.rs")],
 state=[("clock, last_edge, edge", "poll time base", "PeriodicPoll"), ("prev_instant", "last event time", "Receiver"), ("pos", "buffer position", "BufferIterator")],
 observe=["per-edge results of each front end"])

prop("C07", "Results do not depend on the time type or on clock wrap-around",
 "The same signal gives the same commands and errors whether time is measured in u32 or u64 ticks or in 32- or 64-bit fugit instants of the same rate, wherever the clock stands when the signal starts. That includes signals during which a 32-bit timestamp clock or the poll counter wraps around: no frame is lost, changed or invented because of the wrap. It also holds for clocks written by users (other widths, units, start values). A timestamp before the previous one counts as no time passed, and the next interval is measured from it (plain u32 ticks cannot be before another, they wrap).",
 ["inputs", "histories", "configurations"],
 "all signals x {u32, u64, fugit u32, fugit u64} x tick rates x all start instants, including wrap-around inside a frame",
 "Only one fugit test (1 MHz, intervals not timestamps); no test uses u64, timestamps, or gets near a wrap.",
 ["src/receiver/time.rs", "src/receiver/time/primitives.rs", "src/receiver/time/fgt.rs", "src/receiver.rs", "src/receiver/ppoll.rs"],
 [("InfraMonotonic::checked_sub / create_span", "src/receiver/time/*.rs"), ("wrapping poll clock", "src/receiver/ppoll.rs")],
 observe=["results per time type"])

prop("C08", "A multi-receiver equals its protocols' receivers run side by side",
 "At every event, slot i of a multi-receiver of any supported size (2 to 6) holds a command exactly when a separate receiver for its i-th protocol reports one for the same events, with that protocol's id and the same address, command, raw value and repeat flag; errors of one protocol never disturb another. The iterator forms yield exactly the filled slots in order, and the pin forms read the pin level (low = mark) and hand out pin errors without consuming the event.",
 ["inputs", "histories", "configurations"],
 "all signals (mixed protocols, noise) x all tuple sizes and protocol orders",
 "There is no test of the multi-receiver at all.",
 ["src/receiver/multi.rs", "src/cmd.rs"],
 [("ReceiverWrapper tuples", "src/receiver/multi.rs"), ("From<Cmd> for AnyCommand", "src/cmd.rs, src/protocol/denon/mod.rs")],
 observe=["event_generic / event / *_iter results"])

prop("C09", "No input makes the library panic, overflow or misbehave",
 "Constructing any receiver at any frequency and feeding it any sequence of edges, intervals, timestamps, polls and pin errors (including zero and maximal durations, repeated edges and clocks that jump) always returns normally: no panic, no arithmetic overflow, no undefined behaviour, no endless loop. The same holds for building any receiver, and for loading any command of a sendable protocol into a sender with sufficient buffer and ticking it with any clock values.",
 ["inputs", "histories", "configurations"],
 "all call sequences x all argument values x all frequencies x all time types",
 "Tests only use well-behaved captures; none has an interval near the type's limit, an odd frequency or a repeated edge.",
 ["src/receiver.rs", "src/receiver/time.rs", "src/receiver/time/primitives.rs", "src/receiver/time/fgt.rs", "src/protocol/utils.rs", "src/protocol/nec/decoder.rs", "src/protocol/sbp/mod.rs", "src/protocol/denon/mod.rs", "src/sender/senders.rs", "src/sender/buffer.rs"],
 [("interval sums", "nec/sbp/denon decoders"), ("scale_with_samplerate, Span::new", "src/protocol/utils.rs, src/receiver/time/*.rs"), ("wrapping clocks", "src/receiver/ppoll.rs, src/sender/senders.rs")],
 observe=["panics, sanitizer and interpreter reports"])

prop("C10", "A failing pin read is reported and has no other effect",
 "When reading the input pin fails, the event, timestamp-event, poll or multi-receiver call returns exactly that pin error, and every later result is the same as if the failed call had never been made. No failure pattern can produce, change or lose a command beyond the edges that were not seen.",
 ["fault_sequences", "histories"],
 "all patterns of pin failures over all signals",
 "No test uses a pin that can fail.",
 ["src/receiver.rs", "src/receiver/ppoll.rs", "src/receiver/multi.rs", "src/receiver/error.rs"],
 [("is_low()? before any state change", "src/receiver.rs, src/receiver/ppoll.rs, src/receiver/multi.rs")],
 observe=["results of the faulted receiver vs the fault-free call history"])

prop("C11", "The sender plays exactly the loaded frame, then stops",
 "After a command is loaded into an idle sender, its output follows the encoded pulse train tick by tick: starting at the first tick with the carrier on, every mark and space lasts exactly its number of ticks, and after the last one the carrier goes off and stays off until the next load. This holds for the bundled protocols and for any encoder written by a user (trains of a delay, during which the carrier is off, followed by marks and spaces, ending with a mark, of any length up to the buffer's; a delay other than zero counts from timestamp zero). What was sent before never influences it (other commands, longer frames, other protocols, any idle time), and a load into the pin-driving sender while its transmission is running is ignored. The sender without a pin may be ticked at any times, also coarser than its frame: each edge comes at the first tick at which the current mark or space has lasted its length, and it reports transmitting until the frame has ended and idle after that. Loading it while it sends starts the new frame; resetting it stops it, empties its buffer and leaves nothing behind for the next transmission.",
 ["histories", "inputs"],
 "all sequences of loads and ticks, all commands, all clock start values",
 "The tests never tick a sender.",
 ["src/sender/senders.rs", "src/sender/buffer.rs", "src/sender/hal.rs"],
 [("PulsedataSender::tick", "src/sender/senders.rs"), ("PulsedataBuffer::get/load/reset", "src/sender/buffer.rs"), ("Sender::load/tick", "src/sender/hal.rs")],
 state=[("pos, ts_lastedge, status, offset", "playback position", "PulsedataSender / PulsedataBuffer")],
 observe=["PWM pin enable/disable per tick", "PulsedataSender::tick status", "buffer()"])

prop("C12", "Encoded frames conform to the protocol definition",
 "The pulse train produced for a command starts with a zero delay and then alternates marks and spaces that match the protocol definition (header, bit order, bit coding, inverted or duplicated check bytes, toggle and start bits, and the terminating mark) in number, order and value, each duration being the nominal one converted to ticks, off by less than one tick per time unit. It ends with a mark, so that the last bit is delimited on air.",
 ["inputs", "configurations"],
 "all commands x tick frequencies of every sendable protocol",
 "Tests decode the encoder's output with the library's own decoder, which shares any mistake and ignores mark lengths and the end of the frame.",
 ["src/protocol/nec/encoder.rs", "src/protocol/rc5/encoder.rs", "src/protocol/rc6/encoder.rs", "src/protocol/nec/mod.rs", "src/protocol/nec/standard.rs", "src/protocol/nec/nec16.rs", "src/protocol/nec/samsung.rs", "src/protocol/rc5/mod.rs"],
 [("ProtocolEncoder::encode and DATA", "src/protocol/*/encoder.rs"), ("pack", "command types")],
 observe=["ProtocolEncoder::encode output"])

prop("C13", "Redundancy checks and field packing are exact",
 "Validating raw NEC-family bits accepts exactly the words the variant can produce (NEC and Samsung: command byte followed by its complement and address byte followed by its complement or copy; NEC16: command byte complement; Apple: vendor 0x43F and odd parity), unpacking returns exactly the fields at their defined bit positions, and packing then unpacking any command is the identity. Apple words that fail the check are never reported as commands, and a Samsung Blu-ray command is marked valid exactly when its second command byte is the complement of the first.",
 ["inputs"],
 "all 32-bit words, all command values",
 "One example word per variant (nine for Apple), none of them invalid; Samsung Blu-ray's flag is never tested.",
 ["src/protocol/nec/standard.rs", "src/protocol/nec/samsung.rs", "src/protocol/nec/nec16.rs", "src/protocol/nec/apple.rs", "src/protocol/nec/raw.rs", "src/protocol/sbp/mod.rs", "src/protocol/rc5/mod.rs", "src/protocol/rc6/cmd.rs"],
 [("validate / unpack / pack", "src/protocol/nec/*.rs, src/protocol/rc5/mod.rs"), ("SbpCommand::unpack", "src/protocol/sbp/mod.rs")],
 observe=["validate/unpack/pack results", "Receiver results for invalid words"])

prop("C14", "Remote control models map buttons and commands one to one",
 "For every bundled remote control, a received command maps to an action exactly when it has the remote's address and one of its button codes, and then to that button's action; encoding an action gives the command that decodes to it, and actions the remote does not have encode to nothing (the Apple remote is receive-only and encodes nothing). The same holds for remotes written by a user, with the first entry counting where a code or an action is listed twice. A button delivered by a receiver carries the received command unchanged, its action and its repeat state, and every action has a distinct, stable name.",
 ["inputs", "configurations"],
 "all commands of each remote's protocol x all actions x all bundled remotes",
 "One RC5 code is checked through a receiver; encoding and all other remotes and codes are untested.",
 ["src/remotecontrol/mod.rs", "src/remotecontrol/mapper.rs", "src/remotecontrol/nec/apple2009.rs", "src/remotecontrol/nec/samsungtv.rs", "src/remotecontrol/nec/specialformp3.rs", "src/remotecontrol/rc5/cdplayer.rs", "src/remotecontrol/sbp/blurayplayer.rs"],
 [("RemoteControlModel::decode/encode", "src/remotecontrol/mod.rs"), ("Button::from", "src/remotecontrol/mapper.rs"), ("BUTTONS tables", "src/remotecontrol/*/*.rs")],
 observe=["decode/encode results, Button accessors"])

prop("C15", "Generic command views keep identity and reject what does not fit",
 "Converting a decoded command to the protocol-independent form keeps the protocol id, address, command, raw bits and repeat flag, and two commands of a protocol with different command parts never get the same generic command value. Creating a command from an address and a command number either yields a command with exactly that address and number which survives sending and receiving, or nothing if they do not fit the protocol. Protocol ids survive the conversion to their number and back, and unknown numbers map to the unknown id.",
 ["inputs"],
 "all command values, all 32-bit address/command pairs, all protocol id bytes",
 "No test touches the generic command, command creation from numbers, or protocol id conversion.",
 ["src/cmd.rs", "src/protocol.rs", "src/protocol/nec/apple.rs", "src/protocol/nec/standard.rs", "src/protocol/nec/samsung.rs", "src/protocol/rc5/mod.rs", "src/protocol/rc6/cmd.rs", "src/protocol/sbp/mod.rs", "src/protocol/denon/mod.rs"],
 [("AddressCommand::{address,command,create,raw}", "command types"), ("From<Cmd> for AnyCommand", "src/cmd.rs"), ("From<u8> for ProtocolId", "src/protocol.rs")],
 observe=["AnyCommand fields, create results"])

prop("C16", "Builders and constructors honour every setting in any order",
 "A receiver assembled with the builder behaves the same as one constructed directly with the same protocol, frequency, time type, pin and remote control, whatever the order in which the settings were given (a remote control comes after its protocol; choosing a protocol starts its command type afresh), both event driven and polled; the frequency is 1 MHz unless set, and the last value set wins. The pin given is the one read, and it is handed back unchanged on release.",
 ["configurations", "inputs"],
 "all orders and subsets of builder calls x protocols x frequencies x time types",
 "One builder chain is constructed with the default frequency and given a single meaningless event.",
 ["src/receiver/builder.rs", "src/receiver.rs", "src/receiver/ppoll.rs", "src/receiver/bufferinput.rs", "src/lib.rs"],
 [("Builder methods", "src/receiver/builder.rs"), ("with_input / with_pin / with_fugit / new", "src/receiver.rs, src/receiver/ppoll.rs")],
 observe=["results of built receivers vs directly constructed ones"])

prop("C17", "A protocol behaves the same in every feature configuration",
 "Every single-protocol feature selection, with or without remote controls, pins, fugit time or logging, builds, and a receiver or sender of that protocol then gives exactly the results it gives in the default configuration.",
 ["configurations"],
 "all subsets of protocol features in use x {remotes, embedded, embedded-hal, fugit, log} on or off",
 "The tests are only ever built with the default features.",
 ["Cargo.toml", "src/lib.rs", "src/fmt.rs", "src/protocol.rs", "src/protocol/sbp/mod.rs", "src/receiver/ppoll.rs", "src/receiver.rs", "src/receiver/multi.rs", "src/sender/mod.rs"],
 [("cfg(feature) gates", "throughout src/")],
 observe=["digest of a fixed workload per configuration"])

prop("C18", "Each transmission is reported exactly once, in order",
 "For any sequence of well-formed frames with legal pauses on one long-lived receiver, in any mix of commands and interspersed with frames of other (differently timed) protocols, the reported commands are exactly the transmitted ones of the receiver's protocol, in order: none lost, none duplicated, none invented from the foreign frames. This does not wear out with the number of frames or the time in operation.",
 ["histories", "inputs"],
 "all sequences of own and foreign frames of any length on one receiver",
 "The longest test stream has eight frames of a single command; no test mixes protocols except one RC5 capture.",
 ["src/receiver.rs", "src/receiver/ppoll.rs", "src/receiver/iter.rs", "src/protocol/nec/decoder.rs", "src/protocol/rc5/decoder.rs", "src/protocol/rc6/decoder.rs", "src/protocol/sbp/mod.rs", "src/protocol/denon/mod.rs"],
 [("Done -> command -> reset", "src/receiver.rs, src/receiver/decoder.rs, src/receiver/iter.rs")],
 observe=["sequence of reported commands vs sequence transmitted"])

prop("C19", "Bare decoders keep their contract",
 "A decoder offers a command exactly while its last event reported completion, and none otherwise (a NEC repeat code that refers to nothing and an Apple word that fails its check complete without one). It reports idle while there is nothing to receive, receiving from within a frame on, completion at the frame's last bit. The combined event call returns the same commands and errors as driving the state machine by hand and leaves it ready for the next frame. Resetting a decoder at any point makes it respond to any following signal like a newly built one (apart from what NEC repeats refer to).",
 ["histories", "inputs"],
 "all event histories x reset points x following signals",
 "Tests never look at a decoder between frames, nor reset it.",
 ["src/receiver/decoder.rs", "src/protocol/nec/decoder.rs", "src/protocol/rc5/decoder.rs", "src/protocol/rc6/decoder.rs", "src/protocol/sbp/mod.rs", "src/protocol/denon/mod.rs"],
 [("ProtocolDecoder::{event,command,reset,event_total}", "src/receiver/decoder.rs and the decoders")],
 observe=["State, command() and results after every event"])

prop("C20", "The VCD host tool prints exactly the commands in a capture",
 "Run on any VCD capture of a wire (microsecond timescales, value 1 = mark), the host decoder prints the sampling rate and exactly one line per Samsung NEC frame, or repeat following one, in the capture, in order and with the transmitted address, command and repeat flag, and one error line per corrupted frame.",
 ["inputs", "histories"],
 "all VCD captures: timescales, wire positions, frame sequences, noise",
 "The tool has no tests.",
 ["examples/vcd-parser/src/main.rs", "src/receiver.rs", "src/receiver/time/primitives.rs", "src/protocol/nec/decoder.rs"],
 [("vcd_ir_parser and event_instant loop", "examples/vcd-parser/src/main.rs")],
 observe=["stdout of the vcd-parser binary"])

prop("C21", "Decoders written by users are driven faithfully by every front end",
 "A protocol implemented by a user through the public traits works in every front end (event receivers by interval, timestamp, edge or pin, polled, buffer and multi-receiver, with or without a conversion of the command): its decoder is built once with the receiver's frequency, is handed every edge of the signal exactly once, in order, with its level and the time since the previous edge, and what it answers (nothing, a command, a completion without command, each kind of error) is exactly what that call returns. It is reset after every completion and every error before the next edge, and at no other time; a failing pin never reaches it.",
 ["inputs", "histories", "fault_sequences", "configurations"],
 "all answers of any decoder x all signals x all front ends, time types and multi-receiver positions",
 "The tests only use the bundled decoders, which tolerate missing or additional resets and never return most of the error kinds.",
 ["src/receiver.rs", "src/receiver/ppoll.rs", "src/receiver/bufferinput.rs", "src/receiver/iter.rs", "src/receiver/decoder.rs", "src/receiver/multi.rs", "src/receiver/error.rs", "src/receiver/builder.rs"],
 [("Receiver::event_edge", "src/receiver.rs"), ("PeriodicPoll::poll_base", "src/receiver/ppoll.rs"), ("BufferIterator::next", "src/receiver/iter.rs"), ("ProtocolDecoder::event_total", "src/receiver/decoder.rs"), ("ReceiverWrapper::event", "src/receiver/multi.rs"), ("From<DecodingError> for Error", "src/receiver/error.rs")],
 observe=["calls made to a recording decoder", "results of every front end"])

prop("C22", "Pulse tables classify durations by their tolerance windows",
 "For any table of up to eight nominal lengths (microseconds) and tolerances (up to 100 percent), any tick rate and any time type, as long as nominal length in ticks times tolerance fits 32 bits, classifying a duration returns the first entry whose window (nominal length plus or minus the tolerance, in ticks) contains it, and nothing for a duration outside all windows, a zero duration, or an unused entry. The overlap check reports true exactly if two windows of the table have a duration in common.",
 ["inputs", "configurations"],
 "all tables (sorted or not, overlapping or not, with unused entries) x tick rates x time types x all durations",
 "The tests never build a table of their own nor look at the overlap check.",
 ["src/receiver/time.rs", "src/receiver/time/primitives.rs", "src/receiver/time/fgt.rs", "src/protocol/utils.rs"],
 [("PulseSpans::{new,get,check_overlaps}", "src/receiver/time.rs"), ("Span::contains/overlaps", "src/receiver/time.rs"), ("create_span", "src/receiver/time/*.rs")],
 observe=["PulseSpans::get and check_overlaps results"])

prop("C23", "Receivers and senders are independent of each other",
 "What a receiver, decoder, multi-receiver or sender does depends only on the calls made on it. Any number of them may be alive at the same time, of the same or different protocols, rates and time types, their calls interleaved in any way or made on different threads: each gives exactly the results it gives alone, without data races. Creating, using, dropping or moving one never affects another, and equal objects given equal inputs give equal results however often that is repeated.",
 ["schedules", "histories", "inputs"],
 "all sets of objects x all interleavings of their calls x all thread schedules, moves and drops",
 "The tests use one object at a time, on one thread, once.",
 ["src/receiver.rs", "src/receiver/ppoll.rs", "src/receiver/bufferinput.rs", "src/receiver/multi.rs", "src/protocol/", "src/sender/senders.rs", "src/sender/hal.rs"],
 [("DecoderBuilder::build", "src/protocol/*"), ("ProtocolDecoder::event", "src/protocol/*"), ("ProtocolEncoder::encode", "src/protocol/*"), ("PulsedataSender::{load_command,tick}", "src/sender/senders.rs")],
 observe=["results of every call of every object, alone and among others", "data races reported by ThreadSanitizer"])

prop("C24", "Results do not depend on the machine or on the optimisation level",
 "The same signals, commands and values give the same results (reported commands and errors, encoded pulse trains, sender output, packed, unpacked and generic command values) whatever the word size (32 or 64 bit) and the byte order of the machine, and however the library is compiled: unoptimised or optimised, with or without overflow checks and debug assertions. The library needs no operating system, standard library or heap: it builds for, and works the same on, a bare machine.",
 ["configurations", "inputs"],
 "all machines and build profiles x all signals, commands and values",
 "The tests run on the build host only, in one profile, where usize is 64 bit, the byte order little-endian and the standard library present.",
 ["src/protocol/", "src/receiver/", "src/receiver.rs", "src/sender/", "src/cmd.rs", "src/lib.rs"],
 [("pack/unpack and bit buffers", "src/protocol/*"), ("u32/usize conversions", "src/receiver/time.rs, src/receiver/bufferinput.rs, src/sender/senders.rs"), ("no_std", "src/lib.rs")],
 observe=["results of one workload per build and machine"])

prop("C25", "Every call costs a bounded amount of work and stack, and no heap",
 "No call of the library allocates memory. Each call finishes within a number of steps and a stack depth bounded by a constant of the protocol and the kind of call (for buffer receivers: per interval looked at; for loading a user's pulse train: per pulse), whatever the durations, timestamps, rates, levels, pin errors and words, and however many calls were made before. Asking a buffer receiver for its first command does not look at the intervals after it.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "all histories of calls x all arguments, rates and front ends",
 "Tests look at results, never at what a call costs; a loop over ticks or a recursion per interval passes them and fails in an interrupt handler.",
 ["src/receiver.rs", "src/receiver/", "src/protocol/", "src/sender/senders.rs", "src/sender/hal.rs"],
 [("Receiver::event_edge", "src/receiver.rs"), ("PeriodicPoll::poll_base", "src/receiver/ppoll.rs"), ("BufferIterator::next", "src/receiver/iter.rs"), ("ProtocolDecoder::event", "src/protocol/*"), ("PulsedataSender::{load_command,tick}", "src/sender/senders.rs")],
 observe=["basic blocks executed, stack depth and heap requests of every call"])

prop("C26", "NEC variants written by users work like the bundled ones",
 "A NEC variant implemented by a user (its own mapping between words and commands, with a bundled timing) works on every front end, buffer and multi-receiver and in senders: for each complete frame the result is exactly what the variant's unpack gives for the transmitted word (a command, or nothing), for each repeat what it gives for the last complete frame's word with the repeat flag (nothing if a broken frame came in between or there was none); the encoder sends exactly the word that pack gives, whatever validate says of it, with the variant's timing.",
 ["inputs", "histories", "configurations"],
 "all variants x all words x all histories of frames, repeats and broken frames x all front ends",
 "The tests only use bundled variants, and those with words they accept.",
 ["src/protocol/nec/decoder.rs", "src/protocol/nec/encoder.rs", "src/protocol/nec/mod.rs", "src/receiver/multi.rs", "src/sender/"],
 [("NecCommandVariant", "src/protocol/nec/mod.rs"), ("ProtocolDecoder for NecDecoder", "src/protocol/nec/decoder.rs"), ("ProtocolEncoder for Nec", "src/protocol/nec/encoder.rs")],
 observe=["results of every front end, calls made to the variant, encoded pulse trains"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
