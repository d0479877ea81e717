#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

DEC = ["src/protocol/nec/decoder.rs", "src/protocol/rc5/decoder.rs", "src/protocol/rc6/decoder.rs",
       "src/protocol/sbp/mod.rs", "src/protocol/denon/mod.rs"]
ENC = ["src/protocol/nec/encoder.rs", "src/protocol/rc5/encoder.rs", "src/protocol/rc6/encoder.rs"]
NECV = ["src/protocol/nec/standard.rs", "src/protocol/nec/nec16.rs", "src/protocol/nec/samsung.rs",
        "src/protocol/nec/apple.rs", "src/protocol/nec/raw.rs"]
FRONT = ["src/receiver.rs", "src/receiver/ppoll.rs", "src/receiver/iter.rs", "src/receiver/bufferinput.rs",
         "src/receiver/builder.rs", "src/receiver/decoder.rs"]

prop("C01", "Every command survives encode then decode unchanged",
 "For every command that NEC, 16-bit NEC, Samsung NEC, Apple NEC, raw NEC, RC5 and RC6 can represent, and every tick rate from 20 kHz up (RC6, with its short pulses: 40 kHz), encoding the command and feeding the resulting pulse list to a receiver for the same protocol and rate reports exactly that command (all fields, not flagged as a repeat), exactly once. The same holds for any sequence of commands encoded one after another with idle time in between: the same commands come out, in order.",
 ["inputs", "histories"], "all commands of each protocol with an encoder, all tick rates >= 20 kHz (RC6: 40 kHz), all sequences of commands separated by idle time",
 "The existing tests loop over one rate (40 kHz), leave out address/command 255 and the toggle and start bits, never encode Samsung, 16-bit, Apple or raw NEC, and never more than one frame per decoder.",
 ENC + DEC + NECV, [("encode() of each protocol", "src/protocol/*/encoder.rs"), ("decoder state machines", "src/protocol/*/decoder.rs"), ("pack()/unpack()", "src/protocol/nec/*.rs, src/protocol/rc5/mod.rs, src/protocol/rc6/cmd.rs")],
 observe=["ProtocolEncoder::encode", "BufferInputReceiver::iter", "Receiver::event"])

prop("C02", "Encoders emit the protocol's waveform with correct pulse lengths",
 "For every command and every tick rate, the pulse list an encoder produces is the published waveform of its protocol: a leading zero, then alternating mark and space times for the lead-in, every data bit in the protocol's bit order including the inverted, duplicated, vendor and parity bits, and the closing mark. Each time equals the nominal time converted to ticks, to within one tick per basic time unit of rounding.",
 ["inputs", "configurations"], "all commands, all (compile-time) tick rates from 20 kHz to the largest 32-bit rate",
 "Tests only check that the library's own decoder accepts its encoder's output at a few round rates; a waveform that both sides get wrong, a wrong length inside the decoder's tolerance or an odd rate is invisible to them.",
 ENC + NECV + ["src/protocol/nec/mod.rs"], [("encode()", "src/protocol/*/encoder.rs"), ("calc_ticks / calc_freq / DATA", "src/protocol/*/encoder.rs"), ("pulse length tables", "src/protocol/nec/mod.rs")],
 observe=["ProtocolEncoder::encode"])

prop("C03", "Receivers decode every well-formed frame within timing tolerance",
 "For each supported protocol (NEC standard, 16-bit, Samsung, Apple and raw; RC5; RC6 mode 0; Samsung Blu-ray; Denon 48-bit), any frame of the published waveform that follows idle time and whose pulse times lie within the protocol's tolerance, measured with any clock of 40 kHz or faster, is reported as exactly the command its bits spell, once, at the edge that completes the last bit. For the pulse-distance protocols (NEC family, Blu-ray, Denon) only the period from mark to mark counts, however it is split between mark and space.",
 ["inputs", "configurations"], "all frames of all nine protocols, all combinations of in-tolerance pulse times, all clock rates >= 40 kHz",
 "Tests replay one or two recorded captures per protocol at 40 kHz or 1 MHz (none for Samsung, Apple, 16-bit and Blu-ray) and check a field or two.",
 DEC + NECV + ["src/receiver/time.rs", "src/receiver/time/primitives.rs", "src/protocol/utils.rs"], [("event() state machines", "src/protocol/*"), ("PulseSpans", "src/receiver/time.rs"), ("scale_with_samplerate", "src/protocol/utils.rs")],
 observe=["Receiver::event"])

prop("C04", "No phantom commands: a reported command was really on the wire",
 "Whatever sequence of alternating edges a receiver has seen - noise, truncated, damaged or foreign frames, glitches, zero and huge times - it reports a command only at an edge where the most recent pulses, each within tolerance, spell (for RC5 and RC6: sampled on the half-bit clock) a complete frame of its protocol with exactly the reported address, command, toggle and validity. A NEC command flagged as a repeat is reported only for a repeat code and only with the content of the last command reported before it; an Apple command only for frames with Apple's vendor code and odd parity.",
 ["histories", "inputs"], "all histories of alternating edges with arbitrary durations, all clock rates",
 "Tests contain hardly any invalid input, and none that checks what a receiver must not report.",
 DEC + NECV + ["src/receiver/time.rs"], [("state machines return to idle on a bad pulse", "src/protocol/*"), ("PulseSpans::get", "src/receiver/time.rs")],
 state=[("bit buffers", "bits of the frame being received", "bitbuf/buf/data/address/command in the decoders")],
 observe=["Receiver::event"])

prop("C05", "A receiver recovers from anything by the next idle gap",
 "After any history of edges at all (noise, aborted or damaged frames, missed or doubled edges, foreign protocols, zero or maximal times, an explicit decoder reset), once the line has been idle for longer than any pulse of the protocol, the next well-formed frame is reported exactly as a fresh receiver would report it, with no leftover bits and no lost frame. This holds for event-driven, polled and buffer receivers alike; a frame that cannot be decoded never prevents later frames from being reported.",
 ["histories", "fault_sequences"], "all prior histories (alternating or not), all protocols, all following frames",
 "Needs state left behind by a specific kind of failed reception; tests feed clean captures to fresh receivers.",
 DEC + ["src/receiver/iter.rs", "src/receiver.rs", "src/receiver/decoder.rs"], [("reset()", "src/protocol/*"), ("bit buffer cleared at frame start", "src/protocol/*"), ("reset after Done/Error", "src/receiver.rs, src/receiver/decoder.rs, src/receiver/iter.rs")],
 observe=["Receiver::event", "PeriodicPoll::poll", "BufferInputReceiver::iter", "ProtocolDecoder::reset"])

prop("C06", "No input makes a receiver, encoder or sender panic",
 "For every protocol, clock type (u32, u64, 32- and 64-bit fugit) and frequency, building a receiver and giving it any sequence of edges, times or instants, including zero, maximal, repeated and backward ones, never panics or overflows. Neither does encoding any command value, ticking a sender with any timestamps or converting any command, address or bit pattern.",
 ["inputs", "histories", "configurations"], "all event sequences with arbitrary durations, edges and instants, all frequencies 0..2^32-1, all command field values",
 "Overflow needs extreme durations, rare rates or out-of-range fields; no test goes there. A panic on a microcontroller is a crash of the device.",
 DEC + ENC + ["src/receiver/time.rs", "src/receiver/time/fgt.rs", "src/receiver/time/primitives.rs", "src/protocol/utils.rs", "src/sender/senders.rs", "src/cmd.rs"], [("checked_add of durations", "src/receiver/time.rs"), ("scale_with_samplerate", "src/protocol/utils.rs"), ("create_span", "src/receiver/time/fgt.rs"), ("wrapping arithmetic", "src/receiver/ppoll.rs, src/sender/senders.rs")],
 observe=["Receiver::new/event/event_instant", "PeriodicPoll::poll", "ProtocolEncoder::encode", "PulsedataSender::tick"])

prop("C07", "All ways of feeding a receiver give the same results",
 "For any sequence of edges, delivering it as durations (event, event_edge), as timestamps (event_instant), through an active-low input pin, by periodic polling of the line level, directly to the protocol decoder or, for the commands, as a buffer (whichever way its iterator is used), yields the same command or error at the same edge. This is so for every protocol, also for a user-defined decoder, and however the receiver was constructed (constructor or builder, in any order of builder calls).",
 ["histories", "configurations"], "all edge sequences, all protocols including user-implemented ones, all front ends and constructors",
 "Front ends are each exercised by at most one capture of one protocol; no test compares two of them.",
 FRONT, [("event_edge", "src/receiver.rs"), ("event_instant", "src/receiver.rs"), ("poll_base", "src/receiver/ppoll.rs"), ("BufferIterator::next", "src/receiver/iter.rs"), ("event_total", "src/receiver/decoder.rs"), ("Builder", "src/receiver/builder.rs")],
 observe=["Receiver", "PeriodicPoll", "BufferInputReceiver", "ProtocolDecoder::event_total", "infrared::receiver()"])

prop("C08", "The clock type does not change what is decoded",
 "For every protocol, tick rate and edge sequence, receivers using u32, u64, 32-bit fugit and 64-bit fugit time (with any tick length) or a clock type defined by the user, of the same tick rate, report the same command or error at every edge (for fugit: at every rate up to 300 MHz that is a whole number of kHz, and for well-formed frames at every rate). A fugit time carries its rate in its type, so a fugit receiver behaves the same whatever frequency it is built with.",
 ["histories", "configurations"], "all edge sequences, all clock types, all tick rates",
 "One capture at 1 MHz with 32-bit fugit is the only non-u32 clock in the tests.",
 ["src/receiver/time.rs", "src/receiver/time/fgt.rs", "src/receiver/time/primitives.rs", "src/protocol/utils.rs"], [("create_span", "src/receiver/time/*.rs"), ("Span::new", "src/receiver/time/*.rs")],
 observe=["Receiver::event with Mono = u32, u64, fugit::Instant"])

prop("C09", "A multi-receiver equals its member receivers run side by side",
 "For any selection of two to six protocols, in any order, and any edge sequence, slot i of a multi-receiver's result at every edge is the command a separate receiver for the i-th protocol reports at that edge (nothing if that one reports nothing or an error), carrying that protocol's id, address, command and repeat flag. The iterator forms yield exactly the non-empty slots in order, and the pin form equals the explicit-edge form with the active-low pin level.",
 ["histories", "configurations"], "all protocol tuples of size 2..6, all edge sequences",
 "The multi-receiver has no test at all.",
 ["src/receiver/multi.rs", "src/cmd.rs"], [("ReceiverWrapper impls", "src/receiver/multi.rs"), ("From<Cmd> for AnyCommand", "src/cmd.rs")],
 observe=["MultiReceiver::event_generic", "event_generic_iter", "event", "event_iter"])

prop("C10", "A frame is only reported by receivers for its own protocol",
 "A well-formed frame or repeat code with nominal timing, sent by a remote of one protocol family (NEC timing, Samsung NEC, RC5, RC6, Samsung Blu-ray, Denon), never makes a receiver for another family report a command, wherever it appears in a stream of frames of mixed protocols. The frames of its own family in that stream are all reported.",
 ["inputs", "histories"], "all frames of each family against all receivers of the other families, all mixed streams, clock rates >= 40 kHz",
 "No test feeds one protocol's frames to another protocol's receiver except one hand-picked RC5 look-alike.",
 DEC, [("pulse tables and tolerances", "src/protocol/*"), ("state machines", "src/protocol/*")],
 observe=["Receiver::event"])

prop("C11", "NEC repeat codes repeat exactly the last received command",
 "After a complete NEC-family frame, every following repeat code is reported as the same command with the repeat flag set, any number of times and across any idle time, and a full frame is never flagged as a repeat. A repeat code that arrives before any complete frame reports nothing, and one that arrives after a damaged or truncated frame never reports bits of that frame.",
 ["histories"], "all interleavings of frames, repeat codes, damaged frames and idle time, all NEC variants",
 "One test counts repeats of one command of standard NEC and does not look at their content.",
 ["src/protocol/nec/decoder.rs"] + NECV, [("RepeatDone and the retained bit buffer", "src/protocol/nec/decoder.rs")],
 state=[("bitbuf, complete", "last frame, and whether it was complete", "src/protocol/nec/decoder.rs")],
 observe=["Receiver::event"])

prop("C12", "Pulse tolerances: accepted inside, rejected outside",
 "Measured against nominal length, pulse periods are accepted as exactly what they are up to: NEC family lead-in and repeat 7%, zero 25%, one 12%; RC5 single 12%, double 10%; RC6 multiples of its unit 12% (shorter multiple first where two windows meet); Blu-ray lead-in and divider 5%, bits 10%; Denon lead-in 8%, bits 10%. A frame in which any one pulse lies outside every window of its protocol is never reported as a command, at any clock rate and for every clock type.",
 ["inputs", "configurations"], "all pulse positions in all frames, all durations, all clock rates >= 40 kHz",
 "Boundaries are never probed by tests: every test duration is well inside the windows.",
 DEC + ["src/receiver/time.rs", "src/receiver/time/primitives.rs", "src/receiver/time/fgt.rs", "src/protocol/utils.rs"], [("TOL/PULSE tables", "src/protocol/*"), ("Span::new/contains", "src/receiver/time*")],
 observe=["Receiver::event"])

prop("C13", "Senders play exactly the encoded waveform and nothing else",
 "Ticked once per period, a sender with a loaded command drives its output on and off at exactly the encoded edge times, starting at the next tick, and is off and idle after the last one, whatever was sent before, whatever the size of its buffer and whatever the counter value it starts from (including wrap-around). Without a loaded command the output stays off; a command loaded into the PWM sender while a frame is on air is ignored, loading one into the raw pulse sender restarts it with the new frame, and in both a command that has not started yet is replaced by the next one loaded.",
 ["histories", "inputs"], "all sequences of loads and ticks, all commands and protocols with an encoder, all starting counter values, buffer sizes",
 "The senders have no test at all.",
 ["src/sender/senders.rs", "src/sender/hal.rs", "src/sender/buffer.rs"], [("PulsedataSender::tick", "src/sender/senders.rs"), ("Sender::load/tick", "src/sender/hal.rs"), ("PulsedataBuffer", "src/sender/buffer.rs")],
 state=[("pos, status, ts_lastedge, offset, counter", "playback position", "src/sender/*.rs")],
 observe=["PulsedataSender::tick/load_command/buffer", "Sender::tick/load with a PwmPin"])

prop("C14", "What a sender transmits, a receiver on the same line receives",
 "Connect the output of a sender ticked at some rate to a polled receiver at that rate, or to an event receiver fed with its edges: for any sequence of commands sent with idle time in between, the receiver reports exactly those commands, in order, and nothing else. With a remote-control model on both ends, the buttons pressed are the buttons reported.",
 ["histories"], "all command and button sequences, all protocols with an encoder, all tick rates >= 20 kHz",
 "No test runs sender and receiver together in time.",
 ["src/sender/senders.rs", "src/sender/hal.rs", "src/receiver/ppoll.rs", "src/receiver.rs"] + ENC + DEC, [("tick()", "src/sender/senders.rs"), ("poll_base", "src/receiver/ppoll.rs")],
 observe=["Sender::tick", "PeriodicPoll::poll", "Receiver::event"])

prop("C15", "Bit layouts: pack, unpack and validate are mutually consistent",
 "Packing a command gives the protocol's published bit pattern, unpacking gives back the command, and for the NEC variants validate accepts exactly the patterns that packing can produce (standard: both bytes inverted; 16-bit: command inverted; Samsung: address doubled, command inverted; Apple: vendor code and odd parity; raw: all). For every valid pattern, unpack followed by pack is the identity, with fields at their published positions; RC5, RC6 and Blu-ray conversions agree with their published layouts, the Blu-ray validity flag being set exactly when the command bytes are complementary.",
 ["inputs"], "all 2^32 NEC bit patterns and all commands, all 14-bit RC5, 16-bit RC6 and 36-bit Blu-ray patterns",
 "Tests pack one hand-picked command per variant.",
 NECV + ["src/protocol/rc5/mod.rs", "src/protocol/rc6/cmd.rs", "src/protocol/sbp/mod.rs"], [("pack/unpack/validate", "src/protocol/nec/*.rs"), ("Rc5Command::pack/unpack", "src/protocol/rc5/mod.rs"), ("SbpCommand::unpack", "src/protocol/sbp/mod.rs")],
 observe=["NecCommandVariant", "Rc5Command", "Rc6Command", "SbpCommand"])

prop("C16", "Generic command views are faithful: create, address, command, ids",
 "Creating a command from an address and a command number either gives a command that reports exactly these two numbers, is not a repeat and can be sent, or gives nothing; it gives nothing exactly when a number does not fit the protocol's fields (Apple commands cannot be created). The protocol-independent form of a received command carries the right protocol id and the full address, command (for Apple: page and command), repeat flag and, for Denon, raw bits; protocol ids convert to and from their numbers without loss and unknown numbers give Unknown.",
 ["inputs"], "all 32-bit address/command pairs, all commands of all protocols, all 256 id numbers",
 "No test calls create or builds a protocol-independent command.",
 ["src/cmd.rs", "src/protocol.rs", "src/protocol/rc5/mod.rs", "src/protocol/rc6/cmd.rs", "src/protocol/sbp/mod.rs", "src/protocol/denon/mod.rs"] + NECV, [("AddressCommand impls", "src/protocol/**"), ("From for AnyCommand", "src/cmd.rs, src/protocol/denon/mod.rs"), ("From<u8> for ProtocolId", "src/protocol.rs")],
 observe=["AddressCommand", "AnyCommand", "ProtocolId"])

prop("C17", "Remote-control models map buttons and codes one to one",
 "For each remote-control model, encoding an action gives the command with the model's address and that button's code, decoding that command gives back the action, and a command with another address or a code not on the remote maps to no action; the button codes are those of the real remotes. A button reported by a receiver carries the received command unchanged, its mapped action and its repeat flag, and every action has its own distinct name.",
 ["inputs"], "all actions and all (address, command) pairs for each model, all received commands",
 "One test looks at one button of one remote.",
 ["src/remotecontrol/mod.rs", "src/remotecontrol/mapper.rs", "src/remotecontrol/nec/apple2009.rs", "src/remotecontrol/nec/samsungtv.rs", "src/remotecontrol/nec/specialformp3.rs", "src/remotecontrol/rc5/cdplayer.rs", "src/remotecontrol/sbp/blurayplayer.rs"], [("RemoteControlModel::decode/encode", "src/remotecontrol/mod.rs"), ("Button::from", "src/remotecontrol/mapper.rs"), ("BUTTONS tables", "src/remotecontrol/*/*.rs")],
 observe=["RemoteControlModel", "Button", "Action::to_str"])

prop("C18", "Decoder contract: command only when done, sticky end states, clean reset",
 "A protocol decoder driven directly hands out a command only while its last reported state is Done; once Done or in error it stays so, with the same command or error, whatever edges follow, until it is reset (RC5 and RC6 may also start over at a pulse outside every tolerance window). After a reset, at any point, it behaves like a newly built decoder for every following edge sequence (except that NEC remembers a complete last command for repeat codes), and the combined event call equals event, command and reset by hand.",
 ["histories"], "all edge sequences with resets at arbitrary points, all protocols",
 "No test uses a decoder directly.",
 DEC + ["src/receiver/decoder.rs"], [("ProtocolDecoder impls", "src/protocol/**"), ("event_total", "src/receiver/decoder.rs")],
 observe=["ProtocolDecoder::event/command/reset/event_total"])

prop("C19", "A failing input pin is reported and does not disturb reception",
 "When reading the input pin fails, the event, poll or multi-receiver call returns that pin's error and is otherwise as if it had not been made: with failures injected at any points of any edge sequence, the commands and decoding errors of the successful calls are those of a run consisting of just the successful calls. Decoding errors keep their kind when reported through the pin interface, and releasing the receiver gives back the pin.",
 ["fault_sequences", "histories"], "all placements of pin read failures in all edge sequences, all pin-based front ends",
 "No test has a pin that fails.",
 ["src/receiver.rs", "src/receiver/ppoll.rs", "src/receiver/multi.rs", "src/receiver/error.rs"], [("pin read before any state change", "src/receiver.rs, src/receiver/ppoll.rs, src/receiver/multi.rs"), ("From<DecodingError> for Error", "src/receiver/error.rs")],
 observe=["Receiver::event/event_instant", "PeriodicPoll::poll", "MultiReceiver::event"])

prop("C20", "Counter wrap-around and backward time do no harm",
 "Frames that straddle the wrap of a polled receiver's tick counter (2^32 polls) or of a 32-bit fugit timestamp are decoded like any other. With a plain integer clock a timestamp that goes backward (as at a wrap) counts as no time at all: no command other than the ones on the wire is reported and the next frame after idle time is received normally.",
 ["histories"], "all positions of the wrap relative to a frame, all protocols, all backward jumps",
 "Reaching the wrap takes 2^32 polls or timestamps near the limit; no test does either.",
 ["src/receiver/ppoll.rs", "src/receiver.rs", "src/receiver/time/fgt.rs", "src/receiver/time/primitives.rs", "src/receiver/time.rs"], [("wrapping clock", "src/receiver/ppoll.rs"), ("checked_sub ... unwrap_or(ZERO_DURATION)", "src/receiver.rs")],
 state=[("clock, last_edge, prev_instant", "time base", "src/receiver/ppoll.rs, src/receiver.rs")],
 observe=["PeriodicPoll::poll", "Receiver::event_instant"])

prop("C21", "Every feature combination builds and decodes alike",
 "With every combination of the crate's cargo features (each protocol, remotes, embedded-hal, fugit, embedded, and at most one of log and defmt) the library builds, without std. The protocols that are enabled encode and decode exactly as they do with default features, with or without logging.",
 ["configurations"], "all subsets of the features (except log together with defmt)",
 "The test suite only ever builds the default feature set.",
 ["Cargo.toml", "src/lib.rs", "src/fmt.rs", "src/protocol.rs", "src/receiver/builder.rs", "src/receiver/ppoll.rs", "src/protocol/sbp/mod.rs"], [("cfg(feature) gates", "src/**")],
 observe=["cargo build with generated feature sets", "decode/encode results of the built library"])

prop("C22", "Pulse tables classify durations correctly for any protocol table",
 "For any table of pulse lengths (up to 40 ms) and tolerances (up to 100%), any rate up to 1 GHz and every clock type, looking up a duration gives the first table entry whose window (nominal length in ticks plus or minus its tolerance) contains it, and nothing if none does; zero entries are unused and match nothing. The overlap check reports true exactly when two used windows share a duration.",
 ["inputs", "configurations"], "all tables with realistic pulse lengths, all tolerances 0..100%, all frequencies and durations",
 "Span lookup and overlap check have no direct tests; the scaling helper has three examples.",
 ["src/receiver/time.rs", "src/receiver/time/primitives.rs", "src/receiver/time/fgt.rs", "src/protocol/utils.rs"], [("PulseSpans::new/get/check_overlaps", "src/receiver/time.rs"), ("scale_with_samplerate", "src/protocol/utils.rs")],
 observe=["PulseSpans::new", "PulseSpans::get", "PulseSpans::check_overlaps"])

prop("C23", "The VCD example tool reports the commands in a capture",
 "For any VCD capture of a line carrying Samsung NEC frames and repeat codes, at any supported time scale, the tool prints the sample rate and exactly the commands in the capture, in order, and keeps going after damaged frames.",
 ["inputs"], "all generated captures: frames, repeats, noise, other wires, time scales in ms/us",
 "The tool has no tests.",
 ["examples/vcd-parser/src/main.rs", "src/receiver.rs", "src/receiver/time/primitives.rs"], [("vcd_ir_parser, main loop", "examples/vcd-parser/src/main.rs"), ("event_instant with a u64 clock", "src/receiver.rs")],
 observe=["stdout of vcd-parser"])

prop("C24", "Instances are independent and results reproducible",
 "What a receiver, sender, encoder or multi-receiver returns depends only on how it was built and on the calls made on it: any number of them used in turn, in any interleaving, or at the same time on several threads, each give the results they give when used alone, and doing the same again gives the same results. The pulses an encoder writes do not depend on what the caller's buffer held before, and it needs no more room than the pulses it returns.",
 ["schedules", "histories"], "all interleavings of up to six instances of any kind and protocol, all call sequences, all prior buffer contents, threads running side by side",
 "Tests use one instance at a time and buffers filled with zeros.",
 ["src/receiver.rs", "src/receiver/multi.rs", "src/receiver/ppoll.rs", "src/receiver/iter.rs", "src/sender/mod.rs", "src/sender/senders.rs", "src/sender/buffer.rs"] + DEC + ENC, [("all state lives in the instance", "src/receiver*, src/protocol/*, src/sender*"), ("encode() overwrites every pulse it counts", "src/protocol/*/encoder.rs")],
 observe=["Receiver::event", "PeriodicPoll::poll", "BufferInputReceiver::iter", "MultiReceiver::event", "PulseSender / PwmPulseSender::tick", "ProtocolEncoder::encode"])

prop("C25", "Decoder states and errors describe what is on the line",
 "On a line that carries only well-formed frames (and NEC repeat codes) with idle time between them, no receiver reports an error, and a decoder driven directly says Receiving from the end of the lead-in (RC5: the first edge) until the edge that completes the last bit, Done at that edge, and, once reset, Idle when the line falls back to idle. A NEC-family or Blu-ray frame that breaks off, with a period that is neither a zero nor a one where a bit is due (Blu-ray: or no separator between address and command), is reported as a decoding error, once, at the edge that ends that period: of kind Address within the Blu-ray address, of kind Data otherwise. The receiver then waits for the next lead-in, and these protocols report no other errors.",
 ["histories", "inputs"], "all sequences of well-formed frames and idle times for all protocols; all alternating edge histories for NEC and Blu-ray; all clocks",
 "No test looks at an error or at any state other than Done.",
 DEC + ["src/receiver.rs", "src/receiver/decoder.rs"], [("Err states", "src/protocol/nec/decoder.rs, src/protocol/sbp/mod.rs"), ("From<...State> for State", "src/protocol/*"), ("Receiver::event, ProtocolDecoder::event_total", "src/receiver.rs, src/receiver/decoder.rs")],
 observe=["Receiver::event", "ProtocolDecoder::event"])

prop("C26", "A user's own types work like the built-in ones",
 "The public traits can be implemented outside the crate, and such types are treated like the built-in ones. A user's NEC command variant (any choice of valid words, any packing, either of the published timings) is received with exactly the words its unpack accepts, repeat codes included and marked, and is encoded as the frame of its packed bits. Senders play whatever pulses a user's encoder writes, up to frames that fill the sender's buffer. A user's protocol gives the same commands in a multi-receiver, in any slot, as in a receiver of its own. A user's remote model maps a command to the first button with its code if the whole 32-bit address matches, and a button to the first code with that action; where it brings its own decode or encode, these are used. A user's command appears in AnyCommand as its own trait methods say.",
 ["inputs", "histories"], "all words and packings of NEC variants, all edge histories, all waveforms up to the buffer size, all addresses and codes",
 "No test implements any of the public traits.",
 DEC + ENC + ["src/receiver/multi.rs", "src/sender/senders.rs", "src/sender/buffer.rs", "src/sender/hal.rs", "src/remotecontrol/mod.rs", "src/remotecontrol/mapper.rs", "src/cmd.rs", "src/receiver/decoder.rs"], [("NecCommandVariant as used by the decoder and encoder", "src/protocol/nec/decoder.rs, src/protocol/nec/encoder.rs"), ("RemoteControlModel default methods", "src/remotecontrol/mod.rs"), ("PulsedataBuffer::load", "src/sender/buffer.rs")],
 observe=["Receiver::event", "ProtocolEncoder::encode", "PulsedataSender / Sender tick", "MultiReceiver::event_generic", "RemoteControlModel::decode/encode", "Button", "AnyCommand::from"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
