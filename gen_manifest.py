#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
T = {
"C01": ("online round-trip monitor on the real encoder and decoder", "all RC5/RC6/NEC-16-bit payloads at selected tick frequencies plus seeded commands over ~120 compile-time frequencies and back-to-back trains; equality of every field is the oracle"),
"C02": ("trace-specification monitor with an independent frame generator", "frames built from the protocol definition with nominal, extreme and random in-tolerance intervals over tick rates from 20 kHz to GHz; seeded exploration"),
"C03": ("online trace-specification checker over noisy and fault-injected edge streams", "every reported command must be justified by the intervals just fed; single-interval faults are injected at every position; seeded exploration"),
"C04": ("differential history monitor: receiver with a past vs the transmitted frame", "arbitrary event histories, pause, then a valid frame on every front end; seeded exploration"),
"C05": ("reference-model monitor of NEC repeats over event histories", "sequences of frames, repeats, broken frames and pauses against a small reference model; seeded exploration"),
"C06": ("lock-step differential monitor over all receiver front ends", "nine front ends and the buffer receiver run on the same streams; seeded exploration"),
"C07": ("differential monitor across time types with clocks placed at the wrap", "u32, u64, fugit u32/u64 at many rates and start instants, and 2^32 real polls; seeded exploration"),
"C08": ("lock-step differential monitor: multi-receiver vs separate receivers", "tuple sizes 2 to 6, pin and generic forms, pin errors; seeded exploration"),
"C09": ("overflow checks, panic attribution, CPU-time watchdog, AddressSanitizer (and Miri in the thorough tier)", "hostile arguments to every public entry point under instrumentation; seeded exploration"),
"C10": ("pin fault injection with a lock-step fault-free twin", "random and bursty failure patterns on every pin front end; seeded exploration"),
"C11": ("tick-by-tick output monitor on the senders", "load/tick histories, compared with the expected carrier level at every tick; includes 2^32 idle ticks; seeded exploration"),
"C12": ("encoder output monitor against an independent frame definition", "all 16-bit payloads at selected rates plus seeded commands at ~120 compile-time frequencies"),
"C13": ("exhaustive monitored execution against independent bit definitions", "all 2^32 words for every NEC variant, all Samsung Blu-ray, RC5 and RC6 payloads, invalid Apple words through receivers"),
"C14": ("exhaustive monitored execution against recorded button tables", "all commands and actions of each bundled remote, and receivers delivering buttons"),
"C15": ("monitored execution of the generic command views against independent definitions", "all small address/command pairs, seeded 32-bit pairs, all protocol id bytes, seeded commands of every type"),
"C16": ("differential monitor: built vs directly constructed receivers", "all orders of builder calls over protocols, frequencies, time types, pins and remotes"),
"C17": ("differential execution of one workload across about 190 feature builds", "recorded signals and commands through every front end in each build, digests compared with the default build"),
"C18": ("offline exactly-once checker over recorded command logs", "long mixed transmissions of own and foreign frames on every front end; seeded exploration"),
"C19": ("state-contract monitor on bare decoders with reset injection", "command() observed after every event, resets at random points, twin comparison; seeded exploration"),
"C21": ("call-log monitor: a recording, scripted decoder plugged into every front end", "every call the library makes to a user's decoder is recorded and judged, with every answer a decoder can give, pin faults included; seeded exploration"),
"C22": ("monitored execution against windows computed in exact arithmetic", "random tables, rates and time types; durations at, around, between and far from the windows' ends; seeded exploration"),
"C23": ("twin monitors over interleaved and concurrent objects, ThreadSanitizer (and Miri in the thorough tier)", "objects run alone and among others, calls interleaved at random, moved, dropped, and on up to 8 threads; seeded exploration"),
"C24": ("differential execution of one workload across build profiles and machines (interpreted for other word sizes, byte orders and bare metal)", "seeded signals, commands and values; debug, release and size builds natively, 32-bit little- and big-endian machines and a bare-metal one under the interpreter (more machines in the thorough tier)"),
"C25": ("cost meter: compiler-inserted block counters, stack and heap probes around every call", "extreme and random arguments over all front ends, senders, long histories, buffers up to thousands of intervals; bounds relative to the dearest ordinary call; seeded exploration"),
"C26": ("reference-model monitor with user-written NEC variants plugged in", "variants with arbitrary and partial mappings on every front end, in multi-receivers and senders; seeded exploration"),
"C20": ("offline output checker over generated captures run through the real tool", "thousands of seeded VCD files with frames, repeats, faults and foreign signals"),
}
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": []}
for k in sorted(T):
    m["checks"].append({"property": k, "quick_cmd": f"bash bin/check.sh {k}", "thorough_cmd": f"VERIF_TIER=thorough bash bin/check.sh {k}",
        "technique": "runtime monitoring: " + T[k][0], "level": "exploration", "level_note": T[k][1]})
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
