#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
"C01": ("generated DEFLATE streams, parse/re-encode round trip, zero padding included", "Round trip on hand-assembled streams (any code tables, alignments, sizes), real zlib/miniz output and mutated streams that still parse; every run length and all 32768 distances in directed streams. The oracle is the input itself. Search, not proof. One recorded finding (alt258)."),
"C02": ("differential testing against an independent RFC 1951 decoder (and zlib) on generated streams", "Blocks, codes and content compared with what the generator encoded, cross-checked by an independently written decoder and zlib's inflate. Search, not proof."),
"C03": ("structure-aware malformed-input fuzzing against a strict reference decoder", "Forged defects of every listed class, mutations, cuts at every bit, and exhaustive 3-byte inputs (sampled); overflow checks and debug assertions on. Trusts the reference decoder; inputs on which RFC 1951 forces no answer are unconstrained."),
"C04": ("property-based round trip trace/restore over generated content, history, configurations and encoders", "Codes from random, greedy, lazy, spicy and predictor-guided matchers over colliding-hash alphabets. Search, not proof."),
"C05": ("round trip and differential testing against an independent codec; byte fuzzing of read", "Written bytes compared with an independently written encoder, foreign bytes with an independent decoder."),
"C06": ("end-to-end round trip over generated gzip files", "Recreates each generated file from content plus metadata only, byte comparison. Search, not proof."),
"C07": ("invariant over generated feedback histories", "Every prediction expanded and compared with the content at each step of generated histories."),
"C08": ("model-based testing against an independent model of the matcher", "Candidates and predictions compared with a brute-force model written from the statement. Configurations the model leaves out are counted as such."),
"C09": ("differential testing of header parsing against a reference length function, with cuts", "Reader position, returned bytes and acceptance on generated, cut and changed headers."),
"C10": ("generated concatenations through a byte-counting reader", "Bytes taken after each block and at the end compared with bit counts of the reference decoder."),
"C11": ("model-based stateful testing against a plain vector", "Random operation histories at many capacities, compared with a never-forgetting vector."),
"C12": ("model-based testing of bit reader, writer and vector", "Random scripts and histories against a list of booleans."),
"C13": ("fault injection at generated positions of reader and writer", "Each fault position (all when 80 bytes or fewer), kinds, one-shot and persistent, Ok(0) writes, short transfers, interruptions."),
"C14": ("running the real binary on generated files and failing outputs, against a reference decoder", "Standard output and exit status of the real process."),
"C15": ("running the real binary on generated files, against text made by a reference decoder", "Whole output compared."),
"C16": ("running the real binary on generated files, against a reference chunker and decoder", "Output decoded independently, boundaries compared with a reference chunker. One recorded finding (zero-far-distance)."),
"C17": ("differential testing of filtered against direct streams, hash against an own SHA-512", "Scripted short transfers and failures."),
"C19": ("differential testing of predictions against real zlib and gzip encoders", "The emulated encoder itself is the oracle: zlib's and gzip's fast encoder on generated content with repeats, colliding hashes and long literal runs."),
"C20": ("round trip and differential testing of generated and rearranged block lists against an independent encoder and decoder", "Blocks with missing symbols, cut or changed table bits must be refused; what is representable is decided by independent code. Tables on which RFC 1951 is silent are left open."),
"C21": ("metamorphic testing of command chains on the real binary, with input faults", "Commands are compared with each other rather than with a reference; read failures by a reset connection at generated positions."),
"C22": ("metamorphic testing of generated histories and interleavings of operations against each one done alone", "Fresh process, fresh thread, sequences, interleavings and concurrent threads. Schedules are the operating system's: races are only seen when they happen."),
"C23": ("invariant on tracing generated codes, valid or corrupted", "Only the refusal or the restored codes are judged. Search, not proof."),
"C24": ("metamorphic testing of memory use on short and long generated streams, all allocations counted; real commands under a memory limit", "Peak and remainder of allocations compared between few and many repetitions, and few and many different blocks. Search, not proof."),
"C25": ("metamorphic testing of processor time on short and sixteen times as long generated inputs; real commands likewise", "Thread processor time of k and 16k repetitions compared, with a wide margin and repeated attempts. Growth slower than about n^1.6, or that shows only beyond the sizes reached, is not seen. Search, not proof."),
"C18": ("metamorphic testing of traces of predicted, perturbed and arbitrary code sequences", "Search, not proof."),
}
m = {
 "version": 1,
 "setup_cmd": "./run.sh setup",
 "hooks": {"guard": "--cfg rezip_verif", "enable": "RUSTFLAGS=\"--cfg rezip_verif\" (run.sh sets it for the harness build)",
           "source_commits": ["fc88d42", "39cd588"]},
 "checks": [{"property": k, "quick_cmd": f"./run.sh {k}", "thorough_cmd": f"./run.sh {k} --thorough",
             "technique": "property-based testing: " + t, "level": "exploration", "level_note": n} for k, (t, n) in T.items()],
 "not_applicable": [],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
