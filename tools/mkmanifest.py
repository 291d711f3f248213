#!/usr/bin/env python3
"""Writes MANIFEST.json and mc/rules.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IMPL = "stateless exhaustive exploration of the real code: every member of the stated finite families is executed"
C = {}
def chk(p, technique, rule, note, assumptions=()):
    C[p] = dict(technique=technique, rule=rule, note=note, assumptions=list(assumptions))

chk("C01", "bounded exhaustive exploration of the real pipeline (inputs x options)",
    "A case is one input with one option set: compressed and decompressed in memory by the real Compressor/Decompressor, result compared with the input. Families: all strings over 2, 3 and 4 letters to a length, all single bytes and byte pairs, every length 0..N for 22 input shapes, every alphabet size, all pairs of run lengths around coding thresholds, every starting-point count, memory limits 6..1505 and around the largest block size, option products. States are distinct compressed forms; transitions are pipeline runs.",
    "Exhaustive within the families; beyond them (arbitrary inputs of more than a few letters, inputs above 17 MB) nothing is claimed. Oracle is equality with the input. Trusts the in-memory streams of the harness.",
    ["memory-limit API values below 6 bytes are outside the program's range (megabytes)"])
chk("C02", "exhaustive exploration of program runs over attachments, option spellings and inputs",
    "A case is one or two complete runs of the real programs in a scratch directory: every way to attach input x every way to attach output, all 120 orders of five options x all 21 positions of the two files, all spellings, round trips over inputs x option products, previous contents of the output file, verbosity levels, file names. States are distinct (case kind, output) pairs; transitions are program runs.",
    "Every enumerated command line and attachment is run; expected bytes are those of the file-to-file run, which itself must round-trip.")
chk("C03", "exhaustive exploration of block histories on one coder object and of block boundaries",
    "All sequences of up to four (thorough: five) blocks over an alphabet of blocks with extreme shapes, encoded by one encoder object and decoded by one decoder object, and whole-pipeline runs with every memory limit in a range so that every block boundary position of the input occurs; plus long histories: 300, 5000 and 66000 (thorough: 66000 for every coder) blocks through one coder object.",
    "Exhaustive over the block alphabets and limits stated; other block contents rest on C01, C06 and C07.",
    ["a later block is decoded after the earlier ones by the same decoder, as the decompressor does"])
chk("C04", "exhaustive comparison of the real transforms with a naive reference transform",
    "Each block is transformed by both construction algorithms through BWTManager and compared with a reference computed by sorting rotations of the reversed block with an end marker; character counts, starting points and guard bytes around the block are compared too.",
    "Reference is an independent quadratic sort (doubling sort for long blocks); exhaustive for all strings within the stated lengths and alphabets and all starting-point counts.")
chk("C05", "exhaustive exploration of forward/inverse transform pairs over blocks x starting points",
    "Each block is transformed with the true BWT and every starting-point count of the family, then inverted by every inverse algorithm that accepts it; headers are written and read back for all counts and extreme positions; blocks above 2^24 bytes included.",
    "Exhaustive over all strings in the bounds and all 256 counts on selected blocks; guard bytes catch stray writes.")
chk("C06", "exhaustive exploration of encoder/decoder runs of the Huffman block coder",
    "A case is one transformed block given to the real Huffman encoder and decoder, followed by sentinel bytes: all strings over 2..5 letters to a length, all pairs of run lengths around code thresholds, alphabets 1..256, section layouts, Fibonacci frequencies (longest codes) and run-code sequences. Streams start at position 0 and beyond 2^31 and 2^32, and a second block follows through the same objects. Checked: equal bytes and exact stream position.",
    "Exhaustive within the families; code lengths beyond those reachable with blocks of some million bytes are not explored.")
chk("C07", "exhaustive exploration of encoder/decoder runs of the wavelet block coder with all five models",
    "As C06 for the wavelet coder with each of the five models the format names.",
    "Exhaustive within the families.")
chk("C08", "explicit-state and exhaustive bounded exploration of the arithmetic coder",
    "All sequences of (bit, probability) to a depth over extreme probabilities, every probability value, directed searches of coder states whose interval straddles a byte boundary (carry-less underflow), and all back-to-back segment combinations. Encoder and decoder run in lock step; byte counts and stream positions compared.",
    "Exhaustive to the stated depths; longer sequences are covered by structured long runs only.")
chk("C09", "exhaustive exploration of operation histories of all probability models in lock step",
    "All operation sequences (update 0/1, predict, reset, extra queries) to a depth for every model, run on two instances that start from different memory contents, plus de Bruijn histories visiting every context and all run-length triples. Predictions compared and range-checked after every step.",
    "Exhaustive to the depth; contexts deeper than the depth are reached by the de Bruijn and run histories.")
chk("C10", "exhaustive exploration of pair replacement over enumerated pair structures",
    "Inputs enumerated by number of frequent pairs, repetitions, rare symbols, layout, shape and ending, so that every situation of free, freed and special symbols occurs, for 1..12 rounds; restored by the Postprocessor from the written grammar; in-place and copying replacement compared; size compared; one block above 2^32 bytes (skipped and counted when memory is short).",
    "Pairs are replaced only when they occur often, so inputs are structured families rather than all short strings; all short strings are included as well (nothing to replace).")
chk("C11", "exhaustive exploration of grammar operation histories",
    "All sequences of up to four (thorough: five) rounds over an alphabet of round types (free symbols, freed symbols, specials, shapes of right-hand sides), each legal history applied to the real Grammar, written, read back and compared structurally and by expanding test strings; byte counts compared.",
    "Exhaustive over the round alphabet to the depth.")
chk("C12", "exhaustive exploration of stream operation sequences against a flat-array model",
    "All operation sequences to a depth on RawOutStream from every interesting fill level of the 64 KiB buffer, and on RawInStream at every interesting distance to buffer and file ends; model is a plain array with a position; output attached as named file, as standard output at an offset (also beyond 2^31 and 2^32) and in append mode.",
    "The model's state after every operation is compared with the file or the returned value; exhaustive to the depth from the stated start states.",
    ["end-of-data is not queried with exactly one unread byte, where the code documents a deliberate imprecision"])
chk("C13", "exhaustive evaluation of integer, prefix and Huffman codes over bounded domains",
    "All integers below 2^21 (thorough 2^24) and around all powers of two, all ranges to a size, all subsets of a small universe, all small frequency tables; decoded value, bits used, Kraft sum, and total cost against an optimal reference.",
    "Exhaustive within the domains; the reference cost is computed by an independent merge of the two smallest.")
chk("C14", "exhaustive exploration of the real pipeline under AddressSanitizer and a hang watchdog",
    "Every case is a full compress/decompress or preprocess/postprocess run of the real code built with AddressSanitizer and assertions; a report, a signal, an assertion or exceeding the time limit is a violation.",
    "Exhaustive within the families; AddressSanitizer does not see reads inside the same allocation or uninitialised reads (C15 covers part of those).")
chk("C15", "exhaustive exploration of executions under all pairs of histories and memory fills",
    "All ordered pairs of work items in one process compared with a fresh process, and each input under four fill patterns of every fresh allocation (malloc interposed), for compression, decompression and preprocessing.",
    "Dependence on memory contents is observed through different fills; memory contents that all four fills treat alike are not distinguished.")
chk("C16", "exhaustive fault enumeration: every byte at which output fills up or input fails, every system call failing",
    "Each run of a real program has exactly one fault: output limited to k bytes for every k (small outputs) or every buffer boundary (large), input failing after k bytes, failing devices and descriptors, and every read, write, seek and close call on input or output failing in turn (injected by strace, found by running until no call is left). Exit status 0 requires the complete output and no failed transfer.",
    "Single faults; combinations of faults are not explored.")
chk("C17", "exhaustive exploration of output kinds and input divisions of program runs",
    "Every kind of output (file, pipe, FIFO, socket, append, offset also beyond 2^31 and 2^32, /dev/fd) and input for jobs over the four programs, and every division of short inputs into reads, controlled by feeding a pipe piece by piece only after the previous piece was taken.",
    "Exhaustive for all divisions of inputs up to 10 bytes, and all divisions into up to three (four) reads of a compressed file.")
chk("C18", "exhaustive exploration with an independent parser of the container format",
    "Every case compresses an input, walks the container with an independent parser using only the stored lengths, and compares every stored length, size and count and the reported totals with the truth; includes grammars whose expansion exceeds 2^32 and blocks whose length field exceeds 2^24. The sizes the programs print are compared with their files.",
    "Exhaustive within the families; block lengths are checked by skipping and by decoding in order.")
chk("C19", "exhaustive exploration of preprocess/postprocess program runs",
    "Runs of the two programs over inputs x block sizes x preprocessing strings, all short inputs, lengths around block and length-code boundaries, attachments; without preprocessing the output is parsed and compared with the input's blocks.",
    "Every enumerated case is run; the size bound is input plus block headers.")
chk("C20", "exhaustive exploration of command lines over complete option value domains",
    "Every printable character for the character options, every starting-point count to 300 and boundaries, malformed numbers, unknown options, missing arguments, in several positions, with and without an existing output file; documented values with their stored effect.",
    "Every enumerated command line is run; option abbreviations the parser library accepts are not claimed either way.")
chk("C21", "exhaustive exploration of operation sequences against map and queue models",
    "All operation sequences to a depth on the real FrequencyTable from eight initial tables and on the circular queue at capacities 1..5 within its contract, compared with a map and a deque after every operation.",
    "Exhaustive to the depth; includes pipeline runs that use the structures under load.")
chk("C22", "exhaustive exploration of both directions between the current tree and a frozen copy of the released one",
    "Each input is compressed (or preprocessed) by the frozen reference in ref/ and by the current tree, both with the same options; each restores what the other wrote. Families: all short strings, all lengths of 22 shapes, alphabets, run pairs, starting points, memory limits, option products, replacement structures, large inputs; and the same with the programs. States are distinct archives.",
    "The reference is a copy of the released sources (with the repairs of this work, none of which changes the format: the copy and the original commit write the same archives); a change that writes different but mutually readable archives is not reported.")
chk("C23", "exhaustive enumeration of cut-off points of archives, restored by the real programs",
    "Each case restores the first k bytes of an archive: every k for archives below 1500 (thorough 6000) bytes over all coders, starting points and preprocessing, every k around buffer boundaries, starts, ends and in a fixed grid for larger ones of several blocks; through files, standard input and pipes.",
    "Exhaustive for the small archives; data damaged in other ways than by cutting off is not claimed.")
chk("C24", "exhaustive exploration of runs with counted allocations, and of program runs in a limited address space",
    "Each case runs compression and decompression (or preprocessing and postprocessing) three times and compares live memory after the second and third, or compares the peak for N and 4N blocks, or the peak with the memory limit; the allocator is interposed. The programs restore and compress inputs much larger than the address space they may use.",
    "Exhaustive within the families; bound factors 1.5 and 2 plus 3 MB are above what the code needs (1.35 and 1.74 at most).")
chk("C25", "exhaustive fault enumeration: every allocation of a program run failing",
    "For each job the number of allocations is measured, then every one of them fails in a run of its own, alone and together with all that follow (preloaded allocator). Exit status 0 requires the correct output; otherwise a message and no crash.",
    "Every allocation of the jobs from the start of main on; an uncaught allocation exception (message and abort) counts as reported.")
chk("C26", "explicit-state exploration of a directory model replayed on the programs, and exhaustive enumeration of end points of runs",
    "All reachable states of a model of a directory of three files (each absent or the original under up to two layers of compress and preprocess), every transition carried out by the real programs and the whole directory compared with the model's successor. Every way to name one file as input and output; snapshots of a directory full of likely names around runs; runs killed, or given an error, at every system call in turn; inputs that cannot be opened.",
    "The model's state space is explored completely; attributes compared are type, mode, owner, links, inode, modification time and contents. A file redirected by the shell is the shell's doing and not claimed.")
ORDER = sorted(C)
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                 "evidence_file": "evidence/%s.json" % p, "technique": "model checking: " + C[p]["technique"],
                 "level": "model_checking", "level_note": C[p]["note"]} for p in ORDER],
     "not_applicable": [],
     "notes": "No hooks in /repo: harnesses compile the sources as they are. Repairs in /repo are the commits starting with fix:, listed in known-findings.txt. Replay a violation with: python3 check.py --replay <path>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
json.dump({p: {"rule": C[p]["rule"], "assumptions": C[p]["assumptions"]} for p in ORDER}, open(os.path.join(V, "mc", "rules.json"), "w"), indent=1)
open(os.path.join(V, "mc", "rules.json"), "a").write("\n")
