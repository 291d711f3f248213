#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Compressing and decompressing any input restores it byte for byte",
 "For every byte sequence (including the empty one) and every combination of entropy coder, BWT algorithm, number of starting points, preprocessing string and memory limit, decompressing the compressed form yields exactly the original bytes. The decompressor needs nothing but the compressed bytes: every option is recovered from them.",
 ["inputs", "configurations"], "all finite byte strings x all option combinations the compressor accepts",
 "The tests round-trip a few random and periodic inputs with one or two option sets; the input space times six coders, three BWT choices, 256 starting-point counts, preprocessing strings and memory limits is never enumerated.",
 ["Compressor.cpp", "Decompressor.cpp", "PrecompressorBlock.cpp", "BWTBlock.cpp", "EntropyCoders.cpp", "HuffmanCoders.cpp", "WaveletCoders.cpp", "WaveletTree.hpp", "bwtransforms/", "preprocessors/", "probmodels/", "BitCoders.cpp", "Utils.cpp"],
 [("compression pipeline", "Compressor::compress"), ("decompression pipeline", "Decompressor::decompress"), ("global header names the coder", "Compressor::writeGlobalHeader / Decompressor::readGlobalHeader")],
 observe=["bytes delivered to the output stream of the decompressor"])

prop("C02", "The compress and uncompress programs round-trip files, stdin and stdout",
 "Running the compress program and then the uncompress program restores the input exactly and both exit with status 0, for every input, whichever of file, standard input and standard output each side uses and in whatever spelling and order the options are given. The compressed bytes do not depend on how input and output are attached, and an existing output file is fully replaced.",
 ["inputs", "configurations", "histories"], "all inputs x all ways to attach input and output x all accepted option spellings x previous contents of the output file",
 "No test runs the programs at all; option parsing, stdin/stdout selection and file replacement are untested.",
 ["compress.cpp", "uncompress.cpp", "Streams.cpp", "Compressor.cpp", "Decompressor.cpp"],
 [("option parsing", "compress.cpp main, uncompress.cpp main"), ("file or standard stream selection", "RawOutStream/RawInStream constructors")],
 observe=["output files", "exit status"])

prop("C03", "Blocks stay independent: any history of blocks decodes correctly",
 "When an input is larger than one block, or one coder object processes block after block, every block is restored exactly whatever blocks came before or after it and wherever the memory limit puts the block boundaries. The restored data is the concatenation of all blocks in order, with none lost, duplicated or reordered.",
 ["histories", "inputs", "configurations"], "all sequences of blocks of differing content and size, all block boundary positions, all coders",
 "Round-trip tests use inputs that fit into one or a few identically shaped blocks, so state leaking from one block to the next is only sampled.",
 ["Compressor.cpp", "Decompressor.cpp", "PrecompressorBlock.cpp", "WaveletCoders.cpp", "HuffmanCoders.cpp", "BitCoders.cpp", "probmodels/"],
 [("slicing and block loop", "Compressor::compress, PrecompressorBlock::sliceIntoBlocks"), ("model reset between sections", "WaveletEncoder::endContextBlock / WaveletDecoder::endContextBlock"), ("coder restart", "BitEncoder::finish / BitDecoder::start")],
 state=[("model state", "probability model state carried from block to block", "WaveletEncoder/WaveletDecoder")])

prop("C04", "The forward transform is the true BWT, whichever algorithm computes it",
 "For every block, the transformed bytes are exactly those of the Burrows-Wheeler transform of the reversed block with an end marker smaller than every byte, both construction algorithms give identical results, and the reported character frequencies and starting points are the true ones. The byte right behind the block and all other memory are left unchanged.",
 ["inputs", "configurations"], "all blocks x both algorithms x all numbers of starting points",
 "Tests compare suffix arrays on a handful of random strings and check round trips only, so a wrong but self-consistent transform or a wrong starting point on special repetition structures goes unseen.",
 ["bwtransforms/BWTransform.cpp", "bwtransforms/BWTransform.hpp", "bwtransforms/Divsufsorter.hpp", "bwtransforms/SA-IS-bwt.cpp", "bwtransforms/SA-IS-bwt.hpp", "bwtransforms/sais.hxx", "bwtransforms/divsufsort.c", "bwtransforms/sssort.c", "bwtransforms/trsort.c", "bwtransforms/BWTManager.cpp"],
 [("block transform", "BWTransform::doTransform"), ("suffix sorting", "divbwt, saisxx_bwt"), ("starting points", "BWTBlock::prepareLFpowers")])

prop("C05", "Inverse BWT restores every block for every number of starting points",
 "For every block and every number of starting points from 1 to 256, applying the inverse transform to the forward transform with its starting points restores the block exactly. Every inverse algorithm offered gives the same result, and the block header that carries the starting points is read back exactly as written.",
 ["inputs", "configurations"], "all blocks x 1..256 starting points x all inverse algorithms x all starting point values a block can have",
 "Tests use random data of a few sizes; lengths that do not divide evenly by the number of starting points and special byte structures are sampled only.",
 ["bwtransforms/InverseBWT.cpp", "bwtransforms/InverseBWT.hpp", "bwtransforms/MtlSaInverseBWT.cpp", "bwtransforms/MtlSaInverseBWT.hpp", "BWTBlock.cpp"],
 [("multi-start inverse", "MtlSaInverseBWTransform::doTransform"), ("simple inverse", "FastInverseBWTransform::doTransform"), ("header", "BWTBlock::writeHeader / readHeader")])

prop("C06", "The Huffman block coder is lossless and reads back exactly what it wrote",
 "For every transformed block, encoding with the Huffman coder and decoding gives back the same bytes, whatever the alphabet, run lengths, code lengths and division into sections. Decoding consumes exactly the bytes that encoding produced, so whatever follows in the stream is read correctly.",
 ["inputs"], "all byte blocks: alphabets of 1..256 symbols, run lengths of all magnitudes, code lengths up to the Huffman maximum, all section layouts",
 "One test round-trips the Huffman coder through the whole pipeline on few inputs; the hand-written bit-buffer decoder has dozens of states (zero runs, codes crossing byte boundaries) that are only hit by chance.",
 ["HuffmanCoders.cpp", "HuffmanCoders.hpp", "Utils.cpp", "Utils.hpp"],
 [("encoding", "HuffmanEncoder::encodeData, serializeShape"), ("decoding", "HuffmanDecoder::decodeBlock, deserializeShape"), ("sections", "HuffmanEncoder::writeBlockHeader")])

prop("C07", "The wavelet-tree block coder is lossless with every probability model",
 "For every transformed block and every probability model, encoding with the wavelet-tree coder and decoding gives back the same bytes, whatever the alphabet, run lengths and division into sections. Decoding consumes exactly the bytes that encoding produced, so whatever follows in the stream is read correctly.",
 ["inputs", "configurations"], "all byte blocks x all five models",
 "Tests use a few generated inputs and a mock bit coder; tree shapes, run-length code parameters and section layouts are sampled only.",
 ["WaveletTree.hpp", "WaveletCoders.cpp", "WaveletCoders.hpp", "BitCoders.cpp", "probmodels/"],
 [("tree construction and traversal", "WaveletTree::encodeTreeBF / decodeTreeBF / message"), ("shape serialisation", "WaveletTree::treeShape / readShape"), ("run-length codes", "WaveletTree::findParametersForSemiFixedCodes"), ("sections", "WaveletEncoder::writeBlockHeader")])

prop("C08", "The arithmetic coder decodes every bit sequence with any probabilities",
 "For every sequence of bits and every sequence of probabilities in the permitted range, the arithmetic decoder given the same probabilities returns the same bits. It consumes exactly the bytes the encoder produced and counted, so sequences written back to back decode one after another.",
 ["inputs", "histories"], "all bit sequences x all probability sequences x all sequences of encode/finish segments",
 "No test exercises the arithmetic coder on its own; carries, renormalisation at byte boundaries and extreme probabilities are hit only by chance.",
 ["BitCoders.cpp", "BitCoders.hpp"],
 [("interval subdivision and renormalisation", "BitEncoder::encode / BitDecoder::decode"), ("termination", "BitEncoder::finish / BitDecoder::start")],
 state=[("coding interval", "low and high end of the interval", "BitEncoder/BitDecoder")])

prop("C09", "Probability models predict identically on both sides and stay in range",
 "Two instances of a probability model fed the same history of coded bits and resets always give the same prediction, and each prediction lies within the range the arithmetic coder accepts. Neither property may depend on memory contents, on other model instances or on how often the prediction is asked for.",
 ["histories"], "all histories of updates, state updates and resets, for every model",
 "No test drives the models; the encoder and decoder would agree on short inputs even when a state is read uninitialised or out of bounds.",
 ["probmodels/ProbabilityModel.cpp", "probmodels/ProbabilityModel.hpp", "probmodels/BitPredictors.hpp", "probmodels/FSM.hpp"],
 [("models", "giveProbabilityModel, giveModelForIntegerCodes, giveModelForGaps"), ("state machine", "FSM, FSM8, BitPredictors")])

prop("C10", "Pair-replacement preprocessing is reversible and never enlarges the data",
 "For every block and every number of preprocessing rounds, postprocessing the preprocessed block with its stored grammar restores the block exactly. The preprocessed data is never longer than the original, and replacing in place gives the same result as replacing into a separate buffer.",
 ["inputs", "configurations"], "all blocks x 1..n rounds, including blocks that use all 256 byte values so that symbols must be freed or escaped",
 "Tests run a dozen hand-made strings and random data; replacement needs more than a thousand repeats and depends on the complete frequency profile, so combinations of freed symbols, escapes, nested rules and in-place buffering are barely reached.",
 ["preprocessors/PairReplacer.cpp", "preprocessors/PairReplacer.hpp", "preprocessors/Precompressor.cpp", "preprocessors/Grammar.cpp", "preprocessors/Grammar.hpp", "preprocessors/FrequencyTable.cpp", "preprocessors/Postprocessor.cpp", "Utils.hpp"],
 [("choice of replacements", "PairReplacer::decideReplacements"), ("rewriting", "PairReplacer::writeReplacedVersion"), ("expansion", "Postprocessor::uncompress"), ("rounds and buffer swaps", "Precompressor::precompress")])

prop("C11", "A grammar survives being written and read back",
 "Every replacement grammar that can be built is written to a stream such that reading it back yields an equivalent grammar: same rules in order, same special symbols, and the same expansion of every byte sequence. Writing reports the exact number of bytes written and reading consumes exactly those bytes.",
 ["histories", "inputs"], "all sequences of grammar-building operations within the 256-symbol alphabet",
 "The grammar tests write and read a few small grammars.",
 ["preprocessors/Grammar.cpp", "preprocessors/Grammar.hpp", "preprocessors/Postprocessor.cpp"],
 [("serialisation", "Grammar::writeGrammar / readGrammar"), ("construction", "Grammar::addRule, expandAlphabet, beginUpdatingRules, endUpdatingRules")])

prop("C12", "Byte streams deliver exactly what was written, across buffer boundaries",
 "For every sequence of byte, block, flush, position and length-patching operations on an output stream, the resulting file holds exactly the bytes written in order, with patched fields at the patched positions. For every sequence of byte, bit, block, 48-bit and realignment reads, an input stream returns exactly the file's bits in order and reports the end of data correctly.",
 ["histories", "inputs"], "all operation sequences x all buffer fill levels, in particular around the 64 KiB buffer size",
 "The stream tests write single blocks of a few sizes and read them back with one block size.",
 ["Streams.cpp", "Streams.hpp"],
 [("output buffering", "RawOutStream::writeByte, writeBlock, flush"), ("length patching", "RawOutStream::getPos, write48bits"), ("input buffering", "RawInStream::fetchByte, readByte, readBit, readBlock")])

prop("C13", "Integer and prefix codes decode uniquely and Huffman lengths are optimal",
 "Every integer and every sorted integer list within range is decoded from its variable-length, fixed-width, unary or interpolative code to the same value, with the reported number of bits or bytes being the number actually used. For every frequency table, the computed code lengths form a complete prefix code of minimal total cost, and the assigned codewords are prefix-free.",
 ["inputs"], "all integers up to the supported widths, all sorted lists over a byte alphabet, all frequency tables",
 "Tests check a few values and random lists.",
 ["Utils.cpp", "Utils.hpp"],
 [("packed integers", "utils::packInteger, unpackInteger, readPackedInteger"), ("binary and interpolative codes", "utils::binaryCode, binaryInterpolativeCode and decoders"), ("Huffman lengths and codes", "utils::calculateHuffmanLengths, computeHuffmanCodes")])

prop("C14", "No valid input makes the programs touch memory they do not own or hang",
 "Compressing any input with any options, and decompressing or postprocessing anything the programs produced, never reads or writes outside allocated memory, never uses freed memory, never trips an internal assertion and always finishes.",
 ["inputs", "configurations"], "all inputs x all options, and every compressed stream the compressor can emit",
 "The tests run without memory checking, and out-of-bounds accesses that happen to land in padding do not change results.",
 ["WaveletTree.hpp", "HuffmanCoders.cpp", "preprocessors/", "probmodels/", "bwtransforms/", "Utils.cpp", "Streams.cpp", "BWTBlock.cpp", "PrecompressorBlock.cpp"],
 [("block memory with room for the sentinel", "PrecompressorBlock, BWTransform::doTransform"), ("context-indexed history", "SimpleMarkov"), ("in-place buffers", "CircularBuffer, PairReplacer")])

prop("C15", "Compression is a function of the input bytes and options only",
 "Compressing the same bytes with the same options always produces the same compressed bytes, whatever the previous contents of memory, whatever was compressed before in the same process and however often it is repeated. The same holds for preprocessing and for the bytes produced by decompression.",
 ["histories", "inputs", "configurations"], "all inputs x options x initial memory contents x preceding work in the process",
 "Tests never compare two compressions of the same data, so dependence on uninitialised memory or leftover state stays invisible as long as one round trip succeeds.",
 ["Compressor.cpp", "WaveletTree.hpp", "HuffmanCoders.cpp", "preprocessors/", "probmodels/", "bwtransforms/"],
 [("initialisation of tables and models", "constructors and resets throughout")])

prop("C16", "A failed read or write is never reported as success",
 "If any write to the output fails or any read of the input fails, at whatever point it happens, the program ends with a non-zero exit status. An exit status of zero means that the complete output was handed to the operating system.",
 ["fault_sequences", "crash_points", "inputs"], "every system call that reads input or writes output, failing with an error or delivering short counts, in all four programs",
 "No test injects an I/O error.",
 ["Streams.cpp", "Streams.hpp", "compress.cpp", "uncompress.cpp", "preprocess.cpp", "postprocess.cpp"],
 [("write error detection", "RawOutStream::writeFailed"), ("read error detection", "RawInStream::fetchByte")])

prop("C17", "Pipes, appended files and slow readers give the same bytes as plain files",
 "What the programs write does not depend on whether the output can be rewritten: a pipe, a named pipe, a file opened for appending and a regular file all receive the same bytes. What they read does not depend on how the input arrives: any division of the input into partial reads gives the same result.",
 ["configurations", "schedules", "inputs"], "all kinds of output targets x all divisions of input and output into partial transfers x single and multi-block inputs",
 "No test uses anything but regular files.",
 ["Streams.cpp", "Streams.hpp"],
 [("length patching without seeking", "RawOutStream::getPos, copySpoolToTarget"), ("refilling", "RawInStream::fetchByte")])

prop("C18", "Sizes the compressor reports and stores are exact",
 "The number of compressed bytes reported equals the number of bytes written, and the number of decompressed bytes reported equals the size of the original. Every block's stored length field equals the number of bytes the block occupies behind it, so that blocks can be skipped without decoding them, and the stored original size and block count are the true ones, as are the sizes the programs print when asked to.",
 ["inputs", "configurations", "histories"], "all inputs x coders x block divisions",
 "Tests ignore the returned sizes and the decoder never uses the length fields, so wrong values pass every test.",
 ["Compressor.cpp", "Decompressor.cpp", "HuffmanCoders.cpp", "WaveletCoders.cpp", "BitCoders.cpp", "PrecompressorBlock.cpp", "BWTBlock.cpp", "preprocessors/Grammar.cpp"],
 [("byte accounting", "writeBlockHeader, encodeData, BitEncoder::counter, finishBlock"), ("length back-patching", "OutStream::write48bits")])

prop("C19", "The preprocess and postprocess programs round-trip for every block size",
 "Running the preprocess program with any block size and preprocessing string, followed by the postprocess program, restores the input exactly with exit status 0 for every input. Without preprocessing the payload is stored unchanged, and the output never exceeds the input by more than the block headers.",
 ["inputs", "configurations"], "all inputs x block sizes x preprocessing strings x stdin/stdout/file attachment",
 "No test runs these programs.",
 ["preprocess.cpp", "postprocess.cpp", "PrecompressorBlock.cpp", "preprocessors/", "Streams.cpp"],
 [("block loop", "preprocess()"), ("header with stored size", "PrecompressorBlock::writeBlockHeader / readBlockHeader")])

prop("C20", "Invalid command lines are rejected before any file is touched",
 "Every option value outside the documented set, every unknown option and every missing option argument makes the program exit with a non-zero status and an error message, without creating or changing the output file. Every documented value is accepted and has its documented effect on the stored data.",
 ["configurations"], "all values of each option in a complete small domain (all single characters, all small integers and their boundaries), all four programs",
 "No test runs the programs.",
 ["compress.cpp", "uncompress.cpp", "preprocess.cpp", "postprocess.cpp", "bwtransforms/BWTManager.cpp"],
 [("validators", "validatePreprocOption, validateStartingPoints, validateEncodingOption, validateBWTchoice")])

prop("C21", "Frequency bookkeeping stays a sorted permutation under any updates",
 "Under every sequence of increases and decreases the frequency table keeps every byte exactly once, keeps its entries sorted by frequency, and reports the frequency each byte really has. The bounded queue used for in-place rewriting returns bytes in the order they were stored for every sequence of operations within its capacity.",
 ["histories"], "all operation sequences up to a depth from all small frequency profiles",
 "No test reaches these tables other than through whole preprocessing runs.",
 ["preprocessors/FrequencyTable.cpp", "preprocessors/FrequencyTable.hpp", "Utils.hpp"],
 [("order maintenance", "FrequencyTable::increase / decrease"), ("queue", "CircularBuffer")])

prop("C22", "Archives stay readable: what earlier versions stored can be restored",
 "Whatever the released version wrote, compressed or preprocessed, is restored exactly by the current version, and whatever the current version writes is restored exactly by the released one. The format carries no version number, so any change of what the stored bytes mean, even one made consistently on the writing and the reading side, loses existing archives.",
 ["inputs", "configurations", "histories"], "all inputs x coders x preprocessing strings x block divisions, across versions",
 "Tests round-trip within one build, so a format change applied to both sides passes them all.",
 ["Compressor.cpp", "Decompressor.cpp", "HuffmanCoders.cpp", "WaveletCoders.cpp", "WaveletTree.hpp", "BitCoders.cpp", "BWTBlock.cpp", "PrecompressorBlock.cpp", "preprocessors/Grammar.cpp", "probmodels/", "Utils.cpp"],
 [("container and block headers", "writeGlobalHeader, writeBlockHeader, writePackedInteger"), ("section and tree layout", "HuffmanEncoder, WaveletTree"), ("model parameters, which are part of the format", "probmodels/")],
 observe=["bytes restored from archives of the other version"])

prop("C23", "A truncated archive is reported, never restored as if complete",
 "Restoring any proper prefix of a compressed or preprocessed file ends in bounded time with a non-zero exit status and an error message, and whatever it has written by then is a prefix of the original. Only the complete file is restored with exit status 0.",
 ["inputs", "crash_points", "configurations"], "all archives x every length they can be cut off at x coders x ways to attach the input",
 "No test feeds incomplete data to a decoder.",
 ["Streams.cpp", "Streams.hpp", "Decompressor.cpp", "HuffmanCoders.cpp", "WaveletCoders.cpp", "PrecompressorBlock.cpp", "postprocess.cpp", "uncompress.cpp"],
 [("end of data while more is needed", "RawInStream::fetchExistingByte"), ("end marker", "PrecompressorBlock::writeEmptyHeader / readBlockHeader")],
 observe=["exit status", "error message", "output"])

prop("C24", "Memory is bounded by the limit and given back, however long the input",
 "The memory compression needs stays below one and a half times the given limit, and that of decompression below twice the limit the archive was made with, plus a few megabytes, whatever the length and contents of the input. Compressing, decompressing, preprocessing and postprocessing give back everything they allocated once they are done, and the number of blocks does not influence their peak.",
 ["inputs", "configurations", "histories"], "all inputs x coders x limits x numbers of blocks",
 "Tests do not measure memory; a leak per block or a buffer that grows with the input passes all of them.",
 ["Compressor.cpp", "Decompressor.cpp", "WaveletTree.hpp", "HuffmanCoders.cpp", "WaveletCoders.cpp", "PrecompressorBlock.cpp", "preprocessors/", "bwtransforms/", "Streams.cpp", "compress.cpp"],
 [("block sizes from the limit", "Compressor::compress"), ("ownership of trees, blocks and models", "destructors throughout")],
 observe=["live and peak heap", "address space a program run needs"])

prop("C25", "Running out of memory is reported, never turned into wrong output",
 "If any memory allocation fails, at whatever point of the run, the program ends with a non-zero exit status and an error message. Exit status zero means that the output is complete and correct, as without the failure.",
 ["fault_sequences", "crash_points", "configurations"], "every allocation of a run failing, alone or together with all later ones, in all four programs",
 "No test makes an allocation fail.",
 ["bwtransforms/Divsufsorter.hpp", "bwtransforms/divsufsort.c", "bwtransforms/sais.hxx", "Utils.hpp", "PrecompressorBlock.cpp", "Streams.cpp"],
 [("results of the suffix sorters", "Divsufsorter::doTransform, saisxx_bwt"), ("block and queue memory", "allocateBytes, CircularBuffer")],
 observe=["exit status", "error message", "output"])

prop("C26", "The input is never harmed and nothing but the output file changes",
 "However a run of any of the four programs ends (success, error, killed at any point), the input file and all other files stay as they were, and a run that ends by itself leaves no file but the output behind. Input and output that lead to the same file, by whatever names, are refused with an error instead of destroying the data, and an input that cannot be opened is reported with an existing output left as it was.",
 ["configurations", "crash_points", "fault_sequences", "histories"], "all ways to name one file twice x programs x options, every system call of a run as the point of its end, all sequences of program runs over a small set of files",
 "No test runs the programs, and none looks at files other than its own.",
 ["compress.cpp", "uncompress.cpp", "preprocess.cpp", "postprocess.cpp", "Compressor.cpp", "Decompressor.cpp", "Streams.cpp"],
 [("order of opening input and output", "constructors of Compressor and Decompressor, preprocess(), postprocess()"), ("comparison of the files", "isSameFile"), ("temporary data", "RawOutStream::getPos")],
 observe=["contents and attributes of all files", "exit status", "error message"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
