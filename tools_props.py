#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code because JSON lines are unpleasant to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

L = "src/lib/"
prop("C01", "A particle set holds exactly what was put in it",
     "After any sequence of adding attributes, fixed attributes and particles and of writing values, a particle set reports exactly the counts, names, types and widths that were added, and every value last written is read back unchanged by every way of reading it (single, bulk, as float, fixed), whatever was added before, between or after. Adding a name that already exists, asking for an absent name or index, and writing past the last particle change nothing.",
     ["histories"], "all sequences of container operations",
     "The tests build a handful of sets in one order (attributes, then particles, then values); growth of the storage, attributes added after particles, and interleavings of the operations are not exercised.",
     [L+"core/ParticleSimple.cpp", L+"core/ParticleSimple.h", L+"Partio.h"],
     [("per-attribute arrays grown by addParticle/addParticles", L+"core/ParticleSimple.cpp addParticle, addParticles"), ("name to index maps", L+"core/ParticleSimple.cpp addAttribute, attributeInfo"), ("bulk and as-float reads", L+"core/ParticleSimple.cpp dataInternalMultiple, dataAsFloat")],
     ["numParticles", "attributeInfo", "data", "fixedData", "dataAsFloat"])
prop("C02", "The interleaved particle set behaves like the standard one",
     "A particle set created in interleaved layout gives the same answer as a standard one to every sequence of adding attributes and particles, writing, reading, iterating, string-table use and spatial search.",
     ["histories"], "all sequences of container operations on the interleaved container",
     "No test uses the interleaved container for more than creation; its storage code is separate from the standard one.",
     [L+"core/ParticleSimpleInterleave.cpp", L+"core/ParticleSimpleInterleave.h"],
     [("single strided block repacked when an attribute is added", L+"core/ParticleSimpleInterleave.cpp addAttribute"), ("separate fixed block", L+"core/ParticleSimpleInterleave.cpp addFixedAttribute")],
     ["the public particle-set interface"])
prop("C03", "Iteration visits every particle exactly once, in order",
     "Iterating a particle set from its beginning, from any index, or from the position returned when particles were added visits every particle from there on exactly once in index order and then compares equal to the end, with prefix or postfix increment, on const or mutable sets; at each position every registered accessor reads and writes exactly that particle's values.",
     ["histories", "inputs"], "all sequences of iterator operations on sets of every size up to a bound, and all set-building histories",
     "Tests iterate with the prefix form over one set of fixed size; copies, postfix steps, empty sets and iteration after growth are not covered.",
     [L+"PartioIterator.h", L+"core/ParticleSimple.cpp"],
     [("index advanced to the block end, then replaced by the end iterator", L+"PartioIterator.h operator++; core/ParticleSimple.cpp setupIteratorNextBlock"), ("accessor base pointer and stride", L+"core/ParticleSimple.cpp setupAccessor")],
     ["ParticleIterator", "ParticleAccessor"])
prop("C04", "String tokens always decode to the string they stand for",
     "For every string attribute, particle or fixed, a token given for a string keeps decoding to that string until that token is reassigned; registering a present string gives a token that decodes to it without growing the table, a new one gets the next token, and lookup finds a token of every present string and reports -1 for every absent one. Tables of different attributes never affect each other.",
     ["histories"], "all sequences of register / reassign / lookup over a string pool, table sizes and string lengths",
     "Tests register a few distinct strings once; reassignment that creates or removes duplicates needs a multi-step history.",
     [L+"core/ParticleSimple.cpp", L+"core/ParticleSimple.h"],
     [("string vector plus reverse map", L+"core/ParticleSimple.h IndexedStrTable")],
     ["registerIndexedStr", "setIndexedStr", "lookupIndexedStr", "indexedStrs", "and the Fixed variants"])
prop("C05", "Spatial queries return exactly the right particles",
     "After sort(), a box query adds exactly the particles inside the closed box to the result, each once, and a nearest-neighbour query returns the N closest particles strictly within the radius (or all of them if fewer), each once with its squared distance, and the squared final radius; both in original particle indices. Sorting never changes particle data and can be repeated after any change of the set.",
     ["inputs", "histories"], "all point arrangements, set sizes, boxes, centres, radii and neighbour counts within the bounds; sort/modify/sort histories",
     "The test queries one regular grid; the search tree's shape depends on the particle count and ties, and pruning errors show only for particular geometries.",
     [L+"core/KdTree.h", L+"core/ParticleSimple.cpp"],
     [("left-balanced tree in preorder with computed subtree sizes", L+"core/KdTree.h ComputeSubtreeSizes, sortSubtree"), ("bounded max-heap of candidates", L+"core/KdTree.h buildHeap, insertToHeap"), ("remapping to original indices", L+"core/ParticleSimple.cpp findPoints, findNPoints")],
     ["sort", "findPoints", "findNPoints"])
prop("C06", "Cached reads share one copy until the last holder releases it",
     "While at least one holder has not released a file read through the cache, every further cached read of the same name returns the same object and its contents stay valid; it is freed exactly when the last holder releases it, after which a cached read loads the file anew. A file that cannot be read gives no object and is not remembered, and asking for a sorted set gives one on which spatial queries work even if it was first cached unsorted.",
     ["histories", "schedules"], "all sequences of cached reads and releases over two files and all interleavings of such sequences by two or three threads up to a preemption bound",
     "The cache test performs one fixed sequence on one thread.",
     [L+"core/ParticleCaching.cpp", L+"core/ParticleCaching.h", L+"core/Mutex.h"],
     [("name to object and object to reference-count maps under one mutex", L+"core/ParticleCaching.cpp readCached, freeCached")],
     ["readCached", "release"])
prop("C07", "Independent use of the library from several threads is safe",
     "Threads that read, write, probe headers, create, release and query different particle sets (or query the same sorted set, or share cached sets) at the same time get the same results as if they had run one after another, from the first call in the process on; no interleaving leads to a data race on library state, a crash, a deadlock or a lost result.",
     ["schedules"], "all interleavings, up to a preemption bound, of two or three threads each performing one or two library calls, starting with the first calls of the process",
     "The tests are single threaded.",
     [L+"io/ParticleIO.cpp", L+"core/ParticleCaching.cpp", L+"core/Mutex.h", L+"io/PTS.cpp"],
     [("lazily built table of readers and writers", L+"io/ParticleIO.cpp readers, writers"), ("cache mutex", L+"core/ParticleCaching.cpp"), ("function-local static buffers and non-reentrant tokenising in readers", L+"io/PTS.cpp, io/BGEO.cpp")],
     ["read", "write", "readHeaders", "readCached", "findNPoints"])
prop("C08", "Writing a particle set and reading it back preserves it",
     "For every format the library can both write and read, reading back a written particle set gives the same particles in the same order with the same names, types, widths, values and strings for everything that format can express (text formats to their printed precision, PTC directions and single-width floats to their stored precision), for any number of particles and attributes; what a format cannot express is left out without disturbing the rest. Writing never changes the set being written, and writing the same set again gives the same file.",
     ["inputs"], "all particle sets over schema, count and value grids, for each format",
     "The tests round-trip one or two small sets per format, mostly without integers, strings, fixed attributes or extreme values and counts.",
     [L+"io/BGEO.cpp", L+"io/GEO.cpp", L+"io/PDB.cpp", L+"io/PDA.cpp", L+"io/PTC.cpp", L+"io/PDC.cpp", L+"io/PRT.cpp", L+"io/BIN.cpp", L+"io/RIB.cpp"],
     [("writer and reader of each format", L+"io/*.cpp"), ("byte order conversion", L+"io/PartioEndian.h")],
     ["write", "read"])
prop("C09", "Gzip compression is transparent",
     "For every format that may be compressed, reading a gzip-compressed file gives exactly what reading the uncompressed file gives, whatever legal gzip header fields, compression method or level produced it; a file written compressed (by extension or by request) is a valid gzip stream whose contents are byte for byte the uncompressed file.",
     ["inputs"], "all formats, payload sizes around the buffer sizes, compression levels and combinations of optional gzip header fields",
     "The tests never read a compressed file made by another program and write one only of a single size.",
     [L+"io/ZIP.cpp", L+"io/ZIP.h", L+"io/ParticleIO.cpp"],
     [("inflating and deflating stream buffers with fixed buffers", L+"io/ZIP.cpp ZipStreambufDecompress, ZipStreambufCompress"), ("gzip header parsing", L+"io/ZIP.cpp GZipFileHeader"), ("extension handling", L+"io/ParticleIO.cpp extensionIgnoringGz")],
     ["read", "write", "Gzip_In", "Gzip_Out"])
prop("C10", "Reading only the headers agrees with reading the file",
     "For every readable file, compressed or not, reading only its headers gives the same number of particles and the same attributes (names, types, widths, order) as reading it completely, and fails exactly when the complete read of an intact file would.",
     ["inputs"], "all files of the round-trip and foreign-file spaces",
     "No test reads headers of more than one format, and none compares them with a full read.",
     [L+"io/ParticleIO.cpp", L+"core/ParticleHeaders.cpp", L+"io/*.cpp"],
     [("headersOnly parameter of every reader", L+"io/*.cpp"), ("header-only particle set", L+"core/ParticleHeaders.cpp")],
     ["readHeaders"])
prop("C11", "A damaged file is never more than a failed read",
     "Reading a file (or its headers) that is truncated at any byte, has any byte changed, or is arbitrary bytes under any supported extension, compressed or not, always returns: either no particle set, or one whose counts, attributes and storage are consistent and readable. It never crashes, loops, touches memory outside its buffers, or leaves later reads of intact files affected.",
     ["inputs", "fault_sequences"], "all truncation points and, per byte, a set of replacement values, of seed files of every readable format; all short headers",
     "No test reads a damaged file.",
     [L+"io/*.cpp"],
     [("length, count and type checks in each reader", L+"io/*.cpp"), ("end-of-input handling of the decompressor", L+"io/ZIP.cpp")],
     ["read", "readHeaders"])
prop("C12", "Merging keeps every particle, matched by identifier",
     "Merging a second set into a first gives: particles of the first not matched unchanged, matched ones overwritten in place, unmatched ones appended in order, attributes of both present, attributes that only one of them has present with zeros for the particles that come only from the other, fixed attributes taken from the second where it has them, and every string value decoding to the string it had. The second set is not changed, and attributes that disagree in type or width never corrupt either set.",
     ["inputs"], "all pairs of small particle sets over identifier values, schemas, string tables and widths",
     "The tests merge a few sets with one schema; collisions of identifiers, string tables in different orders and attributes on one side only are barely covered.",
     [L+"core/Particle.cpp"], [("identifier map, attribute pairing and string re-indexing", L+"core/Particle.cpp merge")], ["merge"])
prop("C13", "Cloning copies everything and nothing else",
     "A clone has the same fixed attributes with their values and strings and, when particles are asked for, the same attributes, particles, values and strings, renamed as requested; a schema clone has the attributes without particles or values. The clone and the original are independent: later changes of one never show in the other.",
     ["inputs", "histories"], "all particle sets of a schema grid, rename maps, container kinds, and changes made after cloning",
     "The test clones one set.",
     [L+"core/Particle.cpp"], [("attribute-wise copy", L+"core/Particle.cpp clone, cloneSchema")], ["clone", "cloneSchema"])
prop("C14", "Clustering produces each particle and its in-between particles",
     "Clustering yields, for each particle in order, that particle with cluster number zero followed by particles lying on the segments to its nearest neighbours within the search radius (lowest identifiers first, at most the requested number of connections), numbered consecutively, as many per neighbour as the density formula gives; every float attribute is interpolated at the same fraction and every integer or string attribute is the source particle's. Inputs without a position or identifier give no result; the input's data is not changed and equal inputs give equal outputs.",
     ["inputs"], "all small point sets, identifiers and parameter combinations of a grid",
     "One test writes a clustering to a file and checks nothing about it.",
     [L+"core/Particle.cpp"], [("neighbour search, sorting by identifier, interpolation", L+"core/Particle.cpp computeClustering, addClusterAttribute")], ["computeClustering"])
prop("C15", "A zip archive returns the files that were stored",
     "Every file written into a zip archive by the library is read back byte for byte under its name, for any contents, sizes and number of members, and a standard zip tool accepts the archive; archives made by standard tools (stored or deflated members, comments, extra fields) read the same way.",
     ["inputs"], "all member-size sequences around the buffer sizes, contents classes, and foreign archives",
     "One test stores and reads a few members.",
     [L+"io/ZIP.cpp", L+"io/ZIP.h"], [("central directory writing and parsing", L+"io/ZIP.cpp ZipFileWriter, ZipFileReader"), ("stream buffers", L+"io/ZIP.cpp")], ["ZipFileWriter", "ZipFileReader"])
prop("C16", "Failures are reported on the given stream and leave no object",
     "Reading or probing a missing file, a directory, or a name with an unknown or no extension returns no object, and writing to a place that cannot be opened or to an unknown extension writes nothing; each reports the failure on the error stream that was passed when asked to be verbose, says nothing on that stream otherwise, and leaves the library usable. Format selection depends only on the extension (and a final .gz), not on directories or other dots in the path.",
     ["inputs", "fault_sequences"], "all supported and unsupported extensions, path shapes, open failures and verbosity settings, for read, header read, cached read and write",
     "No test checks a failing call.",
     [L+"io/ParticleIO.cpp", L+"io/*.cpp"], [("extension lookup and error stream parameter", L+"io/ParticleIO.cpp")], ["read", "readHeaders", "readCached", "write"])
prop("C17", "Results do not depend on the process's locale",
     "Files written and values read are the same whatever global C or C++ locale the program has set, including ones with a decimal comma or digit grouping.",
     ["configurations"], "all formats under locales with different decimal points and grouping, set through either the C or the C++ interface, before or after the first use",
     "The tests run in the default locale.",
     [L+"io/*.cpp"], [("streams imbued with the classic locale in text readers and writers", L+"io/GEO.cpp, PDA.cpp, RIB.cpp, PTS.cpp, PTC.cpp")], ["read", "write"])
prop("C18", "PRT channels of every stored type are decoded exactly",
     "A PRT file written by any program is decoded so that every channel of a supported stored type (half, single and double floats, signed and unsigned integers of every width), any arity, order and offset, and any number of particles, yields the value it stores, including every one of the 65536 half-precision values.",
     ["inputs"], "all stored types x arity x channel order, all 65536 half values, particle counts around the buffer size",
     "The test reads one file with single-float channels; the conversion table has 65536 outcomes.",
     [L+"io/PRT.cpp", L+"io/half2float.h"], [("table-driven half conversion and per-type channel reads", L+"io/PRT.cpp readPRT, half2float.h")], ["read"])
prop("C19", "Files made by other programs decode to the values they contain",
     "Files of every readable format laid out in any legal way another program may choose (attribute order, types and widths, extra sections, line endings and spacing of text formats, optional columns, both byte-size variants) decode to exactly the particles, attributes, values and strings they contain.",
     ["inputs"], "all files an independent encoder makes for grids of layout choices, per format",
     "The tests read a few sample files; layout variations the library's own writers never produce are not covered by round trips.",
     [L+"io/BGEO.cpp", L+"io/GEO.cpp", L+"io/PDB.cpp", L+"io/PDA.cpp", L+"io/PTC.cpp", L+"io/PTS.cpp", L+"io/MC.cpp", L+"io/PDC.cpp", L+"io/BIN.cpp"], [("reader of each format", L+"io/*.cpp")], ["read"])
prop("C20", "The Python interface mirrors the library",
     "Every particle set built, read or changed through the Python module has the same counts, attributes, values, strings, iteration and search results as the library itself gives, out-of-range or mistyped arguments raise an exception instead of corrupting memory, and converting a set to JSON and back gives an equal set.",
     ["histories", "inputs"], "all sequences of Python-level operations up to a depth, and all sets of a schema grid through the JSON conversion",
     "The Python tests build one set.",
     ["src/py/partio.i", "src/tools/partjson.py"], [("SWIG typemaps and extensions", "src/py/partio.i"), ("toJson/fromJson", "src/tools/partjson.py")], ["partio module", "partjson.toJson, fromJson"])
prop("C21", "The command line tools say and do what the library holds",
     "Converting a file with partconvert writes the same file as reading it and writing it through the library, and shows the counts, attributes and values of the set; partinfo and partattr print exactly the counts, attributes, values and strings that the file holds, for the particles, flags and attribute asked for; nothing crashes on missing, damaged or unknown files or on tokens outside a string table; a tool exits with success exactly when its input could be read, the arguments name what the file has and the output could be written, says on stderr what is wrong otherwise, and changes no other file.",
     ["inputs", "configurations"], "all argument combinations over a grid of input files and formats",
     "No test runs the tools.",
     ["src/tools/partconvert.cpp", "src/tools/partinfo.cpp", "src/tools/partattr.cpp"], [("main of each tool", "src/tools/*.cpp")], ["partconvert", "partinfo", "partattr"])
prop("C22", "A RIB export draws exactly the particles of the set",
     "Writing a particle set with a position as RIB gives a well formed file whose Points carry every number attribute of every particle in order, with the position as P, the radius as width (or a constant width of one if the set has none), and with a second position two Points in one motion block which differ in P only; attributes never shift or truncate each other; a set without a position gives no Points. A compressed export holds the same text.",
     ["inputs"], "all attribute lists over the names RIB treats specially, at many counts",
     "No test writes RIB.",
     ["src/lib/io/RIB.cpp"], [("writeRIB", "src/lib/io/RIB.cpp")], ["RIB", "write"])
prop("C23", "Written files are well formed for other programs",
     "Every file the library writes is a well formed file of its format for a strict reader that shares no code with it: every count, size, offset, type and bounding box in its headers agrees with its contents, names and strings are delimited as the format says, nothing is missing or left over at the end, and it holds the values of the set for everything the format can express.",
     ["inputs"], "all attribute lists, counts and string tables in every format",
     "The tests read what the library wrote with the library itself.",
     ["src/lib/io/BGEO.cpp", "src/lib/io/PDB.cpp", "src/lib/io/PTC.cpp", "src/lib/io/PRT.cpp", "src/lib/io/PDC.cpp"], [("the write functions", "src/lib/io/*.cpp")], ["write", "formats"])
prop("C24", "Results never depend on leftover memory, addresses or time",
     "What a read returns depends only on the bytes of the file and its extension, what a write produces only on the set being written, and what operations on a set give only on the calls made: never on what memory held before, on addresses, on the clock or on earlier calls. This holds for damaged files and for messages too.",
     ["inputs", "histories"], "all files of a corpus and all damages of C11, all sets of a schema grid in every format, and all operation sequences up to a depth, each under several contents of new, freed and stack memory",
     "A test sees one content of memory, mostly zeros; a value that was never read or never set shows only when memory holds something else.",
     [L+"io/BGEO.cpp", L+"io/GEO.cpp", L+"io/PDB.cpp", L+"io/PTC.cpp", L+"io/PRT.cpp", L+"io/PDC.cpp", L+"io/BIN.cpp", L+"io/ZIP.cpp", L+"core/ParticleSimple.cpp"], [("storage grown without initialising", L+"core/ParticleSimple.cpp addParticle, addParticles"), ("headers read into local structs", L+"io/*.cpp")], ["read", "readHeaders", "write", "merge", "clone"])
prop("C25", "Every call gives back all it took",
     "After a read, a header probe, a cached read, a write, an archive or set operation, successful or failed, and once the objects it returned are released, all memory and open files it took are given back. Reading changes no file and creates none, writing creates only the file asked for, and the locale and the formatting and state of the standard streams and of the caller's error stream are left as they were.",
     ["inputs", "histories", "fault_sequences"], "all files of a corpus and all damages of C11, all sets of a schema grid in every format, places that cannot be opened, all sequences of set operations, cached reads and releases, and archive operations up to a depth",
     "The tests run each operation a few times and end; a leak, above all on one of the many failure paths, is never observed.",
     [L+"io/ParticleIO.cpp", L+"io/ZIP.cpp", L+"io/PRT.cpp", L+"core/ParticleCaching.cpp", L+"core/ParticleSimple.cpp", L+"core/ParticleSimpleInterleave.cpp", L+"core/ParticleHeaders.cpp"], [("release and destructors", L+"core/Particle*.cpp"), ("failure paths of every reader", L+"io/*.cpp"), ("zlib streams", L+"io/ZIP.cpp, PRT.cpp")], ["release", "process memory and descriptors"])
prop("C26", "A system error is never taken for data or for success",
     "If the system reports an error while a file is being read, the read gives no set (or the complete one, if nothing was missing) and says so when asked to be verbose; if it reports one while a file is being written, at whatever byte, that is reported on the given stream when asked to be verbose. Short and interrupted system calls change nothing, and afterwards every call works as before.",
     ["fault_sequences"], "an error, a short answer or an interruption at each single read or write call of each read and write, and a device that is full after each number of bytes",
     "The tests never meet a failing system call.",
     [L+"io/io.h", L+"io/ZIP.cpp", L+"io/PTS.cpp", L+"io/PRT.cpp", L+"io/BGEO.cpp"], [("stream state checked after reading", L+"io/*.cpp"), ("compressed streams pass on errors", L+"io/ZIP.cpp")], ["read", "readHeaders", "readCached", "write"])
prop("C27", "Running out of memory is reported and harms nothing",
     "Whichever request for memory is refused, alone or with all that follow, a read, header read, cached read, write, archive access or operation on a set either tells its caller (an exception, or no set and a message on the given stream) or gives exactly what it gives with enough memory; it never crashes, hangs or passes off partial data. A set whose operation was refused memory (adding attributes or particles, registering or replacing strings, sorting, searching, copying from it) keeps what it held and can be used and released, and sets held from the cache and the cache itself stay right. No file stays open, and the same call with enough memory then gives the usual result.",
     ["fault_sequences", "inputs", "histories"], "every single request for memory refused, alone and with all later ones, in reads, header reads and cached reads of a corpus of files, writes in every format, archive accesses, all sequences of cached reads and releases up to a depth, and all operations after all sequences of set operations up to a depth",
     "The tests never meet a refused allocation.",
     [L+"core/ParticleSimple.cpp", L+"core/ParticleSimpleInterleave.cpp", L+"core/ParticleCaching.cpp", L+"io/ZIP.cpp", L+"io/PTS.cpp", L+"io/BGEO.cpp", L+"io/PRT.cpp"], [("storage grown only when memory was given", L+"core/ParticleSimple.cpp, ParticleSimpleInterleave.cpp"), ("cache entries made whole or not at all", L+"core/ParticleCaching.cpp readCached"), ("streams that could not be set up refuse data", L+"io/ZIP.cpp")], ["read", "readHeaders", "readCached", "write", "addAttribute", "addParticles", "sort"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
