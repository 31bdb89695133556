#!/usr/bin/env python3
# Single source of the property list: writes /verif/properties.jsonl.
import json,os
P=[]
def prop(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
L="src/lib/"
prop("C01","Cached loads share one live copy per file until its last release",
 "At any moment all holders of a cached file hold the same set: a cached load of a file that somebody still holds returns that very set, and two different files never share one. "
 "A held set stays alive and its contents unchanged whatever other threads load or release, including sets that were not loaded through the cache. "
 "After the last holder releases it, it is freed exactly once and the next cached load reads the file's current contents anew.",
 ["schedules","histories"],
 "every interleaving of cached loads, releases, ordinary loads and releases by several threads on several files, with the files being rewritten between generations",
 "testcache runs one thread through one fixed order of loads and releases; nothing interleaves, nothing checks lifetime, identity across threads or reload.",
 [L+"core/ParticleCaching.cpp",L+"core/ParticleCaching.h",L+"core/Mutex.h",L+"core/ParticleSimple.cpp",L+"core/ParticleSimpleInterleave.cpp"],
 [("reference count per cached set, under one mutex","core/ParticleCaching.cpp readCached/freeCached"),("release() of any set goes through freeCached","core/ParticleSimple.cpp release")],
 state=[{"name":"cachedParticles / cachedParticlesCount","meaning":"name to set, set to number of holders","where":"core/ParticleCaching.cpp"}],
 observe_at=["readCached()","release()","data()"],hook_needed=None)
prop("C02","A failed cached load leaves the cache usable",
 "A cached load that fails, whether the file is missing, unreadable or truncated, the device errors, or memory runs out while loading, reports failure to its caller only: nothing is cached for that name, sets other holders have are untouched, and no lock stays held. "
 "Once the fault is gone every thread's next cached load and release completes within a bounded number of steps and a good file loads with its full contents.",
 ["fault_sequences","schedules","histories"],
 "every placement of I/O errors, missing and truncated files and allocation failures inside cached loads and releases, interleaved with other threads' cached loads and releases",
 "No test makes a cached load fail, and none injects an I/O error or an allocation failure.",
 [L+"core/ParticleCaching.cpp",L+"core/Mutex.h",L+"io/ParticleIO.cpp"],
 [("cache entry made only after a successful load; the mutex is released on every path","core/ParticleCaching.cpp readCached")],
 observe_at=["readCached()","release()"],hook_needed=None)
prop("C03","Threads may read and write different files at the same time",
 "Threads that concurrently read, read headers of, or write different files and different particle sets get exactly the results, files and messages each would get alone, in every supported format and compressed or not, also while several read one file and while the device fails for one of the files. "
 "There is no data race on any state the library shares between such calls, including during the very first call in the process.",
 ["schedules"],
 "every interleaving, at the granularity of single memory accesses, of up to four threads doing I/O on disjoint files and sets, from a process in which the library has not been used yet",
 "All tests are single threaded.",
 [L+"io/ParticleIO.cpp",L+"io/BGEO.cpp",L+"io/ZIP.cpp",L+"io/PRT.cpp",L+"io/io.h",L+"core/Mutex.h"],
 [("reader and writer tables built once under a mutex","io/ParticleIO.cpp readers()/writers()"),("readers keep their buffers local","io/*.cpp")],
 observe_at=["read()","readHeaders()","write()"],hook_needed=None)
prop("C04","Concurrent queries on one shared set are exact and race-free",
 "While nobody modifies a set, any number of threads may at the same time look up attributes, read values singly, in batches, as floats and through iterators, look up strings, search a sorted set and clone it; every answer equals the answer given alone and no call races with another. "
 "A box search returns exactly the particles inside the box, appended to the caller's list, and a nearest-neighbour search returns exactly the closest particles strictly within the radius, at most as many as asked for, with their true squared distances.",
 ["schedules","inputs"],
 "every interleaving of queries from several threads on sets of every size and layout, positions with ties and duplicates",
 "testkdtree checks one set from one thread.",
 [L+"core/KdTree.h",L+"core/ParticleSimple.cpp",L+"core/ParticleSimpleInterleave.cpp",L+"PartioIterator.h",L+"core/Particle.cpp"],
 [("queries are const and keep their state on the caller's stack","core/KdTree.h findPoints/findNPoints"),("indices mapped back to the caller's numbering","core/ParticleSimple.cpp findPoints/findNPoints")],
 observe_at=["findPoints()","findNPoints()","data()","dataAsFloat()","clone()"],hook_needed=None)
prop("C05","Binary formats give back what was written",
 "Writing a set whose attributes a binary format can hold (bgeo, bhclassic, itbl, atbl, pdb, pdb32, pdb64, bin, prt, ptc, ptf, pdc) and reading the file back gives the same number of particles in the same order, the same attribute names, types and counts, bit-identical values, the same string tables, and the same fixed attributes where the format has them. "
 "A format that always carries certain attributes adds the missing ones with its documented defaults (bin; normal and radius in ptc, whose normals keep two decimal digits); prt writes no file for an empty set; a table holding a string twice may come back holding it once. "
 "This holds however the operating system splits, interrupts or delays the reads and writes, and writing leaves the set itself unchanged.",
 ["inputs","fault_sequences"],
 "all sets within a format's documented repertoire and all sequences of short, interrupted and slow reads and writes",
 "testio reads back a few hand-made sets from a healthy disk and compares a handful of values.",
 [L+"io/BGEO.cpp",L+"io/PDB.cpp",L+"io/BIN.cpp",L+"io/PRT.cpp",L+"io/PTC.cpp",L+"io/PDC.cpp",L+"io/PartioEndian.h",L+"io/io.h",L+"io/ParticleIO.cpp"],
 [("per-format encoder and decoder over buffered streams","io/*.cpp read*/write*")],
 observe_at=["write()","read()"],hook_needed=None)
prop("C06","Text formats give back what was written",
 "Writing a set whose attributes a text format can hold (geo, hclassic, pda) and reading it back gives the same particle count and order, attribute names, types and counts, exactly the same integers and strings, and every finite number equal to six significant digits; a rib file states every particle's values of the attributes it carries, in order. "
 "This holds however the operating system splits, interrupts or delays the reads and writes.",
 ["inputs","fault_sequences"],
 "all sets of finite numbers within a format's documented repertoire, strings with blanks, quotes and backslashes included, and all sequences of short and interrupted reads and writes",
 "testio round-trips a few hand-made sets; strings, empty attribute lists, several counts per attribute and RIB are not covered.",
 [L+"io/GEO.cpp",L+"io/PDA.cpp",L+"io/RIB.cpp",L+"io/io.h"],
 [("quoted strings with escapes","io/GEO.cpp writeString/scanString"),("per-type value lists","io/GEO.cpp, io/PDA.cpp, io/RIB.cpp")],
 observe_at=["write()","read()"],hook_needed=None)
prop("C07","Conformant files made by other programs are read as they are",
 "A well-formed file in any readable format (bgeo with primitives, pdb of either word size, bin of any supported version, prt with any channel type and layout, ptc of version 0 to 2, pdc, mc, pts, geo, pda), produced by an independent writer, is read to exactly the particles, attributes and values it states, plain or framed as one gzip member in any way zlib allows where the format may be compressed (mc files with at least two particles). "
 "The result does not depend on how the reads are split, interrupted or delayed.",
 ["inputs","fault_sequences","configurations"],
 "all well-formed files of all format variants and all sequences of short and interrupted reads",
 "The tests read four sample files from a healthy disk.",
 [L+"io/BGEO.cpp",L+"io/PDB.cpp",L+"io/BIN.cpp",L+"io/PRT.cpp",L+"io/PTC.cpp",L+"io/PDC.cpp",L+"io/MC.cpp",L+"io/PTS.cpp",L+"io/GEO.cpp",L+"io/PDA.cpp",L+"io/ZIP.cpp"],
 [("version- and type-dependent decoding","io/BIN.cpp readBIN, io/PRT.cpp readPRT, io/PTC.cpp readPTC, io/PDB.cpp readPDB")],
 observe_at=["read()"],hook_needed=None)
prop("C08","Compressed files are valid gzip and carry the same content",
 "For every format that can be compressed, asking for compression, by name or by flag, yields a one-member file that a standard gzip reader accepts in full (header, data, checksum and length) and whose expansion is byte for byte the file written without compression. "
 "Reading a compressed file gives exactly what reading its expansion gives, whatever the name, the gzip header fields, the block structure, and the split or interruption of reads.",
 ["inputs","fault_sequences","configurations"],
 "all sets and files, all gzip framings and compression levels, sizes around the buffer boundaries, all sequences of short and interrupted reads and writes",
 "testio writes one .gz file per format and reads it back through the same code.",
 [L+"io/ZIP.cpp",L+"io/ZIP.h",L+"io/io.h",L+"io/ParticleIO.cpp"],
 [("deflate/inflate stream buffers and gzip header","io/ZIP.cpp ZipStreambufCompress/ZipStreambufDecompress/GZipFileHeader"),("compression chosen by suffix or flag","io/ParticleIO.cpp write")],
 observe_at=["write()","read()"],hook_needed=None)
prop("C09","Reading only the headers agrees with reading the file",
 "For every readable file, reading just its headers reports the same number of particles and the same particle attributes, in the same order with the same names, types and counts, and the same fixed attributes, as reading it completely; for a file that does not state its particle count (pts) the count is zero. "
 "This holds plain or compressed and however the reads are split or interrupted, and reading headers never changes the file.",
 ["inputs","fault_sequences","configurations"],
 "all well-formed files in all formats and variants, and all sequences of short and interrupted reads",
 "No test calls it except on one file.",
 [L+"core/ParticleHeaders.cpp",L+"io/ParticleIO.cpp",L+"io/BGEO.cpp",L+"io/PDB.cpp",L+"io/PDC.cpp",L+"io/PRT.cpp",L+"io/MC.cpp",L+"io/PTC.cpp"],
 [("same reader with a headers-only sink","io/*.cpp headersOnly"),("skipping data blocks","io/BGEO.cpp skip, io/PDB.cpp, io/PDC.cpp")],
 observe_at=["readHeaders()","read()"],hook_needed=None)
prop("C10","A truncated or failing file never yields invented data",
 "If a file ends early at any byte, or the device returns an error or premature end at any read, reading it either returns nothing and, when asked to be verbose, says so on the caller's error stream, or returns exactly the particles, attributes and values the complete file holds; it never returns values the file does not contain. "
 "In uncompressed text whose end is all that marks its completeness, the lines that are left (pts) or a shortened last number (pda, pts) are what the file contains. "
 "Reading headers likewise returns nothing or the true headers. The call always returns, promptly and without crashing, and later reads of good files are unaffected.",
 ["crash_points","fault_sequences","inputs"],
 "every truncation point and every placement of a read error, premature end of file or failed open, in files of every format, plain and compressed",
 "No test reads a damaged file or sees an I/O error.",
 [L+"io/ZIP.cpp",L+"io/BGEO.cpp",L+"io/GEO.cpp",L+"io/PDB.cpp",L+"io/PDA.cpp",L+"io/PDC.cpp",L+"io/PTC.cpp",L+"io/PRT.cpp",L+"io/BIN.cpp",L+"io/MC.cpp",L+"io/PTS.cpp",L+"io/ParticleIO.cpp"],
 [("stream state checked before the set is returned","io/*.cpp read*"),("decompressor stops at the end of its input","io/ZIP.cpp ZipStreambufDecompress::process")],
 observe_at=["read()","readHeaders()"],hook_needed=None)
prop("C11","Damaged bytes never make a read crash, hang or corrupt memory",
 "Reading, or reading the headers of, a file some of whose bytes were altered, zeroed, duplicated or lost returns a set, returns nothing, or fails with an out-of-memory exception, within work bounded by the file's size and the counts it states. "
 "It touches no memory outside its own, leaks no file handle, and any set it returns can be queried, copied and released safely.",
 ["fault_sequences","inputs"],
 "every combination of a few bit flips, overwritten, zeroed, swapped and lost blocks in files of every format, plain and compressed, with memory limited",
 "No test reads a damaged file.",
 [L+"io/ZIP.cpp",L+"io/BGEO.cpp",L+"io/GEO.cpp",L+"io/PDB.cpp",L+"io/PDA.cpp",L+"io/PDC.cpp",L+"io/PTC.cpp",L+"io/PRT.cpp",L+"io/BIN.cpp",L+"io/MC.cpp",L+"io/PTS.cpp",L+"core/ParticleSimple.cpp"],
 [("counts and sizes from the file checked before use","io/*.cpp read*")],
 observe_at=["read()","readHeaders()"],hook_needed=None)
prop("C12","A failing write is reported and harms nothing else",
 "When a file cannot be created, the device fills up or errors while it is written, or the process dies part-way, the writing call returns without crashing or hanging (where it returns at all), says on the caller's error stream that the file could not be written when asked to be verbose, and leaves the particle set and every other file unchanged. "
 "What is left on disk reads back as nothing or as the complete original, and a later write of the same set to a healthy device succeeds in full.",
 ["fault_sequences","crash_points"],
 "every placement of open failure, disk full, write error, torn and lost write and process death in writes of every format, plain and compressed",
 "Tests only write to a healthy disk.",
 [L+"io/ParticleIO.cpp",L+"io/ZIP.cpp",L+"io/io.h",L+"io/BGEO.cpp",L+"io/GEO.cpp",L+"io/PDA.cpp",L+"io/RIB.cpp",L+"io/PDB.cpp",L+"io/PRT.cpp",L+"io/PTC.cpp",L+"io/PDC.cpp",L+"io/BIN.cpp"],
 [("stream state checked after opening and after the last byte","io/*.cpp write*")],
 observe_at=["write()"],hook_needed=None)
prop("C13","The locale in force never changes files or results",
 "Whatever global locale is in force, including ones with other decimal points or digit grouping, and even if it changes between calls, writing a set produces the same bytes, reading a file produces the same set, and headers are the same as in the classic locale, in every format.",
 ["configurations","histories"],
 "all decimal-point and grouping conventions and all histories of locale changes between the calls, in every format",
 "The test suite runs in the C locale only.",
 [L+"io/io.h",L+"io/GEO.cpp",L+"io/PDA.cpp",L+"io/RIB.cpp",L+"io/PTS.cpp",L+"io/PTC.cpp"],
 [("classic locale imbued on every stream","io/io.h make_stream_locale_independent")],
 observe_at=["write()","read()"],hook_needed=None)
prop("C14","The same inputs give the same bytes and results every time",
 "The bytes a write produces and the set or headers a read returns depend only on the particle set or file given: not on leftover memory contents, on what the process read or wrote before, on failures of earlier calls, or on which in-memory representation holds the set.",
 ["histories","configurations","fault_sequences"],
 "all histories of earlier successful and failed calls, all leftover contents of heap and stack memory, both in-memory representations",
 "A test sees one history and one memory layout.",
 [L+"io/BGEO.cpp",L+"io/PRT.cpp",L+"io/BIN.cpp",L+"io/PDB.cpp",L+"io/PDC.cpp",L+"core/ParticleSimple.cpp",L+"core/ParticleSimpleInterleave.cpp",L+"core/Particle.cpp"],
 [("every header field and value initialised before it is written or returned","io/*.cpp")],
 observe_at=["write()","read()","readHeaders()"],hook_needed=None)
prop("C15","Particle sets keep every value through any editing history",
 "Through any sequence of adding particles one at a time or in blocks, adding attributes and fixed attributes, setting values, registering, looking up and renaming strings, in either in-memory representation, every value and string set so far reads back unchanged through every access path (single, batch, as float, iterators, strings). "
 "If memory runs out during an operation, that operation fails with an out-of-memory exception, nothing set earlier is lost or changed, and the set remains usable and can be released.",
 ["histories","fault_sequences"],
 "all operation histories, all placements of allocation failure, all relocations of the underlying storage",
 "testio, testiterator and teststr use short fixed histories, one representation for most, and allocation never fails.",
 [L+"core/ParticleSimple.cpp",L+"core/ParticleSimpleInterleave.cpp",L+"Partio.h",L+"PartioIterator.h"],
 [("storage grown by realloc and attributes appended","core/ParticleSimple.cpp addParticle/addParticles/addAttribute"),("string tables","core/ParticleSimple.cpp registerIndexedStr/setIndexedStr")],
 observe_at=["data()","dataMultiple()","dataAsFloat()","iterators","indexedStrs()","lookupIndexedStr()"],hook_needed=None)
prop("C16","Cloning and merging follow their contract and touch only their target",
 "A clone has exactly the source's fixed attributes, and unless asked otherwise its particles, attributes, values and strings, under mapped names where given; a schema clone has the attributes only. "
 "A merge replaces base particles whose identifiers match and appends the others in order, copies each delta value into the attribute of the same name (strings by their text), fills what one side lacks with zero, and takes over fixed attributes from the delta; the source of a clone or merge is never changed, even when other threads clone or merge from it at the same time or memory runs out.",
 ["histories","schedules","fault_sequences"],
 "all pairs of sets with overlapping schemas, string tables and identifiers, all interleavings of several threads using one source, all leftover memory contents, all placements of allocation failure",
 "testmerge and testclonecopy use a few fixed sets, one thread and fresh memory.",
 [L+"core/Particle.cpp"],
 [("attribute pairing by name, string re-indexing, identifier map","core/Particle.cpp merge"),("schema and data copied particle by particle","core/Particle.cpp clone/cloneSchema")],
 observe_at=["clone()","cloneSchema()","merge()"],hook_needed=None)
prop("C17","Every call gives back all memory and file handles it took",
 "Once a call has returned, successfully or not, and the sets it returned have been released, every file handle it opened is closed and all memory it took is freed, in every format and for every outcome: success, missing, truncated, damaged or foreign file, read or write error, full disk.",
 ["fault_sequences","inputs"],
 "all outcomes of read, read headers, cached read and write in all formats under all sequences of I/O faults and file damage",
 "No test checks for leaks and none takes an error path.",
 [L+"io/BGEO.cpp",L+"io/GEO.cpp",L+"io/PDB.cpp",L+"io/PDA.cpp",L+"io/PDC.cpp",L+"io/PTC.cpp",L+"io/PRT.cpp",L+"io/BIN.cpp",L+"io/MC.cpp",L+"io/PTS.cpp",L+"io/ZIP.cpp",L+"core/ParticleCaching.cpp"],
 [("streams owned by smart pointers; partial sets released on error paths","io/*.cpp"),("compressing streams own the file stream","io/ZIP.cpp")],
 observe_at=["read()","readHeaders()","readCached()","write()","release()"],hook_needed=None)
prop("C18","Command-line tools tell success from failure",
 "The converter exits with zero only if it read its input and wrote an output file that holds the same particles, and otherwise exits nonzero without crashing; the attribute and info printers print the true values of the particles asked for, the info printer also every attribute's type and size and, when no particle is asked for, the fixed attributes and the string tables; both exit nonzero without crashing when the file cannot be read or the attribute does not exist. "
 "This holds for missing, truncated and damaged inputs, and unwritable or full outputs.",
 ["fault_sequences","inputs"],
 "all inputs, arguments and placements of I/O faults",
 "No test runs the tools.",
 ["src/tools/partconvert.cpp","src/tools/partattr.cpp","src/tools/partinfo.cpp"],
 [("exit status","src/tools/*.cpp main")],
 observe_at=["exit status","standard output","output file"],hook_needed=None)
prop("C19","Clustering is a deterministic function of the set",
 "Clustering a set keeps every original particle with its values in order and adds, for each pair of connected neighbours, the number of particles its density formula states, with interpolated values; equal input gives equal output whatever memory held before. The set itself is not changed, and if memory runs out the call fails without leaking.",
 ["inputs"],"all particle sets and parameters",
 "testcluster runs it once and checks nothing.",
 [L+"core/Particle.cpp"],[("neighbour search and hashed interpolation","core/Particle.cpp computeClustering")],
 observe_at=["computeClustering()"],hook_needed=None)
prop("C20","JSON conversion and the Python binding preserve the data",
 "Reading, building, editing, querying, cloning, merging, clustering, sorting, searching and writing particle sets through the Python module gives the same values, names, types, string tables, numbers and file bytes as the C++ interface, for every set and however the file is served. "
 "Converting a set to JSON and back, in memory, through text or with the partjson tool, gives the same set (names and values; text has to be UTF-8, every string once in its table, and the attribute order may change where keys are sorted), "
 "and the partjson tool exits nonzero, leaving its input alone, when the input is missing, damaged or cut short or the JSON output cannot be created or written in full.",
 ["inputs","fault_sequences"],"all particle sets, call sequences, I/O splittings and failing devices",
 "testpartjson converts one small set; testpartio uses one.",
 ["src/tools/partjson.py","src/py/partio.i"],[("attribute-by-attribute conversion","src/tools/partjson.py toJson/fromJson"),("typemaps and extensions","src/py/partio.i")],
 observe_at=["partjson","partio module"],hook_needed=None)
prop("C21","Running out of memory is a clean failure",
 "When an allocation fails inside reading a file, reading its headers or writing one (once, or from then on), the call either fails by returning nothing or by std::bad_alloc, or returns a set that matches the file; "
 "it does not crash, hang or corrupt memory, leaves no memory or file handle behind, changes neither the set being written nor the file being read, and the same call works again once there is memory.",
 ["fault_sequences","inputs"],"all files, sets and failing allocations",
 "No test fails an allocation.",
 [L+"io/ZIP.cpp",L+"core/ParticleSimple.cpp",L+"core/ParticleSimpleInterleave.cpp",L+"core/ParticleHeaders.cpp",L+"io/BGEO.cpp",L+"io/GEO.cpp",L+"io/PDB.cpp",L+"io/PDA.cpp",L+"io/PDC.cpp",L+"io/PTC.cpp",L+"io/PRT.cpp",L+"io/BIN.cpp",L+"io/MC.cpp",L+"io/PTS.cpp",L+"io/RIB.cpp"],
 [("streams owned by smart pointers; partial sets released when an exception passes","io/*.cpp")],
 observe_at=["read()","readHeaders()","write()"],hook_needed=None)
prop("C22","Misuse and failures in Python are ordinary exceptions and leak nothing",
 "A wrong argument given to the Python module (wrong length, type, range or index, a sequence whose items cannot be had) raises an ordinary Python exception and changes nothing; a file that is missing, damaged or on a failing device gives None and a message, and what a damaged file yields can be looked at; "
 "running out of memory inside the library raises MemoryError or is reported, and changes no set; the process never crashes and the interpreter's error state stays consistent; repeating any call takes no more memory, and no file stays open.",
 ["inputs","fault_sequences","histories"],"all call sequences, arguments, files, I/O faults and failing allocations",
 "The Python tests misuse nothing and repeat nothing.",
 ["src/py/partio.i"],[("typemaps and extensions convert everything before changing anything","src/py/partio.i"),("ownership of returned sets","src/py/partio.i %newobject"),("exceptions translated","src/py/partio.i %exception")],
 observe_at=["partio module"],hook_needed=None)
prop("C23","The editor and the spreadsheet show the set, and an edit changes only itself",
 "partedit and partinspect show exactly the particles, attributes, values and strings the set holds, after opening a file or being given a set and after every edit. Typing into a cell, adding a particle (a copy of the last with the next id), adding an attribute, removing particles, attributes or fixed attributes changes what was asked and nothing else: the other values, their order, names, types and string tables stay. "
 "Saving writes the file the C++ library writes for the set shown; a delta holds exactly the particle values that differ from what was last opened or saved in full, with their strings; the edited mark is set by an edit and cleared by opening and by saving in full. "
 "A missing file or a cancelled dialog changes nothing, an unreadable file shows an empty set. (Attribute names are distinct and strings are once in their table.)",
 ["histories","inputs","fault_sequences"],"all sets, sequences of user actions and failing files",
 "No test runs the editor or the spreadsheet.",
 ["src/tools/partedit.py","src/tools/partinspect.py"],[("data model and edits","src/tools/partedit.py ParticleData"),("tables follow the data's signals","src/tools/partedit.py ParticleTableWidget, FixedAttributesWidget, IndexedStringsWidget"),("read-only model","src/tools/partinspect.py PartioTreeModel")],
 observe_at=["ParticleData","table cells","saved files"],hook_needed=None)
prop("C24","The viewer shows the frame it names, and nothing a user or a file does ends it",
 "Every picture partview draws holds exactly the particles of one frame, the one whose number it shows: a point at each position (position, three floats), in its colour (the first of pointColor, color, rgb, rgbPP, Cd with three floats; else grey with the chosen brightness), with its opacity (the first of pointOpacity, alphaPP, alpha, opacityPP, opacity with one float, blended), a line for each pair p1 p2 of the connectivity file that is in range, the number of points and the field of view. "
 "Right and left load the next and previous file of the numbered sequence (padded or not, pdc numbers in steps of 250, Maya's nameFrameN.mc), with its connectivity; a missing or unreadable frame shows an error over the frame that was shown, and stepping goes on from that frame. "
 "c and a toggle colour and opacity once per press; =, -, z, Z, up and down change point size, field of view (10 to 175 degrees) and brightness one step per press and repeat after 200 ms while held; mouse buttons turn, pan and zoom the camera, which first shows all particles and moves for nothing else. Timers end when no key is down; redrawing and stepping take no more memory. Wrong arguments or an unreadable file give a message and a non-zero status; no file contents, fault or key sequence crashes it.",
 ["histories","inputs","fault_sequences","schedules"],"all frame sequences, files, key, mouse, timer and redisplay histories and failing reads",
 "No test runs the viewer; what it shows depends on the history of keys, timers and files.",
 ["src/tools/partview.cpp","src/tools/partview.h","src/tools/Camera.h"],[("pictures","src/tools/partview.cpp drawParticles"),("stepping","src/tools/partview.cpp reloadParticleFile"),("keys and timers","src/tools/partview.cpp processNormalKeys, processSpecialKeys, timer"),("camera","src/tools/Camera.h")],
 observe_at=["OpenGL calls","GLUT callbacks","exit status"],hook_needed=None)
prop("C25","What is written is a file of its format, for any reader of that format",
 "Every file a successful write leaves is a well-formed file of its format by itself, not only one partio reads back: the magic, version and markers the format prescribes; every count, length and offset true, those partio itself ignores included (pdb block and active range, prt channel offsets and capitalised names, ptc bounding box and data size, geo particle primitive, bgeo and bin trailers, ends of compressed streams); nothing missing and nothing after the end. "
 "A reader that knows only the format finds exactly the particles and attributes of the set, in order, bit for bit (text to six digits), whatever the path held before, however the device took the bytes, and whatever earlier writes failed.",
 ["inputs","fault_sequences"],"all sets within a format's repertoire, earlier contents of the path, earlier failing writes and ways a device takes the bytes",
 "Tests judge files by reading them with partio, which ignores much of what other programs rely on.",
 [L+"io/BGEO.cpp",L+"io/GEO.cpp",L+"io/PDA.cpp",L+"io/PDB.cpp",L+"io/PRT.cpp",L+"io/PTC.cpp",L+"io/PDC.cpp",L+"io/BIN.cpp",L+"io/RIB.cpp",L+"io/ZIP.cpp"],[("writers","src/lib/io/*.cpp write*")],
 observe_at=["bytes of the file on the simulated disk"],hook_needed=None)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,p["title"]
        f.write(json.dumps(p)+"\n")
print(len(P))
