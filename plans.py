# Which simulator decides which property, how many runs each tier makes, and what the evidence and the manifest say about it.
PLANS = {}
for p, q in dict(C05=24000, C06=16000, C07=24000, C08=16000, C09=20000, C10=20000, C11=24000, C12=16000, C13=16000, C14=14000, C15=24000, C16=20000, C17=16000, C18=16000, C19=16000, C04=20000).items():
    PLANS[p] = [("iosim", q, q * 25)]
BASE = ("A run is one simulated process: the real library on an in-memory disk, with chosen leftover memory contents. "
        "One seed fixes workload, faults and I/O splitting. Exploration by seeded search: no violation in the runs made, not a proof. Trusts the reference model, the independent encoders, clang's AddressSanitizer and zlib. ")
for p, q in dict(C01=40000, C02=40000, C03=20000).items():
    PLANS[p] = [("thrsim", q, q * 25)]
PLANS["C04"] = [("iosim", 12000, 300000), ("thrsim", 40000, 1000000)]
PLANS["C16"] = [("iosim", 16000, 400000), ("thrsim", 16000, 400000)]
PLANS["C21"] = [("iosim", 20000, 500000)]
PLANS["C20"] = [("pysim", 20000, 600000)]
PLANS["C22"] = [("pysim", 12000, 300000)]
PLANS["C23"] = [("pysim", 7000, 250000)]
PYS = ("A run is one simulated process: the Python interpreter with the module swig makes of the working tree's partio.i, partjson.py and the library on the in-memory disk; Python scenarios draw every decision from the seed. "
       "Exploration by seeded search, not a proof. Trusts the reference model, swig, the interpreter and clang's AddressSanitizer. ")
THR = ("A run is one simulated process with two to four real threads, of which exactly one runs at a time; a seeded scheduler decides at every memory access, atomic, lock, one-time initialisation and file call of the library which goes on. "
       "Races are judged by happens-before over all accesses of the library and of harness code compiled like it; accesses inside the C++ runtime's own compiled code are not seen. Exploration by seeded search, not a proof. ")
NOTES = {
 "C01": ("thread schedules and load, release and rewrite histories", THR),
 "C02": ("thread schedules with device errors, missing and truncated files and failing allocations inside cached loads", THR),
 "C03": ("thread schedules of reads, header reads, writes and set operations on different files or one file read by several, with a device failing for one of them, half of them from a cold process", THR),
 "C05": ("sets, formats and short, interrupted and slow reads and writes", BASE),
 "C06": ("sets, formats and short, interrupted and slow reads and writes", BASE),
 "C07": ("foreign files from independent encoders, gzip framings and short and interrupted reads", BASE),
 "C08": ("sets, gzip framings and short and interrupted I/O", BASE + "Validity is judged by an independent strict gzip reader. "),
 "C09": ("files, variants and short and interrupted reads", BASE),
 "C10": ("truncation points, read errors, premature ends and failed opens", BASE),
 "C11": ("damage to file bytes, with memory limits", BASE + "Hanging is a bound on library control-flow edges. "),
 "C12": ("open failures, full disks, write errors, torn writes and process deaths", BASE),
 "C13": ("locales and histories of locale changes", BASE),
 "C14": ("histories of earlier calls, leftover memory contents and representations", BASE),
 "C04": ("sets, sorted states and queries, by one thread and in schedules of several", BASE + THR),
 "C15": ("editing histories with failing allocations, in both representations", BASE),
 "C16": ("sets, name maps and failing allocations, by one thread and in schedules of several", BASE + THR),
 "C18": ("tool invocations on good, damaged and failing inputs and full or failing output devices", BASE + "The tools' own main functions run inside the simulated process. "),
 "C19": ("sets, parameters, leftover memory contents and failing allocations", BASE + "Judged against the stated formula; where two neighbours tie, or rounding decides a count, the companions of that pair are only checked for being between the two. "),
 "C17": ("outcomes of reads and writes under I/O faults and file damage, with allocation and handle accounting", BASE),
}
NOTES["C21"] = ("failing allocations inside reads, header reads and writes", BASE)
NOTES["C20"] = ("sets, files, Python call sequences, I/O splittings and failing devices", PYS + "partjson's own main runs in the simulated process; Python's file access is redirected to the simulated disk. The C++ interface, judged by the other properties, is the reference. ")
NOTES["C22"] = ("Python misuse, damaged and failing files, failing allocations and repeated calls", PYS + "Failing allocations are those of the library and of swig's wrappers in calls that reach %exception; conversions of arguments and results outside it are not failed. ")
NOTES["C23"] = ("histories of user actions, files and failing devices", PYS + "partedit.py and partinspect.py run unchanged on a stand-in for Qt whose widgets keep what is put into them; the simulated user types, presses and answers dialogs. What real Qt widgets draw is not covered. ")
PLANS["C24"] = [("viewsim", 14000, 400000)]
NOTES["C24"] = ("histories of keys, mouse, timers, redisplays, files and failing reads", BASE + "partview's own main runs in the simulated process with OpenGL and GLUT served by the simulator, which records what is drawn; the clock is simulated. Rasterisation is not covered. ")
PLANS["C25"] = [("iosim", 20000, 500000)]
NOTES["C25"] = ("sets, formats, earlier failed writes and short, interrupted and slow writes", BASE + "What a format is, is stated by independent strict decoders. ")
NOT_APPLICABLE = {}
RULES = {
 "C25": "A run draws a format, a set, what the path held before and up to two earlier writes that may fail, writes with short and interrupted calls, and has an independent strict decoder of the format read every byte of the file and compare with the set.",
 "C24": "A run draws a frame sequence (naming, missing and damaged frames, odd attributes, connectivity) and up to ten user actions (taps, holds, chords, drags, uncovering, resizing) with drawn times, orders of timers and redisplays and failing reads; every picture presented is compared with the frames it may show, and settings, camera, timers, memory and status with a model.",
 "C23": "A run draws a set or file and up to eight actions of a user of partedit (opening good and failing files, typing into cells, adding and removing particles and attributes, saving in full or as a delta, cancelling), and after each compares data, tables, edited mark and files with an executable model; or shows sets in partinspect and compares every cell and filter; or runs the programs' main.",
 "C20": "A run draws a file or a set and a path through the binding (read variants, building and editing, writing, JSON in memory or text, the partjson tool with failing devices, sorts, searches, clones, merges, clusterings) and compares with the C++ interface.",
 "C21": "A run draws a file or set and up to three failing allocations inside read, header read or write, and inspects the outcome, live memory, handles, inputs and the same call afterwards.",
 "C22": "A run draws misuse, damaged files and failing devices, failing allocations, or one call repeated, through the binding, and inspects exceptions, sets, files, live memory and handles.",
 "C01": "A run draws files with several versions, two to four thread programs of cached loads, releases, looks, ordinary loads and rewrites, and a scheduling strategy; the history of holdings is judged afterwards.",
 "C02": "As C01, with missing and truncated versions, one failing device and allocations that fail inside loads; afterwards every file must load and release again, and failing loads must leave nothing behind.",
 "C03": "A run draws jobs (reads, header reads, writes, cached reads, sorts, merges, clusterings) for two to four threads and a scheduling strategy; sometimes several read one file, or the device fails for one; each job's result, messages and files are compared with the same job alone.",
 "C04": "A run draws a set (lattice positions with many ties, or general ones), sorts it and compares box and nearest-neighbour searches with brute force over all particles; with several threads also lookups, batches, iterators, strings, clones and writes of one shared set.",
 "C15": "A run draws a history of editing operations on one or two sets, fails allocations within some of them, and compares every access path with an executable model after each operation.",
 "C16": "A run draws sets, name maps and options, clones and merges them, fails allocations within some calls, and compares target and source with an executable model.",
 "C18": "A run calls one tool's own main on a drawn input (good, failing device, damaged, unknown kind) and output device, and compares status, output file and printed text with what the library reads undisturbed.",
 "C19": "A run draws a set, parameters, leftover memory and possibly a failing allocation, clusters it and compares with the stated formula.",
 "C05": "A run draws a format, a set within its repertoire, a representation, and how every read and write is split and interrupted; it writes, checks the set is unchanged, reads back and compares with the model.",
 "C06": "As C05 for the text formats; rib files are tokenised by an independent reader.",
 "C07": "A run draws a format variant and a file from an independent encoder, optionally gzip-framed, and how reads are split; the set read is compared with what the encoder stated.",
 "C08": "A run either writes a set plain and compressed and checks the compressed file with a strict gzip reader, or reads a file plain and gzip-framed and compares.",
 "C09": "A run draws a readable file, reads it in full and its headers, and compares.",
 "C10": "A run draws a file and up to four faults (truncation point, read error, premature end, failed open, missing) and compares whatever is returned with the undamaged file.",
 "C11": "A run draws a file, damages it, reads it or its headers and uses whatever is returned.",
 "C12": "A run draws a set and up to three failing writes, and inspects the error text, the other files, the leftover file and a later healthy write.",
 "C13": "A run performs writes and reads under a sequence of drawn locales and compares with the classic locale.",
 "C14": "A run repeats a call after different histories and leftover memory contents and compares bytes and results.",
 "C17": "A run executes one scenario twice and compares live allocations and handles before and after the second time.",
}
STUBS = {
    "real": ["all of /repo/src/lib/core and /repo/src/lib/io, compiled from the working tree", "the command-line tools, partview, partjson.py, partedit.py, partinspect.py and the swig module of partio.i where they are exercised", "the Python interpreter (python simulator)", "zlib (static)", "libstdc++ iostreams (static)"],
    "stubbed": ["kernel file calls: in-memory disk behind link-time wrappers", "malloc/new: a wrapper that fills, fails, caps and accounts; the thread simulator serves the library from an arena", "OpenGL and GLUT, as far as partview uses them: calls are recorded, the event loop, clock and timers are the simulator's", "Qt, as far as partedit and partinspect use it: widgets that keep what is put into them", "thread simulator: pthread locks, one-time initialisation, sleeps and thread creation are scheduled by the simulator; the thread-sanitizer runtime is replaced by the simulator's own"],
}
ASSUME = ["One seed fixes the workload, the fault placement and (for threads) the schedule; address-space randomisation is off.",
          "The simulated disk has no directories: a path is a name."]
