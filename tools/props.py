# The property list. PROPS are decided by a check; NA are listed as not applicable.
FH='core/lib/FileHandling/'
GE='core/lib/GNSSEph/'
def P(id,title,statement,over,qtext,why,files,mech,note,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["public API"]; a["hook_needed"]=None
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a,"note":note}
STREAMS=[FH+'FFStream.cpp',FH+'FFTextStream.cpp',FH+'FFBinaryStream.cpp',FH+'RINEX',FH+'RINEX3',FH+'SP3',FH+'SINEX',FH+'Binex','ext/lib/FileHandling','ext/lib/Geomatics/AntexData.cpp']
PROPS=[
P("C01","Record streams on different files are independent of each other",
"Any number of streams open on different files at the same time, used by one thread alternately or by several threads preempted at any instruction, each read, write and copy exactly what they would alone, also when a stream object was used on another file before. No record, header, error or file content of one stream depends on what is done with another, as long as each stream object is used by one thread.",
["schedules","inputs"],"every interleaving of library instructions and system calls of up to four threads, every mix of formats (RINEX 2 and 3 observation, navigation, meteorological and clock files, SP3, Yuma, SEM, IONEX, ANTEX, SINEX, BINEX) and of reading, writing, copying and reusing stream objects",
"Every test uses one stream at a time in one thread; hidden shared state shows only under particular interleavings.",
STREAMS,[("per-stream state","stream classes' headers and line buffers"),("function statics and class statics","readers' reallyGetRecord functions")],
"seeded sampling of 2-4 real threads, preemption at seeded basic blocks and system calls of the real library"),
P("C02","Torn or unreadable data files yield exactly their whole leading records",
"Reading a RINEX 2 or 3 observation, navigation, meteorological or clock file, or an SP3, Yuma, SEM, IONEX, ANTEX, SINEX or BINEX file that is cut off at an arbitrary byte, or becomes unreadable from an arbitrary byte on, delivers every record lying wholly before the damage exactly once, in order and unaltered, and at most one record from the damaged place (none in BINEX, which checksums its records). The reader then fails, it terminates, and a file that ends exactly after a record is reported as an ordinary end of file, whereas an unreadable sector never is. None of this depends on how the operating system chunks or interrupts the reads.",
["crash_points","fault_sequences","inputs"],"every byte position of truncation or of a persistent read error, every sequence of short and interrupted reads, every file content of the supported formats",
"The tests read a few intact sample files and a handful of hand-made bad ones; crash positions and read chunkings are unbounded.",
STREAMS,[("record-atomic get with rollback",FH+"FFStream.cpp:tryFFStreamGet"),("line reader end-of-file handling",FH+"FFTextStream.cpp:formattedGetLine")],
"seeded sampling of contents, damage positions and read chunkings over 16 real formats, real readers on a simulated disk"),
P("C03","A reader resumes exactly where a passing read error struck",
"When a read of a data file fails for a while and then works again, the extraction that met the error fails, leaves the stream positioned at the start of that record and its record count unchanged, and after clearing the stream the following extractions deliver every remaining record exactly once, in order and unaltered. An extraction during which no error occurred never fails before the end of the file, and every delivered record raises the record count by one.",
["fault_sequences","inputs"],"every position and number of transient read errors, every read chunking, every file content of the supported formats, with stream exceptions on or off",
"No test makes a read fail; the rollback paths of the readers run only under disk errors.",
STREAMS,[("record-atomic get with rollback",FH+"FFStream.cpp:tryFFStreamGet"),("lookahead rollback",FH+"SP3/SP3Stream")],
"seeded sampling of transient EIO positions over 16 real formats, real readers on a simulated disk"),
P("C04","Flushed records survive later write failures and failures never pass silently",
"After a flush or close of an output data file that reports success, the disk holds byte for byte everything written so far, and a later full disk, write error or failing close neither alters nor removes it. A write, flush or close whose bytes could not be stored puts the stream into a failed state (or throws, where the stream's exceptions are on); it never ends the program, and short or interrupted writes change nothing.",
["fault_sequences","crash_points","inputs"],"every position of a full disk or of a failing write or close, every write chunking, every placement of flushes, every file content of the supported formats",
"No test makes a write fail; the error paths of the writers run only on a failing disk.",
STREAMS,[("exception and state handling of put",FH+"FFStream.cpp:tryFFStreamPut"),("trailer written on close",FH+"SP3/SP3Stream.hpp")],
"seeded sampling of ENOSPC, EIO and close failures over 16 real formats, real writers on a simulated disk"),
P("C05","What is written in any number of sessions is read back and copied exactly",
"Records written to a data file in any number of sessions (close and reopen for appending between records), through short and interrupted writes, give the same bytes as one uninterrupted session, and reading the file gives back the same header and the same records with the values that were written, to the precision of the format, followed by an ordinary end of file. Copying a file record by record gives a file with the same header and records.",
["histories","fault_sequences","inputs"],"every placement of session boundaries and short or interrupted reads and writes, every header and record content expressible in RINEX 2 and 3 observation, navigation, meteorological and clock files, SP3, Yuma, SEM, IONEX, ANTEX, SINEX and BINEX files",
"The tests compare a few fixed files; session histories, chunkings and contents are unbounded.",
STREAMS,[("readers and writers","reallyGetRecord and reallyPutRecord of each format")],
"seeded sampling of contents, session boundaries and I/O chunkings over 16 real formats"),
P("C06","Reading a damaged data file never crashes, hangs or leaks out of the stream",
"Reading a data file with arbitrary damage (flipped bits, zeroed, lost, duplicated or misplaced blocks and lines, altered digits, cuts), and going on after clearing the errors, ends within a bounded amount of work and memory, touches no memory outside its buffers, and reports every error through the stream. With stream exceptions off (the default) no exception leaves an extraction.",
["fault_sequences","inputs"],"every damage of every file content of the supported formats",
"Tests read a handful of hand-made bad files; the space of damage is unbounded.",
STREAMS,[("field conversion checks","reallyGetRecord of each format"),("exception containment",FH+"FFStream.cpp:tryFFStreamGet")],
"seeded sampling of storage damage over 16 real formats with red-zoned allocations and a step budget"),
P("C07","A BINEX record with a damaged byte is refused, in place, and never delivered",
"A BINEX record of which one byte of the message or of its checksum is damaged, or of which two neighbouring message bytes are damaged where the record carries a CRC, is never delivered, whatever the record's length, byte order and checksum kind; the extraction fails and leaves the stream at the start of that record and its record count unchanged. Once the byte reads correctly again, the same extraction delivers the record exactly as written, and undamaged records are never refused.",
["fault_sequences","inputs"],"every record size up to one mebibyte, every message content, flags, damaged position and value, persistent or transient",
"The tests decode fixed intact records; the checksum's job is only visible on damaged ones.",
[FH+"Binex"],[("checksum, CRC-16 and CRC-32 verification",FH+"Binex/BinexData.cpp")],
"seeded sampling of single-byte and two-byte damage over real BINEX files"),
P("C08","Computations on separate objects never disturb each other",
"A computation's result depends only on its own inputs: not on what other objects computed earlier in the process, on memory contents, or on what other threads do meanwhile with objects of their own, wherever they are preempted. This covers navigation-subframe decoding, ephemeris, almanac and SP3 store queries (also of one shared store nobody changes), tropospheric models, RAIM position solutions, discontinuity correction, satellite passes, expressions, observation and satellite identifiers, time conversion and formatting, positions, tides, Sun and Moon, Earth orientation, special functions and string utilities.",
["schedules","inputs","histories"],"every interleaving of the instructions of up to four threads, every mix and order of the listed computations",
"The tests compute one thing at a time in one thread, in a fixed order; state shared through statics, caches and uninitialised members shows only under particular interleavings and histories.",
['core/lib','ext/lib'],[("function and class statics, lazily filled tables, uninitialised members","throughout the library")],
"seeded sampling of 2-4 real threads preempted at seeded basic blocks; each result compared with the same computation alone in a fresh process"),
P("C10","Every navigation message is passed or reported rejected exactly once",
"A navigation message given to a filter manager, with any chain of the LNAV, CNAV or CNAV-2 filters and whatever was lost, repeated, delayed, inverted or corrupted before it, is either returned once by validate or finalize or found once in the rejected list of exactly one filter listed as rejecting, after all data are finalized. The verdict is that of the documented criteria of the filters in their order (parity or CRC, preamble, HOW and TOW limits, empty patterns, upright cooking, voting, time order), and no message is read, altered or kept after it was reported.",
["fault_sequences","histories","inputs"],"every filter chain, every loss, repetition, delay, inversion and bit error of messages from several receivers, finalize at any point",
"The tests run each filter over one recorded file; histories across chained filters that hold messages back are unbounded.",
['core/lib/NavFilter'],[("cascade of filters and its flush","NavFilterMgr.cpp:validate, finalize"),("criteria","LNavParityFilter, LNavTLMHOWFilter, LNavEmptyFilter, LNavCookFilter, CNavParityFilter, CNavTOWFilter, CNavEmptyFilter, CNavCookFilter, CNav2SanityFilter")],
"seeded sampling of message histories; reported messages are scribbled over and freed at once; independent models of all filters"),
P("C11","Only messages that enough receivers agree on pass the cross-source vote",
"The LNAV and CNAV cross-source filters decide each run of messages with one time stamp per satellite: only the copies of the most frequent bit pattern pass, and only with at least two identical copies among at least three (LNAV) or the configured number of identical copies (CNAV); all others are rejected. The verdict appears when a message with another time stamp arrives or at finalize and never depends on messages of other epochs or satellites.",
["fault_sequences","histories","inputs"],"every loss, repetition, delay and corruption of copies from up to six receivers, finalize at any point",
"The tests count rejected messages of one recorded file.",
['core/lib/NavFilter/LNavCrossSourceFilter.cpp','core/lib/NavFilter/CNavCrossSourceFilter.cpp'],[("vote","examineSubframes, examineMessages"),("bit pattern order","LNavMsgSort, CNavMsgSort")],
"seeded sampling of message histories against a small reference model; equally frequent patterns: the smallest one in bit order wins"),
P("C12","Reordered navigation messages come out in time order, late ones are rejected",
"The LNAV and generic order filters release messages in non-decreasing time order, each as soon as it is as old as the configured depth times the epoch length relative to the newest message held, and at finalize all the rest. Exactly the messages older than that limit when they arrive are rejected.",
["fault_sequences","histories","inputs"],"every reordering, delay, loss, repetition and clock jump, every depth from 1 and epoch length, finalize at any point",
"The tests feed messages that are nearly in order.",
['core/lib/NavFilter/LNavOrderFilter.cpp','core/lib/NavFilter/NavOrderFilter.cpp'],[("ordered buffer","validate, examineSubframes")],
"seeded sampling of message histories against a small reference model"),
P("C13","Only subframes of one issue and frame are assembled into an ephemeris",
"The LNAV ephemeris assembler passes every subframe on and reports an ephemeris exactly when the latest subframes 1, 2 and 3 of one receiver, satellite, band and code have consecutive time of week counts and the same issue of data, whatever was lost, repeated or reordered in between. The reported three subframes are those that completed it, also when one call delivers many messages.",
["fault_sequences","histories","inputs"],"every loss, repetition, delay and reordering of subframes of several satellites through several receivers, across changes of the issue of data",
"The test counts ephemerides in one recorded file.",
['core/lib/NavFilter/LNavEphMaker.cpp'],[("subframe groups","LNavEphMaker.cpp:validate")],
"seeded sampling of message histories against a small reference model"),
P("C14","Received GPS subframes decode to what was broadcast or are refused",
"A legacy GPS subframe passes the parity check in either polarity exactly when the channel left it undamaged, up to three flipped bits of a word. The engineering ephemeris fed good subframes 1-3 in any order, with losses, repetitions, cutovers and week changes in between, is complete exactly when the stored three come from one issue, and then gives every broadcast value, the reference times in the right week, the fit interval and the satellite position they describe, also after conversion into the other representations (loadData, RINEX 2 and 3 records, GPSEphemeris); the engineering almanac gives for every satellite and page the values of the last one received, and refuses undefined pages without change.",
["fault_sequences","histories","inputs"],"every loss, repetition, delay, polarity and 1-3 bit damage of subframes across data set cutovers and week changes, every field value",
"Tests decode a few recorded subframes in order.",
['core/lib/GNSSEph/EngNav.cpp','core/lib/GNSSEph/EngEphemeris.cpp','core/lib/GNSSEph/EngAlmanac.cpp',FH+'RINEX/RinexNavData.cpp',FH+'RINEX3/Rinex3NavData.cpp'],[("parity","EngNav::checkParity, fixParity"),("subframe assembly","EngEphemeris::addSubframe, isDataSet, getEphemerisEpoch"),("almanac pages","EngAlmanac::addSubframe")],
"seeded sampling of subframes (built by an own encoder), losses and damage against the broadcast values"),
P("C20","Ephemeris stores answer independently of how messages arrived",
"A store of broadcast orbit ephemerides (GPS, Galileo, QZSS, mixed, with user or near search, and the orbit element store) that is fed messages late, out of order, repeated, with gaps or with contradicting copies keeps exactly one copy of each data set, the earliest transmitted one, and refuses a contradiction without changing. Every query answers from what is stored: in user search the data set most recently begun at the requested time if still valid, in near search the valid one with the nearest reference time, with the position, velocity, clock and health that data set's broadcast parameters describe in its own system, or a refusal. Counts, index, lists and time limits describe exactly what is stored, also after editing, clearing and rationalizing, and a destroyed store gives back all its memory.",
["fault_sequences","histories","inputs"],"every order, delay, duplication, loss and contradiction of messages, every interleaving with queries, edits and clears, every query time",
"Tests load a few files in order; arrival orders and gaps are unbounded.",
[GE+'OrbitEphStore.cpp',GE+'OrbElemStore.cpp',GE+'GPSEphemerisStore.cpp','ext/lib/GNSSEph'],[("earliest-copy rule of add","OrbitEphStore::addEphemeris, OrbElemStore::addOrbElem"),("search by validity","findUserOrbitEph, findNearOrbitEph, findOrbElem"),("upload adjustments","rationalize()")],
"seeded sampling of message histories against a small reference model over six real stores"),
P("C21","GLONASS and mixed-constellation stores answer independently of arrival order",
"The GLONASS ephemeris store and the RINEX 3 mixed-constellation store, fed records late, out of order, repeated or with gaps, answer every query with the orbit, clock and health described by the record that applies: for GLONASS the first one at or after the requested time if within 15 minutes, else the last one before it if within 15 minutes; for the others the one most recently begun if still valid; otherwise they refuse. A later GLONASS copy for the same time replaces the earlier, unhealthy ones are refused when only healthy ones are wanted, and a query in another system's time scale is answered for the same instant. Index, lists, counts and time limits, overall and per satellite, describe exactly what is stored, also after editing and clearing.",
["fault_sequences","histories","inputs"],"every order, delay, duplication and loss of records of five constellations, every interleaving with queries, edits and clears, every query time and time system",
"Tests load single files in order and ask a few times.",
[GE+'GloEphemerisStore.cpp',GE+'Rinex3EphemerisStore.cpp',FH+'RINEX3/Rinex3NavData.cpp','core/lib/TimeHandling/TimeSystem.cpp'],[("search window","GloEphemerisStore::getXvt, computeXvt, getSVHealth, findEphemeris"),("dispatch by constellation and time system","Rinex3EphemerisStore")],
"seeded sampling of message histories against a small reference model over two real stores"),
P("C22","Tabulated positions and clocks never depend on arrival order or bridge gaps",
"The position and clock table stores, fed records of any satellites in any order, repeated, replaced and with gaps, hold for every epoch the record added last, whatever edits and clears came between, and report their time limits, sizes and steps accordingly. A query is answered exactly with the record of its epoch, else interpolated from the records around it, and refused outside the table, across a gap or interval above the set limits; with exactly one answer per content, independent of history.",
["fault_sequences","histories","inputs"],"every order, repetition, replacement and gap of records, every interleaving with queries, edits, clears and changes of interpolation settings",
"The tests load one file in order and query a few times.",
[GE+'TabularSatStore.hpp',GE+'PositionSatStore.cpp',GE+'ClockSatStore.cpp'],[("table interval and gap check","TabularSatStore::getTableInterval"),("interpolation","PositionSatStore::getValue, ClockSatStore::getValue")],
"seeded sampling of record histories against a small reference model over two real stores"),
P("C23","The SP3 store is the union of what was loaded, through failures and retries",
"The SP3 ephemeris store loaded from SP3-a, -c and -d files and RINEX clock files that overlap, repeat, disagree, have gaps and bad records, holds for every satellite and epoch the position and clock of the last file loaded that has it, with that record's own flags and standard deviations, less the records its reject flags exclude. A file that cannot be opened or read makes the load throw and can be loaded later, a file is not loaded twice, and edit, clear and a change of the clock source leave exactly what they should.",
["fault_sequences","histories","inputs"],"every set of overlapping files, every position of a read error or failing open and its retry, every interleaving with queries, edits and clears",
"The tests load one or two intact files.",
[GE+'SP3EphemerisStore.cpp',GE+'SP3EphemerisStore.hpp',GE+'FileStore.hpp'],[("loading","SP3EphemerisStore.cpp:loadSP3Store, loadRinexClockFile"),("names of loaded files","FileStore.hpp")],
"seeded sampling of files, load orders and disk faults against a small reference model"),
P("C24","The message stores keep every distinct message, once, with its first time",
"The stores of GPS system messages (LNAV pages 51-63, CNAV 30, 32, 33), of almanac pages and of CNAV data elements, fed messages that are lost, repeated, late, reordered or contradicted, hold every distinct message of each satellite once with its earliest time, refuse contradictions and dummy pages, and answer every query (latest before a time, for one or any satellite, bounds, lists, UTC data, signals, almanac positions) with the right message and its broadcast values. Deleting, editing and clearing removes exactly what was named, counts and time limits stay right, and nothing is leaked; a second data set in the same process changes nothing.",
["schedules","histories","inputs"],"every order, loss, repetition and delay of messages of three satellites, every interleaving with queries, deletions, edits and clears",
"Tests load one file in order and query a few messages.",
['ext/lib/GNSSEph'],[("system messages","OrbSysStore.cpp, OrbDataSysFactory.cpp, OrbSysGps*.cpp"),("almanacs","OrbAlmStore.cpp, OrbAlmFactory.cpp, OrbAlmGen.cpp"),("CNAV elements","CNavDataElementStore.cpp")],
"seeded sampling of reception histories against a reference store; the week shared by two almanac data sets is a known finding"),
P("C25","A file loader loads all of a file or reports failure",
"Loading a good file into the RINEX 2/3 ephemeris, Yuma and SEM almanac, IONEX and antenna stores, the Earth-orientation stores, the ocean and atmosphere load tide and satellite metadata stores, the DCB, BLQ, PRN_GPS and configuration readers and the planetary ephemerides gives exactly the content of the file, however the reads are split. If a read fails anywhere in the file, or it cannot be opened, success is never reported for less than the whole content; and loading the file again after a failed attempt once the fault has gone, or after clearing the store, succeeds with the whole content.",
["fault_sequences","inputs"],"every position of a passing or lasting read error, every split of the reads, every order of failed, repeated and further loads",
"Tests load intact files only.",
['core/lib/GNSSEph/RinexEphemerisStore.cpp','core/lib/GNSSEph/Rinex3EphemerisStore.cpp','ext/lib/GNSSEph','ext/lib/FileHandling','ext/lib/Geomatics','ext/lib/AstroEph'],[("loading","loadFile of the ephemeris, almanac and IONEX stores, AntennaStore::addANTEXfile, EOPDataStore::load*File, EOPStore::add*File, initializeSites, loadData, read*"),("names of loaded files","FileStore.hpp")],
"seeded sampling of files and read faults over 26 loaders; content compared with the seeded content or with a fault-free load"),
P("C26","Loading a damaged file ends in success or a reported failure",
"When storage has damaged a file (changed, lost, repeated or misplaced bytes or lines, truncation), loading it with any of the loaders of C25 ends within a bounded time in success or in the loader's own failure report (a library exception, a status or the stream state). It never crashes, reads or writes outside its memory, hangs, exhausts memory or ends with a foreign exception, and what was loaded can be listed afterwards.",
["fault_sequences","inputs"],"every combination of storage damage to the file",
"Tests load intact files only.",
['core/lib/GNSSEph','ext/lib/GNSSEph','ext/lib/FileHandling','ext/lib/Geomatics','ext/lib/AstroEph','core/lib/Utilities/StringUtils.cpp'],[("loading","as C25"),("listing","dump and the get methods of the same classes")],
"seeded sampling of files and storage damage over 26 loaders"),
P("C27","A planetary ephemeris answers with its polynomials, in any order of queries",
"Both planetary ephemeris classes, given a JPL file in ASCII pieces or as the binary file they wrote, answer every state query inside the file's span with position and velocity of the file's Chebyshev polynomials (Earth and Moon from the barycentre and mass ratio), whatever was asked before, and refuse times outside the span. A query or initialisation hit by a read error is refused or right; after initialising again without faults every query is answered; and a binary file that could not be written completely is never reported as written.",
["fault_sequences","histories","inputs"],"every order of queries, read errors, failed writes and re-initialisations, every time and pair of bodies",
"Tests use no planetary ephemeris at all.",
['ext/lib/AstroEph/PlanetEphemeris.cpp','ext/lib/Geomatics/SolarSystemEphemeris.cpp'],[("record search and cache","seekToJD, readBinaryRecord"),("polynomials","computeState, InertialPositionVelocity"),("binary file","writeBinaryFile, readBinaryHeader")],
"seeded sampling of coefficients, query histories and disk faults against the polynomials evaluated in long double"),
P("C28","Time-tagged auxiliary stores answer with the record that applies",
"The stores of weather observations, broadcast ionosphere models, Earth orientation (daily and any epoch), TEC maps (with slant delays and code biases) and satellite metadata, fed records late, out of order, repeated, replaced or with gaps, answer every query from the content alone: the most recent record, the record valid at the time, or the documented interpolation between the records (and grid points) around it, exactly the stored values at a stored time, and a refusal where nothing applies. Sizes, lists and time limits describe exactly what is stored, also after flushing, editing and clearing.",
["fault_sequences","histories","inputs"],"every order, repetition, replacement and gap of records, every interleaving with queries, edits and clears, every query time and position",
"Tests add a few records in order and query inside them.",
['core/lib/GNSSCore/WxObsMap.cpp','core/lib/GNSSCore/IonoModelStore.cpp','ext/lib/Geomatics/EOPStore.cpp','ext/lib/GNSSEph/EOPDataStore.cpp','core/lib/TimeHandling/EpochDataStore.cpp','ext/lib/FileHandling/Ionex/IonexStore.cpp','ext/lib/FileHandling/Ionex/IonexData.cpp'],[("weather","WxObsMap.cpp:getMostRecent, getWxObservation, flush"),("models and tables","IonoModelStore.cpp, EOPStore.cpp:getEOP, EpochDataStore.cpp:getData"),("TEC","IonexStore.cpp:getIonexValue, IonexData.cpp:getValue"),("satellites","SatMetaDataStore::findSat, findSatBySVN, findSatBySlotFdma")],
"seeded sampling of record histories against small reference models; the ionosphere formula and tidal corrections are the library's own"),
P("C40","A file search returns exactly the files of its time span, or fails",
"Searching for files by a time-based file specification returns exactly the existing files whose name matches the specification and whose time lies in the span asked for (FileSpecFind: from the first to before the last moment, at the resolution of the fields in the name; FileHunter: the chunk of the first moment up to the last, and of the selected stations), in the order asked for, whatever else lies in the directories, whatever order they are listed in, and while files come and go. A directory that cannot be read or opened makes the search throw, never return part of the files.",
["fault_sequences","schedules","inputs"],"every tree of matching, near-matching and foreign names, every listing order, every failing opendir, readdir and stat, every change of the tree during the search",
"Tests list one small directory tree that never fails.",
['core/lib/FileDirProc'],[("search by glob","FileSpecFind.cpp"),("search by directory","FileHunter.cpp"),("names and times","FileSpec.cpp")],
"seeded sampling of trees, specifications, spans and directory faults against a reference that knows each file's time"),
P("C41","A time-named output stream puts each record into the file of its time",
"An output stream whose file name follows the time writes every record into the file named by the time of the last update, making the directories it needs, appends or starts files anew as opened, reports a change of name exactly when there is one, and loses no record flushed with success, nor repeats or reorders any, across clock steps and jumps back, changed specifications and restarts. When directories, files or disk space are refused the stream is failed, and it works again at the first new name after the faults have gone.",
["fault_sequences","histories"],"every sequence of clock steps, records, flushes, specification changes and restarts, every refused mkdir, open, write and close",
"No test uses the class.",
['ext/lib/FileHandling/TimeNamedFileStream.hpp',FH+'FFTextStream.cpp'],[("rotation","TimeNamedFileStream.hpp:updateFileName")],
"seeded sampling of histories and disk faults; every file compared with the records meant for it"),
P("C50","The recorder puts every byte of its device into the file of its time",
"The rolling file recorder (rfw), reading a TCP device or a file, records every byte it receives after the login exactly once and in order: each block of 512 bytes, and what remains at the end, goes into the file named for the moment the block was complete (or to standard output, which carries nothing else), and is on disk before it waits for the device again. It answers the login prompts and sends each command whole, after the first block and then whenever its period has passed at the end of a block. Short, interrupted and refused calls change nothing; when the device closes or fails it stops with all it received on disk, and when started again it appends.",
["fault_sequences","schedules","histories"],"every timing, splitting and interruption of the device's data and of the recorder's reads and writes, every clock jump, restart and reset",
"No test covers the recorder or its stream classes.",
['ext/apps/rfw'],[("device stream","FDStreamBuff.cpp, TCPStreamBuff.cpp, DeviceStream.hpp"),("recording loop","rfw.cpp:process"),("file names","TimeNamedFileStream.hpp")],
"seeded sampling of device scripts and clocks against a model of the recorder; the program's own main runs"),
P("C60","Merge, compare and check programs account for every record or fail",
"A merge program (mergeRinObs, mergeRinNav, mergeRinMet) writes exactly one record for each epoch of its inputs (each distinct ephemeris for navigation files), unchanged except for observation types that not all inputs share, in time order, whatever the order of the inputs and however records are spread and repeated over them, with all comments. A compare program (rowdiff, rnwdiff, rmwdiff) reports agreement exactly when the shared observation types of the files agree, and otherwise lists every record that differs once, with the differences of its values; a check program (rowcheck, rnwcheck, rmwcheck) counts every record. When an input cannot be opened or read to its end, or the output not be written, the program ends with a failure status, never with success and records missing.",
["fault_sequences","inputs"],"every distribution of records over up to four files, every order of arguments, every open, read, write, space and close error, every short or interrupted transfer",
"The programs' tests compare a few fixed outputs and never meet a failing disk.",
['core/apps/mergetools','core/apps/difftools','core/apps/checktools','core/lib/FileDirProc/FileFilter.hpp','core/lib/FileDirProc/FileFilterFrame.hpp','core/lib/FileDirProc/FileFilterFrameWithHeader.hpp',FH+'RINEX/RinexObsFilterOperators.hpp',FH+'RINEX/RinexMetFilterOperators.hpp',FH+'RINEX3/Rinex3ObsFilterOperators.hpp',FH+'RINEX3/Rinex3NavFilterOperators.hpp'],[("reading, sorting, writing","FileFilterFrame.hpp, FileFilterFrameWithHeader.hpp"),("orders","*FilterOperators.hpp")],
"seeded sampling of file sets and disk faults; nine whole programs run with their own main against own writers and readers of the formats"),
]
def N(id,title,stmt,why,files,mech,reason):
    d=P(id,title,stmt,["inputs"],"every input",why,files,mech,""); d.pop('note',None); d['reason']=reason; return d
NA=[
N("C80","Time representations convert into each other without loss",
"Converting a moment between any two of the library's time representations and back gives the same moment within the resolution of the representations, for every date they can hold. Converting between time systems applies the published offset of that date.",
"Tests sample some dates.",['core/lib/TimeHandling'],[("conversion","convertToCommonTime, convertFromCommonTime of each class")],
"pure functions of their arguments: no time, I/O, thread or message to simulate or fault; a seed would only choose an input, which is property-based testing"),
N("C81","Vector, matrix and special functions satisfy their defining identities",
"Inversion, decompositions, least squares, statistics and special functions satisfy their defining identities within rounding for every well-conditioned input.",
"Tests use a few small matrices.",['core/lib/Math'],[("linear algebra","MatrixOperators.hpp, MatrixFunctors.hpp")],
"pure functions of their arguments: nothing the simulator controls can influence them"),
N("C82","Coordinates convert between systems without loss",
"Converting a position between Cartesian, geodetic, geocentric and spherical coordinates and back gives the same position within rounding, everywhere outside the poles' singularities.",
"Tests use a few dozen positions.",['core/lib/GNSSCore/Position.cpp','core/lib/RefTime','core/lib/GNSSCore'],[("transformations","Position::transformTo")],
"pure functions of their arguments: nothing the simulator controls can influence them"),
N("C83","Troposphere and ionosphere models follow their published formulas",
"Each tropospheric and ionospheric model gives the delay of its published formula for every weather, position, time and elevation it accepts, and refuses the others.",
"Tests use a few positions.",['core/lib/GNSSCore/TropModel.cpp','core/lib/GNSSEph/IonoModel.cpp'],[("formulas","correction methods")],
"pure functions of their arguments; their independence of hidden and shared state, which simulation can reach, is part of C08"),
N("C84","Observation types map one to one between file formats and the library",
"Every observation code of the supported file versions is read as the observation type it stands for and written back as the same code.",
"Tests use some codes.",['core/lib/GNSSCore/ObsID.cpp'],[("tables","ObsIDInitializer.cpp")],
"a fixed finite table: enumeration decides it, and no schedule or fault bears on it; its effect on files written and read back is part of C05"),
N("C85","Bit-packed messages unpack to the values packed into them",
"Every signed, unsigned, scaled and split field packed into a navigation message is unpacked as the value packed, within the resolution of the scale factor.",
"Tests pack a few messages.",['ext/lib/GNSSEph/PackedNavBits.cpp'],[("packing","addUnsignedLong, asUnsignedLong")],
"pure functions of their arguments; their use on whole messages that went through a faulty channel is part of C10, C14 and C24"),
]
