P('P01', 'Every trace component is addressed at its own SEG-Y position',
  'For every file geometry, trace number, trace list and sample count, reading or writing whole traces, trace headers or trace samples touches exactly the bytes that the SEG-Y layout assigns to them: after the 3600-byte file header each trace occupies 240 header bytes followed by four bytes per sample. No transfer overlaps the file header or a component it was not asked for.',
  'inputs configurations', 'all trace offsets, counts, lists, sample counts and the three component kinds, for reads and for writes',
  'The tests read and write a handful of small files; an addressing error that needs a particular sample count, a large trace number, a list with gaps or one component kind is outside the samples.',
  'src/ObjectSEGY.cc include/ExSeisDat/PIOL/segy_utils.hh src/ObjectInterface.cc',
  [('object layer turns (trace, count, samples) into (byte offset, block, stride, count)', 'src/ObjectSEGY.cc'), ('size and location helpers', 'include/ExSeisDat/PIOL/segy_utils.hh')],
  'abstract interpretation to closed-form value summaries of every object-layer transfer, compared symbolically with the SEG-Y layout formulas',
  'proof of the symbolic equality of each transfer argument for all inputs (machine integers treated as mathematical); 0-length requests included')
P('P02', 'Large requests are cut into pieces that cover exactly the requested bytes',
  'For every request size, stride, list and per-call limit, a data-layer read or write is split into MPI-IO calls whose pieces, taken together, transfer each requested element exactly once between the matching file and memory positions, never exceed the per-call limit and never touch anything else. Ranks with less to do, or nothing, take part with empty pieces. The selection of file bytes installed for strided and listed access is the requested one and is removed afterwards.',
  'inputs configurations', 'all offsets, sizes, block sizes, strides, lists and maximum transfer sizes',
  'The chunking code only runs for multi-gigabyte requests or artificially small limits; tests exercise a few sizes on one process.',
  'src/DataMPIIO.cc', [('contiguous, listed and strided chunk loops', 'src/DataMPIIO.cc'), ('derived-type file views', 'src/DataMPIIO.cc')],
  'abstract interpretation with loop summarisation; tiling obligations on the summarised (position, memory, count) triples of every MPI-IO call site',
  'symbolic proof for all inputs of the chunk positions, lengths and trip counts; MPI-IO itself is trusted')
P('P03', 'All ranks take part in the same sequence of collective operations',
  'Whatever each rank was asked to transfer or process - nothing, a different amount, different positions - every rank executes the same collective operations the same number of times in the same order, so that no call can block waiting for a rank that never joins. This holds for data transfers, file opening, header handling, trace and parameter access, workflow execution, sorting, gathers, min/max and the bundled programs.',
  'inputs schedules configurations', 'all rank counts and all per-rank requests',
  'All tests run on a single rank, where a collective mismatch cannot show.',
  'src/DataMPIIO.cc src/ObjectSEGY.cc src/ReadSEGY.cc src/WriteSEGY.cc src/CommunicatorMPI.cc src/Flow/Set.cc src/sort.cc src/gather.cc src/minmax.cc util/4dio.cc util/4dcore.cc',
  [('padding with empty collective calls up to the largest count of any rank', 'src/DataMPIIO.cc, src/Flow/Set.cc, util/'), ('collectives called unconditionally', 'all layers')],
  'interprocedural extraction of collective sequences as guarded expressions; rank-taint of guards and trip counts, with symbolic cancellation of padding',
  'sound for guards and trip counts expressible in the value domain; MPI error returns are outside (see P05); ranks are assumed to enter the public collective API together')
P('P08', 'The SEG-Y file header is written and read at the standard byte positions',
  'For every text, sample count and sample interval, the 3600-byte file header a writer produces holds the text in its first 3200 bytes (padded or cut to 3200), the sample interval in microseconds and the number of samples as big-endian 16-bit numbers at their SEG-Y byte positions together with the format, revision and the other fields the library sets, and zero everywhere else; a reader takes the sample count, interval and format from those same bytes with the same byte order and scale and the text from the first 3200 bytes (converted to ASCII when it is EBCDIC), so that opening a written file gives back the header values that were set. A value that does not fit its header field is refused with an error rather than written truncated.',
  'inputs', 'all texts, sample counts, sample intervals and formats',
  'Tests compare a few values; a wrong byte, scale or sign shows only for particular values.',
  'src/WriteSEGY.cc src/ReadSEGY.cc include/ExSeisDat/PIOL/segy_utils.hh',
  [('header packing on close', 'src/WriteSEGY.cc'), ('header parsing on open', 'src/ReadSEGY.cc')],
  'abstract interpretation to a symbolic byte map of the header buffer with bit-provenance normal form, compared with the SEG-Y field table; symbolic inversion of the reader',
  'proof for all inputs of the byte map, the setters and the reader fields; floating rounding of the interval treated as ideal')
P('P10', 'Number formats convert exactly: big-endian, IEEE and IBM samples',
  'Every 16- and 32-bit integer and 32-bit float is packed and unpacked most significant byte first; every normalised IBM single-precision sample converts to the nearest IEEE single (ties to even for subnormal results, infinity with the right sign beyond the range, zero for a zero fraction); the reader converts every sample of a request exactly once, by the format the file declares, and only when a sample buffer was given; the writer converts every sample to big-endian before the transfer and leaves the caller\'s samples as they were afterwards; the samples and header of each trace go to and from their own place in its trace block, whether headers, samples or both are transferred.',
  'inputs configurations', 'all bit patterns of the number types, all request sizes and both sample formats',
  'The value space is 2^32 per sample and the errors of interest sit at format boundaries (zero, subnormal, overflow, sign).',
  'include/ExSeisDat/utils/encoding/number_encoding.hh src/utils/encoding/number_encoding.cc src/ReadSEGY.cc src/WriteSEGY.cc',
  [('big-endian packing', 'include/ExSeisDat/utils/encoding/number_encoding.hh'), ('IBM conversion', 'src/utils/encoding/number_encoding.cc'), ('conversion of transferred samples', 'src/ReadSEGY.cc, src/WriteSEGY.cc')],
  'bit-provenance abstract interpretation (partially known machine integers) over a complete case split, compared with the reference formats; summary obligations on the conversion loops',
  'complete for normalised IBM inputs, both byte orders; loops proved for all request sizes')
P('P12', 'Closing a writer leaves a complete file: header and size reflect the writes',
  'For every sequence of header settings and trace writes across ranks, when a writer is closed without an error the file header is written, exactly once and by rank 0, whenever the writer is new or the text, sample count or interval changed since it was last written, and the file is set to the size of the file header plus the largest number of traces any rank set or wrote, all ranks taking part; no trace count that was written is ever lost, and writing no traces changes nothing.',
  'inputs histories configurations', 'all sequences of setter and write calls and all ranks',
  'Tests close writers after a few fixed call sequences on one rank.',
  'src/WriteSEGY.cc', [('state flags and destructor', 'src/WriteSEGY.cc')],
  'abstract interpretation of the closing code as a function of symbolic writer state, composed with the state effect of each public operation (inductive invariant)',
  'inductive over operation sequences; error state excluded',
  )
P('P16', 'The C interface performs exactly the C++ operation each function stands for',
  'Every function of the C interface performs exactly the C++ operation its name denotes, on the object behind its handle, once, with its own arguments in the same order, does nothing else, and returns that operation\'s result; typed accessors use the variant of their type; a null header-parameter argument selects the variant without headers; constructors build the object from the given arguments; delete releases the object behind the handle; the size helpers return the sizes the SEG-Y layout prescribes.',
  'inputs', 'all argument values of all C functions',
  'Most C functions take several arguments of the same type: a swap or a wrong neighbour compiles, and the mock-based tests use one fixed value per argument.',
  'src/C_bindings/*.cc include/ExSeisDat/PIOL/*.h', [('one-to-one wrappers around the C++ interface', 'src/*_C_bindings.cc')],
  'summary of each C function with the C++ operations opaque, compared with a table of the interface',
  'complete over the functions of the interface; argument values symbolic')
P('P04', 'Communication stays on the communicator of the library object',
  'Every MPI operation the library performs on behalf of a library object - collective communication, point-to-point exchange, file access, window creation - uses the communicator that object was created with (or, for a file, the one set in its options, which defaults to the object\'s), never a different one; the communicator given at construction is stored and returned unchanged, so that applications can run the library on a subset of their processes.',
  'inputs configurations schedules', 'all MPI operations of the library and all communicators',
  'Every test runs with the world communicator on one rank, where using the wrong communicator makes no difference.',
  'src/CommunicatorMPI.cc src/DataMPIIO.cc src/sort.cc include/ExSeisDat/PIOL/CommunicatorMPI.hh',
  [('communicator stored by CommunicatorMPI and the file options', 'src/CommunicatorMPI.cc, src/DataMPIIO.cc')],
  'value-flow (provenance) analysis of the communicator argument of every MPI call site through accessors, options and constructors',
  'complete over the MPI call sites of the library; the distributed vector\'s own constructor argument counts as the object\'s communicator')
P('P05', 'A failed MPI or MPI-IO operation is recorded as an error',
  'When an MPI communication, datatype, or MPI-IO operation that the library performs reports a failure, the library records an Error in the log of the library object (or passes the failure to a caller that does) before the operation that performed it returns; no failure is silently dropped and no success is recorded as an error on account of its return code being misread.',
  'fault_sequences histories inputs', 'every MPI operation of the library failing at any point',
  'The tests never make an MPI operation fail.',
  'src/DataMPIIO.cc src/CommunicatorMPI.cc src/sort.cc include/ExSeisDat/utils/mpi/MPI_error_to_string.hh',
  [('return code of each MPI call tested and recorded', 'src/DataMPIIO.cc, src/CommunicatorMPI.cc')],
  'path-sensitive error-flow analysis: every failing path from an MPI call site must reach an Error record or a failing return, callers included',
  'complete over the fallible MPI call sites except the distributed vector (whose operations have no error channel) and MPI_Init/Comm_rank style calls')
P('P06', 'MPI resources are released exactly once and views never outlive their use',
  'Every MPI datatype the library creates for an operation is committed before it is used and freed exactly once after it; every file view installed for a strided or listed transfer is installed before the transfer and replaced by the plain byte view afterwards; files, info objects and windows are closed or freed exactly once by the object that owns them; owners are not copyable; every remote access epoch that is opened is closed on the same target after the transfer.',
  'histories inputs', 'all operations, all argument values, operations succeeding',
  'Leaked types, views left behind or handles freed twice do not change the result of the operation that is tested.',
  'src/DataMPIIO.cc include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh',
  [('datatype and view life cycle', 'src/DataMPIIO.cc'), ('access epochs', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh')],
  'typestate analysis of MPI handles: pairing of create/commit/use/free, set/reset and lock/unlock decided on path conditions and event order',
  'success paths only; the failing paths are P05\'s')
P('P07', 'Files are opened for what they are used for; reading never changes a file',
  'Opening a file for reading gives read-only access to an existing file; opening it for writing, or for reading and writing, creates it when it does not exist and never truncates, deletes or refuses an existing one; each public way to open a file selects the direction of its class and opens the name it was given; and no operation of a reading class can reach an operation that writes to, resizes or deletes a file. No library operation deletes or replaces a file.',
  'inputs histories configurations', 'all open modes, all construction paths and all operations of the reading classes',
  'Tests look at what was read, not at whether the file could have been changed.',
  'src/DataMPIIO.cc src/ReadSEGY.cc src/WriteSEGY.cc src/ObjectSEGY.cc include/ExSeisDat/PIOL/ReadDirect.hh include/ExSeisDat/PIOL/WriteDirect.hh',
  [('open flags by file mode', 'src/DataMPIIO.cc'), ('construction chains', 'src/ReadDirect.cc, src/WriteDirect.cc')],
  'constant evaluation of the open flags per mode, symbolic construction chains, and effect reachability over the call graph with all overrides',
  'complete over the construction paths instantiated by the library and over the call graph (virtual calls resolved to all overrides)')
P('P22', 'One-sided access reaches exactly the element it names',
  'Every one-sided window exposes exactly the bytes of its elements and is addressed in elements. Setting or getting element i of a distributed vector accesses exactly that element, whole, at the owner and position the block decomposition gives it, locally on the owner and otherwise inside an access epoch on the owner that excludes conflicting access; an index outside the vector changes nothing. A distributed vector filled by all ranks is complete before it is handed out. Remote coordinates are fetched (or sent and received) field by field from the matching field, all elements, with matching types and tags.',
  'inputs schedules configurations', 'all indices, vector sizes, rank counts and element types instantiated',
  'No test runs on more than one rank, so remote access, the windows behind it and races on them are never exercised.',
  'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh include/ExSeisDat/utils/Distributed_vector.hh src/gather.cc util/4dcore.cc',
  [('window allocation and remote access', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh'), ('coordinate exchange', 'util/4dcore.cc')],
  'symbolic summaries of window creation and of each access (owner, position, amount, epoch), compared with the decomposition; field/tag pairing of sender and receiver',
  'complete over the instantiations in the library plus double; the MPI memory model is trusted')
P('P23', 'Block decomposition tiles every range exactly',
  'For every range size, number of ranks and rank, the blocks the decomposition assigns to ranks 0..R-1 follow each other without gap or overlap, start at 0 and end at the range size, and their sizes differ by at most one; the location of an index is the rank and position whose block contains that index; the C function returns the same decomposition.',
  'inputs configurations', 'all range sizes, rank counts, ranks and indices',
  'The errors of interest sit at the boundary between long and short blocks, for particular remainders.',
  'src/utils/decomposition/block_decomposition.cc',
  [('block sizes and offsets', 'src/utils/decomposition/block_decomposition.cc')],
  'closed-form summaries and polynomial identities by case analysis on rank against remainder',
  'proof for all inputs (machine integers treated as mathematical)')
P('P30', 'Collective operations compute what they are named for',
  'Summing, maximum and minimum over ranks return the reduction of every rank\'s value with that operator; offset returns the sum of the values of the lower ranks, zero on rank 0; gather returns the values of all ranks in rank order, as many per rank as were given, for every element type; rank and number of ranks are those of the communicator given; a barrier waits for all ranks of it; the public wrappers perform the operation of their name.',
  'inputs configurations', 'all values, list lengths, element types and rank counts',
  'On one rank all reductions return their argument and a gather is a copy, so using the wrong operator, type or count cannot show.',
  'src/CommunicatorMPI.cc include/ExSeisDat/PIOL/CommunicatorInterface.hh src/ExSeis.cc include/ExSeisDat/utils/mpi/MPI_type.hh',
  [('collective operations', 'src/CommunicatorMPI.cc')],
  'symbolic summary of each operation: operator, contribution, count, element type, communicator and returned value compared with its meaning',
  'complete for the operations of the communicator, on success of the MPI call; MPI itself is trusted')
P('P27', 'Assertions only check: building without them changes nothing',
  'No asserted condition in the library or the bundled programs performs input, output or communication, or changes any value that is used afterwards; a build without assertions therefore behaves exactly like one with them as long as no assertion fails.',
  'configurations inputs', 'every assertion and both build configurations',
  'The tests run in one build configuration.',
  'src util/fourdbin.cc include/ExSeisDat',
  [('assertions', 'src, util, include')],
  'effect analysis of every asserted expression and the functions it calls, over the assertion-enabled program',
  'complete over the assertions of the library and the programs; standard library queries are taken as effect-free')
P('P28', 'Recorded errors are never lost',
  'Recording a message with status Error sets the error flag of the library object whatever its verbosity and whatever the limit; no other message sets it and nothing clears it. A message is kept exactly when its verbosity is within the limit, with all its fields; processing the log prints each kept message once to standard error and empties it, also on destruction; conditional recording records exactly when its condition holds; counting a status counts the kept messages of that status. The fatal-error test prints the log and ends the program with a failure status exactly when an error was recorded.',
  'histories inputs', 'all sequences of messages, statuses, verbosities and limits',
  'Tests record a few messages; a lost error needs a particular status, verbosity and order.',
  'src/Logger.cc include/ExSeisDat/PIOL/Logger.hh src/ExSeisPIOL.cc src/ExSeis.cc',
  [('error flag and message list', 'src/Logger.cc'), ('fatal-error test', 'src/ExSeisPIOL.cc')],
  'summaries of the logger operations as state transformers (inductive invariant over histories) and path conditions of the fatal-error test',
  'proof for all inputs; the text format of printed messages is not constrained')
P('P17', 'The C++ access layers forward every operation unchanged',
  'Every operation of the direct read and write classes performs the operation of its own name, once, with its own arguments in order, on the file object the class was given, and returns its result. Reading or writing headers only is reading or writing of the same traces with the same headers and skip, without samples. The text, sample count, increment and trace count queries each return their own member of the reader. The object layer asks the layer below for the file size.',
  'inputs', 'all arguments',
  'Tests call the layers below directly or sample one argument combination; a swapped argument or dropped skip shows only for particular values.',
  'include/ExSeisDat/PIOL/ReadDirect.hh src/ReadDirect.cc src/WriteDirect.cc src/ReadInterface.cc include/ExSeisDat/PIOL/ReadInterface.hh src/ObjectInterface.cc',
  [('direct classes', 'src/ReadDirect.cc'), ('interfaces', 'include/ExSeisDat/PIOL/ReadInterface.hh')],
  'symbolic summary of each forwarding operation with the layer below opaque: callee, receiver, argument order and result',
  'complete over the operations of the two direct classes and the four header-only operations')
P('P09', 'Header quantities live at their SEG-Y places, and come back as written',
  'Each supported header quantity is kept at the byte location, with the width and shared scale factor, that the SEG-Y trace header table gives it. A rule set built from quantities holds exactly the requested ones, the default and extra sets when asked for, and the two trace indices. With a whole-header rule set, writing puts every value big-endian at its location in the header of its own trace (on top of the copied header, if kept) and touches no byte that belongs to no rule; reading takes every value from there into its own slot. A scaled value is rounded after division by the scale that is written beside it, reading multiplies by the scale found; scale 0 counts as 1, negative scales divide.',
  'inputs', 'all header values, scales, trace counts, strides, offsets and whole-header rule sets',
  'Tests use a few quantities with friendly values; a swapped location, a wrong width or stride shows only for the quantity, index or sign concerned.',
  'src/Rule.cc src/segy_utils.cc include/ExSeisDat/PIOL/Tr.hh include/ExSeisDat/PIOL/SEGYRuleEntry.hh',
  [('rules of each quantity', 'src/Rule.cc'), ('packing, unpacking and scales', 'src/segy_utils.cc')],
  'symbolic summaries of the rule table and of the packing and unpacking loops, compared byte by byte with the SEG-Y trace header table; constant folding of scale conversion',
  'whole-header rule sets (the only ones the file layer makes); the choice of scale for a single value (find_scalar) is not judged')
P('P18', 'Every header slot belongs to exactly one entry, and is reached through it',
  'At any time the entries of each type in a rule set are numbered 0, 1, 2 … without gap or repetition and the count of the type is their number, whatever sequence of additions, replacements, removals and merges led there; adding a quantity again replaces it, merging adds only what is missing, a removed entry is freed once. A parameter block has room for count times traces values of each type; a quantity of a trace is read and written at the slot of its own entry and trace, in the array of its own type; copying a trace between blocks moves every quantity both blocks have to the slot of the target trace.',
  'histories inputs', 'all sequences of rule changes, trace indices, and pairs of rule sets',
  'Slot collisions need a particular order of additions and removals, and two quantities of one type; tests mostly use default rule sets.',
  'src/Rule.cc src/param_utils.cc include/ExSeisDat/PIOL/param_utils.hh src/Param.cc',
  [('rule set changes', 'src/Rule.cc'), ('slot access', 'include/ExSeisDat/PIOL/param_utils.hh'), ('copies', 'src/param_utils.cc')],
  'inductive invariant: every operation is summarised as a state transformer (map content as memory) and compared with dense numbering for each prior state; slot formulas of each access',
  'complete over the operations named; reading a quantity a block does not have is outside')

P('P13', 'A read returns the requested traces, each at its own place',
  'Reading a block returns the traces from its offset up to its length or the end of the file, whichever comes first, and nothing when it starts beyond the end; reading a list returns the listed traces. Headers, samples or both are returned as asked for, and each header carries the number of its own trace. Reading an unordered list, with repetitions, returns at every place of it the header and samples of the trace listed there, requesting every trace once in increasing order.',
  'inputs', 'all offsets, amounts, file sizes, lists (unordered, with repetitions, empty) and combinations of buffers',
  'Tests sample a few offsets and lists; clipping errors show only across the end of file, and mix-ups only for particular orders and repetitions.',
  'src/ReadSEGY.cc src/sort.cc include/ExSeisDat/PIOL/ReadSEGY.hh',
  [('block, list and unordered reads', 'src/ReadSEGY.cc'), ('ordering a list', 'src/sort.cc')],
  'symbolic summaries of the three reads: requested range by case analysis against the clipped request, local trace numbers, and the condition, counter and slot of each loop of the unordered read',
  'proof of the listed relations for all inputs; std::sort is trusted to sort with the given comparison')

P('P14', 'Sort types order traces by the keys of their names',
  'Each sort type orders two traces by the header quantities of its name, the first that differs deciding: coordinates of the source or receiver, line numbers, and the distance between source and receiver, either computed from their positions or taken from the header. Traces equal in all of them keep the order of their trace numbers, so the order of a file is unique. The order check of a block of traces answers true exactly when every trace of the block comes after the one before it, including the last trace of the block before.',
  'inputs', 'all pairs of header values (negative and equal ones included), all sort types, all blocks',
  'Nine comparisons of up to five keys have hundreds of combinations of less, equal and greater; tests sort a few files in which late keys rarely decide.',
  'src/sort.cc include/ExSeisDat/PIOL/sort.hh',
  [('comparison functions and their selection', 'src/sort.cc'), ('order check', 'src/sort.cc checkOrder')],
  'symbolic summary of every selected comparison as one boolean function of its keys, evaluated for every combination of less, equal and greater; form of the order check for all sizes with fully unrolled instances',
  'complete for the comparisons; the order check is decided for all sizes when its form is recognised, and for blocks of up to 12 traces otherwise; NaN coordinates excluded')

P('P15', 'Sorting across processes orders the whole set and loses no trace',
  'Sorting a set spread over processes ends with every trace in its place: the traces of all processes together are in the order of the comparison, each process holds as many as before, and no trace is lost, doubled or mixed with the header quantities of another. No process goes on while another has stopped. The result names the traces in the new order, or for each trace its new place, as asked.',
  'schedules', 'all numbers of processes and block sizes, all orders of the traces, all arrival orders of the messages',
  'The sort is a distributed exchange whose number of steps depends on the data; the tests sort on one process, where no message is ever sent.',
  'src/sort.cc include/ExSeisDat/PIOL/operations/sort.hh',
  [('exchange step and its end', 'src/sort.cc sortP, sort'), ('messages to the neighbours', 'src/sort.cc sendLeft, sendRight, Wait')],
  'abstract execution of one step on tokens for every position of a process among its neighbours; matching of the messages of both sides; form of the loop end and of the result',
  'a step is decided for instances of small blocks and the amount exchanged as a function of the smallest block; that odd-even exchange steps without a change mean a sorted set is the known argument and is not re-derived')

P('P24', 'Queued operations are all applied, in order, to every trace of the set',
  'Output applies every queued operation once, in the order they were queued, to the result of the ones before it, whatever the mix of operations on single traces, on gathers and on the whole set. Every trace of every added file is read once, processed together with its own header, and written once, where the order of the set puts it, whatever the sizes of the files, blocks, gathers and processes; traces of different length or interval go to different files. The files written have the given name, and their names are returned.',
  'inputs histories configurations', 'all sequences of operations, numbers and sizes of files, of blocks, of gathers and of processes',
  'Tests queue one or two operations on one small file on one process; a lost operation or trace shows only in particular sequences, or when files are larger than a block or differ between processes.',
  'src/Flow/Set.cc src/Flow/Cache.cc include/ExSeisDat/Flow/Set.hh src/Flow/RadonGatherState.cc',
  [('dispatch of the queue', 'src/Flow/Set.cc calcFunc, calcFuncS, startSubset'), ('stages', 'src/Flow/Set.cc startSingle, startGather'), ('files of the set', 'src/Flow/Set.cc add, sort'), ('headers of a set', 'src/Flow/Cache.cc')],
  'abstract execution of the queue for every sequence of up to three kinds of operations (longer ones picked), with opaque stages; of each stage on tokens for small files, blocks, gathers and processes, comparing reads, headers, samples and places written; of each operation as a closure with its captured arguments',
  'decided for all instances listed: sequences, files, blocks and gathers are small, their contents arbitrary; the numerical kernels an operation calls are taken as they are (the arguments they get are checked)')

P('P19', 'Every gather is found once and whole, wherever process boundaries fall',
  'The list of inline/crossline gathers of a file has exactly one entry for every run of consecutive traces with the same inline and crossline, in file order, with those line numbers and the number of traces of the run, on any number of processes. A gather whose traces are on several processes, or which begins or ends at a process boundary, is listed once, and processes without traces add nothing. The list is complete before any process uses it.',
  'inputs configurations', 'all sequences of line numbers, numbers of traces and of processes',
  'Tests use one file on one process; what goes wrong depends on how runs of traces meet the boundaries between processes.',
  'src/gather.cc', [('runs of one process', 'src/gather.cc getGathers'), ('runs over several processes', 'src/gather.cc getGathers')],
  'abstract execution of the function for every process of a group in lockstep (collective operations answered from what all processes hand to them), for every way to cut up to six traces into runs, longer ones picked, on one to four processes; every entry set in the list is compared with the runs',
  'decided for all instances listed; line numbers are of both signs, zero and alternating in which one changes; more traces or processes are not enumerated')

P('P20', 'A velocity model gives each gather the trace of its own lines',
  'For a velocity model of a complete regular grid, stored inline by inline, reading for a list of gathers returns exactly one trace per gather, in the order of the gathers: the trace of the model with the inline and crossline of that gather. This holds for lines that start anywhere, rise or fall by any increment, for models of a single inline, crossline or trace, and for gathers in any order, repeated or named one by one.',
  'inputs', 'all grids and lists of gathers',
  'No test reads a model; a wrong place depends on the combination of starts, counts and increments of both kinds of lines.',
  'src/ReadSEGYModel.cc src/ReadModel.cc', [('lines of the model', 'src/ReadSEGYModel.cc constructor'), ('places of gathers', 'src/ReadSEGYModel.cc readModel')],
  'abstract execution of the constructor on the headers of small grids, and of reading with the parameters it leaves, for lists of gathers in order, reversed, picked and repeated; the trace numbers asked for, the order guarantee of the read and the samples returned are compared with the grid',
  'decided for the listed grids (one to seven lines each way, increments of both signs); larger grids are not enumerated; which headers a trace number has is P09, what a read returns is P13')

P('P21', 'Header text characters convert by the standard code tables, and back',
  'Every character of a header text converts between EBCDIC and ASCII to the code of the same character in the standard tables, and converting back gives it again. Codes without a counterpart, and only those, become the substitute character of the other code. Exactly the printable characters count as printable in both codes.',
  'inputs', 'all 256 codes in both directions',
  'Tests read one EBCDIC header whose text uses a few dozen of the characters.',
  'src/utils/encoding/character_encoding.cc', [('table', 'src/utils/encoding/character_encoding.cc'), ('lookup', 'to_ASCII_from_EBCDIC, to_EBCDIC_from_ASCII'), ('printable characters', 'is_printable_ASCII, is_printable_EBCDIC')],
  'abstract evaluation of each function on each of the 256 codes, with the tables worked out from their initialisers (construction, copying and sorting), compared with code page 037; brackets and caret, which differ between EBCDIC code pages, may be at any of their usual places or become the substitute',
  'decided for all codes; that the reader converts exactly the texts that have more printable EBCDIC characters is P08')

P('P25', 'Extremes over processes and files are those of the whole set',
  'The lowest and highest value of a quantity over the traces of all processes are returned to every process, each with the global number of its trace, ties going by the second quantity, whatever the distribution of the traces and for values of any sign. Processes without traces do not take part; without any traces the trace number says so. The extremes of a set of files are the lowest and highest of those of its files.',
  'inputs configurations', 'all values, distributions over processes and numbers of files',
  'Tests compare a few values on one process; ties, negative values and processes without traces are combinations of inputs and distributions.',
  'include/ExSeisDat/PIOL/operations/minmax.h src/minmax.cc src/Flow/Set.cc', [('reduction', 'include/ExSeisDat/PIOL/operations/minmax.h getCoordMinMax'), ('by header quantity', 'src/minmax.cc'), ('of a set', 'src/Flow/Set.cc getMinMax')],
  'abstract execution of the reduction for every process in lockstep, for every combination of four parameter pairs for up to three traces (longer ones picked) and every distribution on one to three processes; of the closures taking the quantities from headers; and of the merge over files for all orders and ties of their values',
  'decided for all instances listed; the values are picked so that every order and tie of both quantities occurs')

P('P26', 'Tapers and gain control scale each sample by the ramp or window they define',
  'A taper multiplies the first and last samples of the live part of a trace by its ramp and leaves the others, and muted samples before the live part, as they are, also when the live part is shorter than the taper or has samples of either sign. Each ramp has its defining shape. Gain control scales every sample by the target over the measure (mean square, triangularly weighted mean square, mean absolute value, median) of the window centred on it, cut at the ends of the trace, and computed from the samples before any is scaled.',
  'inputs', 'all lengths, numbers of muted samples, taper sizes, window sizes and sample values',
  'Tests compare a few traces with formulas; signs, short live parts, cut windows and small sizes are not sampled together.',
  'src/utils/signal_processing/taper.cc src/utils/signal_processing/Taper_function.cc src/utils/signal_processing/AGC.cc src/utils/signal_processing/Gain_function.cc', [('tapers', 'src/utils/signal_processing/taper.cc'), ('ramps', 'src/utils/signal_processing/Taper_function.cc'), ('windows', 'src/utils/signal_processing/AGC.cc'), ('gains', 'src/utils/signal_processing/Gain_function.cc')],
  'abstract execution with opaque ramps and gains for every length, muted part and taper or window size up to a bound, comparing the factor of every sample; the closed forms of ramps and gains are extracted from the code and compared with their definitions at chosen points',
  'windows and samples to scale are decided for all sizes up to the bound; closed forms are compared at points, up to single-precision rounding')

P('P36', 'Temporal filters attenuate what they are designed to attenuate',
  'A low-pass, high-pass, band-pass or band-stop filter passes the frequencies of its pass band and attenuates those of its stop band as its corners and orders say, for every sample rate. Filtering in time and in frequency give the same trace up to rounding.',
  'inputs', 'all corner frequencies, orders, sample rates and traces',
  'Tests compare a few filters with stored output; the response is a continuous function of four parameters.',
  'src/temporalfilter.cc include/ExSeisDat/PIOL/operations/temporalfilter.hh', [('filter design', 'src/temporalfilter.cc')],
  na='the response is a numerical property of floating-point polynomials, bilinear transforms and FFTs; no static argument in reach bounds it, and comparing formulas with the textbook would only compare text')

P('P37', 'Scaled coordinates come back within the resolution of their scale',
  'Coordinates that share a header scale are written with the scale that loses least, and what is read back differs from what was written by at most half a unit of that scale.',
  'inputs', 'all combinations of coordinates of one trace',
  'Tests use a handful of coordinates; the loss depends on the decimal expansion of all coordinates of the trace.',
  'src/segy_utils.cc src/Rule.cc src/param_utils.cc', [('choice of the scale', 'src/segy_utils.cc find_scalar')],
  na='the scale is chosen by comparing floating-point remainders of decimal shifts; the bound depends on rounding of runtime values, which interval domains over all doubles do not resolve (that the scale written is the one divided by is decided in P09)')

P('P38', 'Every EBCDIC header is recognised as EBCDIC and every ASCII one as ASCII',
  'The text of a file header is converted exactly when it is EBCDIC, whatever it says.',
  'inputs', 'all 3200-byte texts',
  'There are more texts than tests.',
  'src/utils/encoding/character_encoding.cc src/ReadSEGY.cc', [('recognition', 'src/utils/encoding/character_encoding.cc')],
  na='the encoding is guessed from the counts of printable characters in each reading; the guess is a heuristic with texts on both sides that it gets wrong, so there is no statement for all inputs to decide')

P('P39', 'The 4D matching pairs each trace with its nearest partner',
  'For two surveys spread over processes, the pairs found are those with the smallest total distance of sources and receivers, whatever the number of processes and the order of the traces.',
  'inputs schedules', 'all pairs of surveys, all distributions over processes',
  'Tests run the matching on one small pair of files.',
  'util/4d.hh util/4dcore.cc util/4dio.cc util/fourdbin.cc', [('matching', 'util/4dcore.cc')],
  na='which pair is nearest depends on floating-point distances of runtime values exchanged in data-dependent rounds between dynamically chosen processes; the one-sided access and its fields, which can be decided, are in P22')

P('P40', 'Memory use of an operation stays within the limit of its options',
  'Reading, sorting or processing a file needs no more memory on a process than its share of the headers and the configured buffer, whatever the size of the file.',
  'inputs configurations', 'all file sizes, numbers of processes and limits',
  'Tests use files that fit in memory many times over.',
  'src/Flow/Set.cc src/DataMPIIO.cc src/sort.cc', [('block sizes', 'src/Flow/Set.cc')],
  na='the number of live allocations at run time depends on allocator, container growth and runtime sizes; there is no documented bound per operation to compare a static sum with')
