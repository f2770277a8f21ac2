#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': hook}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'A message is written exactly when its debug object and one of its channels is on',
  'A Dout statement writes its message if and only if, in the calling thread, the debug object is on and at least one of the channels it names is on (dc::always counts as always on); the label shown is that of the left-most channel that is on. When the message is not written its operands are not evaluated at all, and when it is written they are evaluated exactly once. on() and off() are nesting counters for channels and for debug objects (n calls of off() are undone by n calls of on()), and force_on()/restore() return exactly to the state before, also when nested.',
  ['histories'], 'All sequences of on/off/force_on/restore on a debug object and several channels, interleaved with Dout statements naming any subset of those channels.',
  'dc.cpp and do.cpp run a few fixed sequences; they are not even built here. The on/off state is a set of counters, so only exhaustive sequences cover the counter combinations.',
  ['include/libcwd/macro_Libcwd_macros.h', 'include/libcwd/DebugObject.inl.h', 'include/libcwd/Channel.inl.h', 'include/libcwd/ChannelSet.inl.h', 'src/debug.cxx'],
  [('off counters tested with < 0 before any operand is evaluated', 'LibcwDoutScopeBegin in include/libcwd/macro_Libcwd_macros.h'),
   ('channel set bit-or', 'include/libcwd/ChannelSet.inl.h'), ('Channel::on/off/force_on/restore', 'src/debug.cxx, include/libcwd/Channel.inl.h')],
  ['bytes written to the ostream of the debug object', 'is_on() of channels and debug objects', 'side effects of operands'])

p('C02', 'Every output line has the documented layout for every combination of settings',
  'A line consists of margin, label padded to the widest registered label, marker, indentation, the data verbatim, and a suffix that is by default a newline. Each control flag changes exactly the field it names: nolabel/noprefix/blank_margin/blank_label/blank_marker suppress or blank their field, nonewline omits the newline, error inserts ": NAME (text)" for the errno at the time of the statement, flush flushes the stream after the line, cerr redirects that line to std::cerr, wait prints "(type return)" and waits for a line or the end of standard input. Colors set on the debug object are emitted at the start and end of each line and nowhere else, and errno is not changed by a Dout statement.',
  ['inputs', 'configurations'], 'All subsets of the control flags, all combinations of margin, marker, label width, indentation, color settings and a set of payloads including empty, long, multi-line and NUL-containing data.',
  'cf.cpp tries a handful of flag combinations and is not built here.',
  ['src/debug.cxx', 'include/libcwd/control_flag.h', 'include/libcwd/ChannelSet.inl.h', 'include/libcwd/DebugObject.inl.h'],
  [('DebugObject thread specific start()/finish()', 'src/debug.cxx'), ('OutputState::print_prefix / Buffer', 'src/debug.cxx')],
  ['bytes and flushes seen by the streambuf of the debug object'])

p('C03', 'Nested and continued output is composed in execution order and never lost',
  'Output produced while the operands of another Dout statement are being evaluated appears complete, before the enclosing message, and indented four deeper. A message started with continued_cf is extended by dc::continued and ended by dc::finish; when other output of the same thread intervenes, the part already shown is closed with "<unfinished>" and resumed with the same label, margin and indentation and "<continued> ". Nothing written is lost, duplicated or reordered, a switched-off continued message swallows exactly its own continuations, each part of a message, and everything written in the middle of it, goes to the stream (also std::cerr) of that message, and the indentation afterwards is what it was before.',
  ['programs', 'histories'], 'All programs up to a size bound built from plain, nested, continued, continued-and-flushed, dc::continued, dc::finish and channel on/off operations.',
  'continued.cpp has a fixed list of scenarios and is not built here; the behaviour is a stack machine whose states multiply with nesting.',
  ['src/debug.cxx', 'include/private_DebugStack.inl.h', 'include/libcwd/ContinuedChannel.inl.h', 'include/libcwd/DebugObject_ThreadSpecificData.h'],
  [('stack of output states, continued stack, unfinished bookkeeping', 'src/debug.cxx')],
  ['bytes written to the ostream of the debug object'])

p('C04', 'Lines of different threads are never mixed',
  'When several threads write to the same debug object with a mutex set, every piece of a line is written to the stream contiguously while that mutex is held, so that each completed line appears exactly once, unmixed, and the lines of one thread appear in its program order. A line left incomplete by one thread (continued_cf or nonewline_cf with a flush) is closed with "<unfinished>" or "<no newline>" before a line of another thread starts, and later continued on a new line with its prefix. No interleaving deadlocks.',
  ['schedules'], 'All interleavings, up to a preemption bound, of small multi-threaded programs using plain, nested, continued, no-newline and flushed messages.',
  'threaded_debug_output.cpp lets the operating system pick one schedule per run and is not built here.',
  ['src/debug.cxx', 'include/libcwd/private/LockInterface.h', 'include/libcwd/private/BufferStream.h', 'src/threading.cxx'],
  [('lock around Buffer::writeto', 'src/debug.cxx'), ('newlineless/unfinished bookkeeping per debug object', 'src/debug.cxx, include/libcwd/DebugObject.h')],
  ['sequence of writes to the streambuf with the identity of the writing thread and the state of the mutex'])

p('C05', 'Switching the output stream or mutex of a debug object is safe at any moment',
  'After set_ostream returns, no thread writes to the previous stream any more and every later line goes to the new stream; get_ostream returns the stream set last and has_mutex tells whether a mutex was set. A line that is being written while another thread switches appears complete on exactly one of the streams, and is written while holding the mutex that belongs to that stream. set_ostream(stream) without a mutex keeps the mutex in use. get_ostream and has_mutex may be called at any time, also by a thread that holds the mutex; no interleaving deadlocks.',
  ['schedules', 'histories'], 'All interleavings, up to a preemption bound, of writers with a thread that switches stream and/or mutex; all sequences of the set/get functions.',
  'No existing test switches streams under concurrency.',
  ['src/debug.cxx', 'include/libcwd/set_ostream.inl.h', 'include/libcwd/DebugObject.h', 'include/libcwd/private/LockInterface.h'],
  [('OstreamState mutex, then user mutex', 'src/debug.cxx'), ('waiting for writers on the old mutex', 'src/debug.cxx')],
  ['which stream receives which bytes, and the mutex held at that time', 'get_ostream(), has_mutex()'])

p('C06', 'A fatal message is printed and ends the process exactly once',
  'DoutFatal never returns: with dc::fatal the process ends with exit status 180 and with dc::core by SIGABRT, for every combination of control flags and whether the debug object and the channels are on or off. The complete message with its label is printed first. When several threads raise fatal messages at the same time exactly one of them terminates the process and the others never continue past their statement, under every schedule.',
  ['schedules', 'inputs'], 'All combinations of channel, control flags and on/off states; all interleavings up to a preemption bound of two or three threads raising fatal errors while others write.',
  'concurrent_core_dump_threads.cpp samples schedules and is not built here; exit paths cannot be explored by in-process unit tests.',
  ['src/debug.cxx', 'include/libcwd/FatalChannel.inl.h', 'include/libcwd/core_dump.h'],
  [('claim of termination ownership', 'src/debug.cxx'), ('fatal_finish, core_dump', 'src/debug.cxx')],
  ['exit status or signal of the process', 'bytes written before it ended'])

p('C07', 'The debug state of a thread is its own',
  'The on/off state of every channel and debug object, the margin, marker, indentation, colors and location format of a thread are changed only by that thread; no operation of another thread, including starting and ending, changes what this thread prints. A newly started thread has all debug objects and all channels off and default formatting, irrespective of how many threads existed before.',
  ['histories', 'schedules'], 'All interleavings at operation granularity of short operation sequences by two or three threads, including thread creation and exit.',
  'No existing test compares the state of two threads exhaustively.',
  ['src/threading.cxx', 'include/libcwd/private/ThreadSpecificData.h', 'include/libcwd/DebugObject_ThreadSpecificData.h', 'src/debug.cxx'],
  [('thread_local pointer to per-thread data, per-object slots', 'src/threading.cxx, src/debug.cxx')],
  ['is_on(), margin(), marker(), get_indent(), output of each thread'])

p('C08', 'A thread can end at any point of its output without harming other threads',
  'A thread may end at any moment outside a Dout statement, also while it has an incomplete line (continued_cf or nonewline_cf, flushed or not) pending, in whatever order threads end and other threads start. Other threads can keep writing: nothing released is accessed, no output of the others is lost or corrupted, and a following line of another thread starts on a new line.',
  ['histories', 'schedules'], 'All histories up to a bound of message kinds followed by thread exit, interleaved with writes by other threads.',
  'No existing test ends a thread with an incomplete line.',
  ['src/debug.cxx', 'src/threading.cxx', 'include/libcwd/DebugObject.h'],
  [('per-thread data deletion and debug object bookkeeping that points to it', 'src/threading.cxx, src/debug.cxx')],
  ['memory errors', 'bytes written to the stream'])

p('C09', 'Channels are found, listed and aligned independent of registration order',
  'For every order in which channels are registered, list_channels_on prints every registered visible channel once, sorted by label, with its on/off state in the calling thread, and ForAllDebugChannels visits exactly those. find_channel finds a channel by case-insensitive prefix of its label and returns the last match in alphabetical order, or nothing. All labels are padded to the same width, that of the longest label, in all output after registration. Registering a channel while other threads list, visit or look up channels is safe: they see every channel that was registered before they started, once and sorted.',
  ['configurations', 'inputs'], 'All registration orders of small sets of labels (with common prefixes and different lengths) and all lookup strings up to a length; all interleavings up to a preemption bound of threads that register, list and look up.',
  'dc.cpp registers one fixed set and is not built here.',
  ['src/debug.cxx', 'include/libcwd/Channel.h', 'include/libcwd/LibcwdForAllDebugChannels.h'],
  [('sorted channel set, label padding', 'DebugChannels in src/debug.cxx')],
  ['output of list_channels_on', 'find_channel()', 'labels in output lines'])

p('C10', 'The rcfile decides the channel states as documented',
  'After reading the rcfile each channel is on or off exactly as the sequence of channels_default, channels_on, channels_off and channels_toggle lines says, with masks, comments, and white space handled as documented, and all other keywords take effect. The file is looked for under the documented names and directories in order; an override file named in the environment replaces the channels turned on before it and accumulates afterwards. A malformed file terminates the program with exit status 180 and a message naming the file and line.',
  ['inputs', 'configurations'], 'All rcfiles up to a number of lines from an alphabet of keywords, masks and separators, with and without an override file, and all combinations of existing files in the search path.',
  'No existing test reads an rcfile.',
  ['src/utils/rcfile.cxx', 'include/libcwd/RcFile.h', 'src/environ.cxx'],
  [('RcFile::process_channels / read', 'src/utils/rcfile.cxx')],
  ['is_on() of every channel after read_rcfile()', 'exit status and message', 'rcfile accessors'])

p('C11', 'Channel masks match as glob patterns, ignoring case',
  'A mask of an rcfile channel list selects exactly the channels whose complete label matches the mask, where * stands for any sequence of characters (also empty) and all other characters match themselves, ignoring case. Matching terminates for every mask and label without reading outside of them.',
  ['inputs'], 'All masks and labels up to a length over an alphabet with two letters in both cases and the asterisk.',
  'No existing test covers masks.',
  ['src/utils/match.cxx', 'include/match.h', 'src/utils/rcfile.cxx'],
  [('backtracking matcher', 'src/utils/match.cxx')],
  ['channels selected by a mask'])

p('C12', 'Margin, marker and indentation behave like strings, stacks and a counter',
  'assign, append, prepend and read-out of margin and marker behave like those of a string with the full contents, of any length and including NUL bytes, and push/pop of margin and marker restore the previous contents exactly, in last-in first-out order. set/inc/dec/get_indent behave as an integer; Indent and Mark scope objects restore indentation and marker when they end, in every nesting. What was set is exactly what the next line shows.',
  ['histories'], 'All operation sequences up to a depth over strings of several lengths.',
  'do.cpp performs one fixed sequence and is not built here.',
  ['include/libcwd/DebugString.h', 'include/libcwd/DebugString.inl.h', 'src/debug.cxx', 'include/libcwd/debug.h'],
  [('DebugString capacity handling', 'src/debug.cxx, include/libcwd/DebugString.inl.h'), ('push/pop margin/marker stack', 'src/debug.cxx')],
  ['c_str()/size() of margin and marker', 'prefix of output lines', 'memory errors'])

p('C13', 'Debug objects are independent of each other',
  'Each debug object has its own on/off state, stream, mutex, margin, marker, indentation, continued-message state and always_flush setting; no operation on one changes the output of another, including when the operands of a Dout statement of one object write to another object. ForAllDebugObjects visits every debug object exactly once.',
  ['histories', 'configurations'], 'All operation sequences up to a depth over three debug objects, including nesting one object in the other.',
  'do.cpp uses two objects in one fixed sequence and is not built here.',
  ['src/debug.cxx', 'include/libcwd/DebugObject.h', 'include/libcwd/LibcwdForAllDebugObjects.h'],
  [('per-object per-thread slots', 'src/debug.cxx, include/libcwd/private/ThreadSpecificData.h')],
  ['bytes written to each stream', 'flushes of each stream'])

p('C14', 'Escaped printing of characters and buffers is exact and unambiguous',
  'char2str and buf2str print every printable ASCII character except backslash as itself and every other byte as its escape: \\a \\b \\t \\n \\v \\f \\r \\e \\\\ or \\x with two upper-case hexadecimal digits. Every byte of the given buffer is printed exactly once, in order, irrespective of NULs or signedness of char, and stream formatting state is not left changed.',
  ['inputs'], 'All bytes, all pairs of bytes, and all short buffers over a byte alphabet of representatives, with several stream format states.',
  'No existing test covers this.',
  ['src/utils/char2str.cxx', 'src/utils/buf2str.cxx', 'include/libcwd/char2str.h', 'include/libcwd/buf2str.h'],
  [('printable test and escape table', 'src/utils/char2str.cxx')],
  ['text inserted in an ostream'])

p('C15', 'Error numbers are shown with their own name',
  'strerrno(n) is the symbolic name of the Linux error number n for every n that has one, and a fixed "UNKNOWN ERROR" text for every other value including negative and huge ones, without reading outside its table. error_cf shows that name and the system text of the errno at the moment the statement is entered.',
  ['inputs'], 'All integers in a wide window around the table, and boundary values of int; every error number through error_cf.',
  'No existing test covers this.',
  ['src/strerrno.cxx', 'include/libcwd/strerrno.h', 'src/debug.cxx'],
  [('name table', 'src/strerrno.cxx')],
  ['strerrno()', 'suffix of an error_cf line'])

p('C16', 'Transferable-ownership pointers delete their object exactly once',
  'In every sequence of construction, copying, assignment, release, reset, locking and destruction of lockable_auto_ptr objects that share one or more heap objects, every object is deleted exactly once, by the pointer that owns it, and never while an owner still exists; released objects are never deleted. is_owner(), get() and strict_owner() report the state accordingly, and a locked owner keeps ownership when copied from.',
  ['histories'], 'All operation sequences up to a depth over three pointers and several objects, for single-object and array forms.',
  'lockable_auto_ptr.cpp runs a fixed list of about twenty operations.',
  ['include/libcwd/lockable_auto_ptr.h'],
  [('owner and locked flags moved on copy and assignment', 'include/libcwd/lockable_auto_ptr.h')],
  ['destructor calls', 'is_owner(), get(), strict_owner()'])

p('C17', 'Demangling handles any input; what does not decode is returned unchanged',
  'demangle_symbol, demangle_type and their std::string counterparts terminate without reading outside the input for every string, append to the output and never change what was there, give the same result for the same input, and append input that matches no production of the grammar documented in cwd_demangle.h unchanged. A null pointer gives "(null)" where documented.',
  ['inputs'], 'All strings up to a length over an alphabet of significant characters, and all truncations and single-character edits of a corpus of mangled names.',
  'demangler.cpp has a fixed list of names.',
  ['src/demangle.cxx', 'include/cwd_demangle.h', 'include/libcwd/demangle.h'],
  [('recursive descent session with failure propagation', 'include/cwd_demangle.h'), ('fallback to the input', 'src/demangle.cxx')],
  ['output string, memory errors, running time'])

p('C18', 'Valid mangled names are demangled to the declaration they encode',
  'For every C++ symbol name and type in the subset of the Itanium ABI that is documented in cwd_demangle.h the demangled text is the declaration that was mangled: names, template arguments, substitutions, qualifiers, pointers, references, arrays, function and member pointers, operators, literals and special names. Back-references and repeated components always resolve to the component the ABI says they denote. Literals of type double and float are written with the value they have, within one unit of the 17th and 8th digit.',
  ['programs', 'inputs'], 'All types and symbols up to a size generated by an independent mangler over a grammar of names, templates, qualifiers and function types.',
  'demangler.cpp has a fixed list of names; the space of nested substitutions is combinatorial.',
  ['src/demangle.cxx', 'include/cwd_demangle.h'],
  [('substitution table and qualifier list decoding', 'include/cwd_demangle.h')],
  ['output of demangle_symbol and demangle_type'])

p('C19', 'type_info_of describes exactly the type it is asked for',
  'type_info_of<T>() and type_info_of(expression) give, for every type T, its demangled name including top-level qualifiers and references, the mangled name, the size of the type and, for pointers, the size of what is pointed to (0 when that has none). Two uses give the same description exactly when the types are the same, and an unknown type is recognisable as such.',
  ['programs'], 'All types up to a nesting depth over a set of type constructors (pointer, reference, const, volatile, array, function, member pointer, template, enum, class).',
  'type_info.cpp checks a fixed list of types.',
  ['include/libcwd/type_info.h', 'src/type_info.cxx'],
  [('name extraction from a mangled helper, size traits', 'src/type_info.cxx, include/libcwd/type_info.h')],
  ['demangled_name(), name(), size(), ref_size()'])

p('C20', 'Overlapping symbol ranges resolve to the best symbol at every address',
  'For every set of symbol ranges of an object file, each address that lies in at least one range is attributed to exactly one symbol that covers it: one known from debug information rather than from the symbol table, and among those of the same kind the one with the smallest extent. Addresses outside all ranges have no symbol; the outcome does not depend on the order in which the symbols are added, except among exactly equal candidates.',
  ['inputs', 'histories'], 'All sets of up to four ranges over a small address space, in all insertion orders, with all kinds.',
  'symbol_range_overlaps.cpp checks a few hand-picked overlaps and cannot be linked here.',
  ['include/dwarf_symbol_ranges.h', 'src/dwarf.cxx'],
  [('splitting and trimming on insertion', 'include/dwarf_symbol_ranges.h')],
  ['symbol found for every address'])

p('C21', 'Addresses resolve in exactly the loaded objects after any dlopen history',
  'After any sequence of dlopen and dlclose calls an address inside a shared object that is currently mapped is attributed to that object and its symbols, and an address of an object that is no longer mapped is not attributed to it. dlopen and dlclose return what the system functions return. Opening the same object repeatedly, with any flags, and objects that depend on each other, make no difference. A lookup leaves errno as it was.',
  ['histories'], 'All sequences of dlopen (several flag combinations) and dlclose up to a depth over a family of shared objects with dependencies.',
  'dlopen.cpp and location_loading_fixture.cpp run one load/unload sequence and are not built here.',
  ['src/dwarf.cxx'],
  [('dlopen/dlclose wrappers with reference counts', 'src/dwarf.cxx'), ('registry of PT_LOAD segments', 'ObjectFileRegistry in src/dwarf.cxx')],
  ['Location objects for addresses in each shared object', 'return values'])

p('C22', 'A Location names the function, file and line of every code address',
  'For every instruction address of a loaded object with debug information, Location reports the object file, the mangled name of the function whose code it is, and the source file and line of the line table row that covers the address. An address without line information still yields the symbol that covers it, and an address outside all loaded objects is reported as unknown.',
  ['inputs', 'programs'], 'Every address of the code of fixture objects (C and C++, DWARF 4 and 5, inlined, static, split sections, with and without debug information), compared with an independent reading of the line table and symbol table.',
  'location_*.cpp look up a few addresses each and are not built here.',
  ['src/dwarf.cxx', 'src/location.cxx', 'include/libcwd/Location.h'],
  [('symbol range lookup and line table lookup', 'src/dwarf.cxx'), ('Location::pc_location', 'src/location.cxx')],
  ['accessors and printed form of Location'])

p('C23', 'Location objects are values that own their path exactly once',
  'Copying, assigning, clearing, re-initialising and destroying Location objects in any order keeps every object that was given a location reporting that same location as long as the owner of the path exists, and releases the path exactly once, never while its owner still refers to it. A cleared or default object reports not known and can be printed, copied and reused.',
  ['histories'], 'All operation sequences up to a depth over three Location objects and several addresses (known, symbol only, unknown).',
  'No existing test copies and clears Location objects in sequence.',
  ['src/location.cxx', 'include/libcwd/Location.h', 'include/libcwd/Location.inl.h', 'include/libcwd/lockable_auto_ptr.h'],
  [('path held in a lockable_auto_ptr', 'include/libcwd/Location.h')],
  ['accessors of Location, memory errors'])

p('C24', 'Concurrent lookups and (un)loading give every thread the right answer',
  'When several threads look up locations in the same objects for the first time at the same time, each gets the same answer as when alone and symbols of an object are loaded once. When a shared object is opened or closed by one or more threads meanwhile, lookups in other objects are unaffected, and after all threads are done the set of known objects is exactly the set of loaded objects. No schedule deadlocks, crashes or races.',
  ['schedules'], 'All interleavings, up to a preemption bound, of two or three threads performing lookups, dlopen and dlclose.',
  'No existing test has concurrent lookups under a controlled schedule.',
  ['src/dwarf.cxx'],
  [('read lock, upgrade with retry, write lock', 'src/dwarf.cxx'), ('dlopen record map', 'src/dwarf.cxx')],
  ['lookup results per thread', 'data races, deadlocks'])

p('C25', 'Threads can start using the library at the same time',
  'Threads that use the library for the first time concurrently, with or without init_thread in any of its modes, all end up initialised exactly as when they start one after the other: their channels are on as the mode says (rcfile, copy of main, off) and their margin shows their name. No schedule deadlocks, races on library state, or initialises anything twice.',
  ['schedules', 'configurations'], 'All interleavings, up to a preemption bound, of two or three starting threads, in every initialisation mode.',
  'No existing test controls the schedule of thread start.',
  ['src/init_functions.cxx', 'src/threading.cxx', 'src/debug.cxx', 'src/type_info.cxx'],
  [('lazy creation of thread specific data', 'src/threading.cxx'), ('init_thread', 'src/init_functions.cxx')],
  ['on/off state and margin per thread', 'data races, deadlocks'])

p('C26', 'The library may be used before its own globals are constructed',
  'Constructors of global objects in any translation unit may use debug output, channels, locations, demangling and type information, irrespective of the order in which the globals of the program and of the library are constructed or destroyed (using libcw_do other than in Dout before its constructor requires a call to libcwd::initialize()). Nothing crashes, output is produced exactly when the object and channel are on, and channels that were registered are still registered after start-up, once.',
  ['configurations'], 'All orders of construction of the library translation units and user translation units (link orders), with each kind of use in the user globals.',
  'location_from_global_object.cpp covers one order and is not built here.',
  ['src/debug.cxx', 'src/threading.cxx', 'src/dwarf.cxx', 'include/libcwd/Channel.h'],
  [('lazy idempotent initialisation', 'src/debug.cxx'), ('constructors that must not reset', 'include/libcwd/Channel.h, include/libcwd/DebugObject.h')],
  ['output and exit status of programs linked in every order'])

p('C27', 'attach_gdb starts the configured debugger for this process and waits for it',
  'attach_gdb runs the configured terminal command with the configured gdb, the pid and the executable of the calling process and a command file that breaks at the caller, and returns only after the debugger has attached. When the command cannot be started or ends before attaching, the program terminates with the documented fatal message; too long or empty settings are rejected and never overflow.',
  ['fault_sequences', 'inputs'], 'All sequences of environment answers (fork failure, terminal ending with exit code or signal, interrupted waits, debugger attaching after n polls) up to a bound, and settings of all lengths around the limits.',
  'No existing test covers attach_gdb.',
  ['src/utils/attach_gdb.cxx', 'src/utils/rcfile.cxx'],
  [('fork/system/poll loop', 'src/utils/attach_gdb.cxx')],
  ['command line passed to the shell', 'exit status, messages', 'contents of gdb.cmds'])

p('C28', 'Without CWDEBUG the macros vanish, except fatal ones',
  'In a translation unit compiled without CWDEBUG, Dout, Debug and the ForAll macros generate no code and never evaluate their arguments, in any statement context. DoutFatal prints its message to the standard error stream and ends the program unsuccessfully.',
  ['programs'], 'All macro uses in a set of statement contexts (if/else without braces, loops, switch, single statement, comma arguments).',
  'nodebug_output.cpp checks one use and is not built here.',
  ['nodebug.h', 'include/libcwd/debug.h'],
  [('empty macro definitions', 'nodebug.h')],
  ['side effects, exit status, standard error'])

p('C29', 'Reference-counted objects are deleted exactly once, after the last user',
  'An object managed by the intrusive reference count base class is deleted exactly once, by whichever thread drops the last reference, and never earlier; inhibiting deletion counts as a reference, and allowing it again deletes the object at once when it was the last. This holds for every interleaving of concurrent copies and releases.',
  ['schedules', 'histories'], 'All interleavings, up to a preemption bound, and all sequences up to a depth of copy, release, inhibit and allow by up to three threads.',
  'No existing test covers it.',
  ['include/utils/AIRefCount.h'],
  [('atomic counter', 'include/utils/AIRefCount.h')],
  ['destructor calls', 'unique()'])

p('C30', 'What is written at start-up is decided by environment and limits only',
  'Before main libcwd writes nothing to the default stream but a warning with the hard limit of the core size, exactly when there is a limit that is not zero, and, when LIBCWD_PRINT_LOADING is set, the object files that are loaded, each once; LIBCWD_NO_STARTUP_MSGS suppresses all of it. With LIBCWD_PRINT_LOADING every later dlopen and dlclose reports what it adds and removes, irrespective of whether libcw_do and ELFUTILS are on, and without changing that; without it that is only reported when both are on. The core size is raised to its hard limit. main_reached() returns exactly when the version and the configuration of the library are those of the headers, and otherwise ends the program with a fatal message that tells which of the two differs.',
  ['configurations', 'histories'], 'All combinations of the environment variables, limits, orders of construction and kinds of first use, followed by all histories up to a depth of dlopen, dlclose and switching on and off; all configurations and versions of the library.',
  'No existing test looks at what is written before main; the result depends on the environment of the process.',
  ['src/environ.cxx', 'src/debug.cxx', 'src/dwarf.cxx', 'include/libcwd/config.h.in'],
  [('process_environment_variables', 'src/environ.cxx'), ('ForceLoadingDebugOutput', 'src/dwarf.cxx'), ('ST_initialize_globals', 'src/debug.cxx'), ('main_reached', 'include/libcwd/config.h.in')],
  ['standard error of a new process', 'RLIMIT_CORE', 'exit status'])

p('C31', 'A debug macro is one statement that only depends on its switches',
  'With CWDEBUG, every use of Dout, LibcwDout, Debug, LibcwDebug, the ForAll macros and DoutFatal is a single statement in any context. A Dout evaluates its control flags exactly once when its debug object is on, and otherwise not at all, and then its arguments, exactly once and in order, when one of its channels is on; otherwise it has no effect. Names in its arguments mean what they mean at that place, whatever names are in scope there; channels are looked up in the namespace of the application, or of the library that passes its own, and the message goes to the debug object that was passed. Each message starts with the default formatting (boolalpha) and with the inserters of LIBCWD_USING_OSTREAM_PRELUDE. DoutEntering writes its message if its channel is on, and indents until its scope is left, however that happens.',
  ['programs', 'configurations'], 'All statements with a macro in a nesting, up to a depth, of statement contexts, under all values of the conditions in it and of the switches of the debug objects and channels.',
  'Tests use the macros in a handful of contexts, with local variables that happen not to clash.',
  ['include/libcwd/macro_Libcwd_macros.h', 'include/libcwd/debug.h', 'include/libcwd/LibcwdForAllDebugChannels.h', 'include/libcwd/LibcwdForAllDebugObjects.h', 'include/libcwd/ChannelSet.inl.h'],
  [('LibcwDoutScopeBegin', 'include/libcwd/macro_Libcwd_macros.h'), ('DoutEntering, Indent', 'include/libcwd/debug.h')],
  ['side effects and messages, in order', 'switches and indentation afterwards'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
