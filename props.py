"""The properties.  `python3 vf.py manifest` writes properties.jsonl and MANIFEST.json from this table and registry.py."""
def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['src/' + f for f in files], state=[dict(name=a, meaning=b, where='src/' + c) for a, b, c in state],
            mechanism=[dict(name=a, where='src/' + b) for a, b in mech], observe_at=list(observe), hook_needed=None))
RCA, STR, ARR = 'ReferenceCountedArray.h', 'String.h', 'Array.h'
PROPERTIES = [
P('C01', 'Copies are independent values even though buffers are shared',
  'Copying, slicing or taking a substring of a String or Array yields a value that never changes because of what is later done to any other object, and doing anything to it never changes any other object, although the objects share one buffer until one of them is written. This covers every mutator and every mutable accessor (indexing, iterators, mdata(), front(), back(), slices, reserve(), resize(), shift(), pop(), moving from, c_str() and destruction). The last owner to go away releases the buffer exactly once.',
  ['inputs', 'histories'], 'every sharing arrangement of up to three objects (copies, prefixes, middles, suffixes, of any length and capacity), every operation on any of them, every content',
  'The tests check rcount()/rptr() for a few fixed strings; the set of (sharing arrangement, offset, spare capacity, operation) combinations is never enumerated and a leak of a write into a sharer only shows for particular capacities.',
  [RCA, STR, ARR, 'String.cpp'], [('AboutToModify()/COW() before every write', RCA), ('isShared()', RCA), ('CheckDeallocRef()', RCA)],
  [('refs', 'number of owners of a buffer', RCA), ('offset/sublen', 'the window of the buffer an object shows', RCA)], ['value of every object after each operation', 'live heap blocks']),
P('C02', 'String editing has the semantics of editing a plain character sequence',
  'Every String editing operation (insert, replace, append, +=, -=, ++, --, resize, slice, substring, slice assignment, element assignment, clear, assignment, +, reserve, iterator and std::string forms) leaves exactly the value the same edit produces on a plain sequence of characters, whatever the content (embedded NULs included), length, spare capacity, offset or sharing of the buffer beforehand, and whether or not the argument aliases the receiver. A position past the end throws std::out_of_range and leaves the String unchanged. reserve() and capacity growth never alter the value.',
  ['inputs', 'histories'], 'all contents, all positions and counts, every way the receiver and argument came to be (fresh, spare, exactly full, offset, tail-cut, shared, grown, slice of the same buffer), sequences of operations',
  'The tests use a few literals with fresh buffers; offsets left by earlier trims, exactly full buffers, self-insertion and negative slice bounds are combinations no table of examples covers.',
  [RCA, STR, 'String.cpp'], [('insert()/replace()/append()', RCA), ('slice()', RCA), ('ArrayRef::reserve() shifting and growth', RCA), ('String::insert()/replace()', 'String.cpp')],
  [('offset', 'start of the window in the buffer', RCA), ('sublen', 'length of the window', RCA), ('size', 'capacity', RCA)], ['length() and every byte after each operation']),
P('C03', 'No memory error, leak or element lifetime error in any container operation',
  'No sequence of String or Array operations reads or writes outside the owned buffer, uses freed or never-initialised memory, frees anything twice or leaks. Every element object of an Array is constructed before it is used and destroyed exactly once, whatever mixture of growth, sharing, shifting, slicing, resizing, moving and clearing happened. Sizes that cannot be allocated throw instead of wrapping around.',
  ['inputs', 'histories'], 'sequences of operations on arrays of objects with observable lifetimes, all lengths and capacities within the bounds',
  'The tests are not run under a memory checker, and lifetime errors (an element constructed over a live one, a tail destroyed twice) pass every value assertion.',
  [RCA, ARR, STR], [('ArrayRef::reserve()/FreeBuf()', RCA), ('resize()', RCA), ('COW()', RCA)], [('size', 'how many elements of the buffer are constructed', RCA)], ['constructor/destructor balance per address', 'live heap blocks']),
P('C04', 'C-string views are NUL-terminated and show exactly the value',
  'c_str() and unary * return a pointer to the current characters followed by a NUL, dup() returns a fresh NUL-terminated copy, copy() writes exactly min(n, length) characters, and conversion to and from std::string preserves every character. None of them changes the value of the String or of any String sharing its buffer, nor reads or writes outside the buffer. It holds for substrings and tails of larger shared buffers, exactly full buffers and empty Strings.',
  ['inputs', 'histories'], 'all contents and lengths, every buffer state, sharing',
  'Whether the byte after the window happens to be NUL depends on the buffer history; tests only see fresh buffers where it always is.',
  [STR, 'String.cpp', RCA], [('c_str()', STR), ('String::reserve() terminator', STR), ('dup()/copy()', 'String.cpp')], [], ['bytes at c_str()[0..length]']),
P('C05', 'String comparison is a consistent total order on the character values',
  'compare(), ==, !=, <, <=, > and >= between Strings, and between a String and a C string, agree with comparing the two character sequences as unsigned bytes with a proper prefix ordered first, so they form a total order and agree with each other in both argument orders. compare(x, n) equals comparing the first n characters of both sides. The result depends only on the values, never on buffer sharing, spare capacity or bytes outside the window, and no byte past either operand is read.',
  ['inputs'], 'all pairs and triples of values within the length bounds, including embedded NUL and bytes above 127, all buffer states',
  'Antisymmetry, transitivity and agreement between the overloads quantify over pairs and triples of values; tests compare a handful of ASCII literals.',
  [STR, 'String.cpp'], [('compare() overloads', 'String.cpp'), ('relational operators', STR)], [], ['sign of compare()', 'operator results']),
P('C06', 'Hashes agree with equality and never go stale',
  'Equal Strings, and equal Arrays, have equal hash() and std::hash values no matter how the values were built, shared, sliced or edited. After any operation that changes a value, hash() is the hash a freshly built object with that value has, even if hash() had been called and cached before the change. Calling hash() changes nothing observable.',
  ['inputs', 'histories'], 'every editing operation after a cached hash, all contents, all buffer states',
  'A forgotten cache reset only shows for the one operation that forgot it and only when hash() was called just before.',
  [RCA, STR, ARR], [('my_hash reset in every mutator', RCA), ('hash()', RCA)], [('my_hash', 'cached hash, 0 when stale', RCA)], ['hash() against a freshly built equal object']),
P('C07', 'Searching finds exactly the first or last match',
  'find(x) returns the index of the first occurrence of a character, substring or element, find(x, pos) the distance from pos to the first occurrence at or after pos, rfind(x) the last occurrence, rfind(x, lpos) the last occurrence starting no earlier than lpos, and npos exactly when there is none; ifind() and rifind() do the same ignoring ASCII case. A start position past the end throws std::out_of_range. Bytes outside the String (earlier or later in a shared buffer) never take part in a match.',
  ['inputs'], 'all haystacks, needles and positions within the length bounds, all buffer states',
  'Off-by-one errors at the ends, overlapping partial matches and matches straddling the window end need particular contents; tests use one phrase.',
  [STR, 'String.cpp', RCA], [('_find()/rfind()/ifind()/rifind()', 'String.cpp'), ('find()/rfind() of an element', RCA)], [], ['returned index']),
P('C08', 'split, newsplit and join take strings apart and put them together losslessly',
  'split(delim) returns the pieces between successive delimiters in order with nothing lost, duplicated or altered (a trailing empty piece is dropped; for the space delimiter runs of spaces count as one and leading spaces are skipped), split(delim, limit) returns at most limit pieces with the unsplit remainder last, and newsplit() removes and returns the first token leaving the rest. join(delim) concatenates the elements with the delimiter between them (each in double quotes when quoted), so joining the split pieces gives back the original up to a trailing delimiter. The source string is never modified and no call fails to return.',
  ['inputs'], 'all texts, delimiters and limits within the length bounds, all buffer states',
  'Delimiters at the ends, adjacent or overlapping delimiters, limits equal to the piece count and tails of shared buffers are combinations that examples miss.',
  ['String.cpp', STR, ARR], [('split()', 'String.cpp'), ('newsplit()', 'String.cpp'), ('join()', ARR)], [], ['returned pieces and remaining string']),
P('C09', 'sub and subst replace exactly the non-overlapping occurrences',
  'sub(search, replacement, limit) returns the original with each non-overlapping occurrence of search, scanned left to right over the original text only, replaced, stopping after limit replacements when a limit is given, and leaves every other character, the receiver and the arguments unchanged. subst(map) applies such replacements for every key of the map. Replacement text is never rescanned by the same sub().',
  ['inputs'], 'all texts, search strings, replacements and limits within the length bounds, all buffer states and argument aliasing',
  'Overlapping matches, matches at both ends, replacement containing the search text and aliasing arguments need specific data.',
  ['String.cpp', 'HashTable.h'], [('sub()/subst()', 'String.cpp')], [], ['returned string']),
P('C10', 'trim, chomp, repetition and printf produce exactly the specified text',
  'trim() removes exactly the leading and trailing whitespace and nothing inside, chomp() removes one trailing newline and then one trailing carriage return, s * n is n copies of s, and String::printf() yields exactly the formatted text of any length. Each works for every content, length and buffer state and affects no other String.',
  ['inputs'], 'all contents within the length bounds including all-whitespace and bytes above 127; formatted lengths around the internal buffer size',
  'All-whitespace input, sharing, bytes above 127 and output lengths at the internal buffer boundary are outside the example tables.',
  ['String.cpp', STR], [('trim()/chomp()', 'String.cpp'), ('operator*()', 'String.cpp'), ('printf()', 'String.cpp')], [], ['returned string']),
P('C11', 'Array operations have the semantics of a plain sequence of elements',
  'Every Array operation (push_back, push_front, <<, >>, insert, replace, shift, pop, ++, --, +=, -=, +, resize, subarray, slice assignment, element assignment, clear, iterator ranges, initializer lists, equality) leaves and returns exactly what it does on a plain sequence, for element types with and without constructors, whatever the spare capacity, offset or sharing and even when the argument is an element or a part of the same Array. Equality holds exactly when lengths and all elements are equal. A position past the end throws std::out_of_range and leaves the Array unchanged.',
  ['inputs', 'histories'], 'sequences of operations over all lengths within the bounds, Array<int>, Array<String> and objects with observable lifetimes, all sharing',
  'Queue-like use leaves offsets behind; wrap-around of spare room, self-insertion and sharing combine in ways fixed examples do not reach.',
  [ARR, RCA], [('shift()/pop()', ARR), ('insert()/replace()', RCA), ('operator+=/-=/++/--', ARR), ('equals()', ARR)], [('offset', 'elements shifted off the front', RCA)], ['length() and every element']),
P('C12', 'HashTable is a map from keys to the last value stored',
  'After any sequence of insert, [] assignment, remove, clear, copy, move and swap, contains(), find(), getValue(), const [] and size() report exactly the key/value pairs a mathematical map would hold: insert() never overwrites and tells whether it stored, [] creates or overwrites, remove() tells whether the key was there, and looking up a missing key gives a default value without adding it. Iteration visits each pair exactly once. Copies are independent, and key equality is by value even when keys collide.',
  ['inputs', 'histories'], 'operation sequences over symbolic keys that may be equal, distinct or colliding, all values',
  'The tests use distinct keys in one order; collisions, repeated keys, and lookups right after removals quantify over histories.',
  ['HashTable.h', STR, RCA], [('insert()/remove()/getValue()', 'HashTable.h'), ('operator[]', 'HashTable.h'), ('hash() of String keys', RCA)], [], ['contains/getValue/size/iteration']),
P('C13', 'An in-memory Stream behaves as a byte file with a position',
  'puts() and << overwrite or extend the content at the position and advance it by the bytes written (a position past the content throws std::out_of_range and changes nothing), read(n) returns the next min(n, remaining) bytes, getline() and read(n, delim) return the bytes up to and including the next delimiter but never more than the limit, truncate() cuts at the position, peek() does not move, and seek() moves to the requested place (SEEK_END counts back from the capacity) clamped between 0 and the capacity. Reading everything back gives exactly what was written, with each byte returned once and in order. No call reads outside the content, whatever the position.',
  ['inputs', 'histories'], 'sequences of operations with all contents, sizes, delimiters and positions including past the end of the content',
  'Positions between length and capacity, delimiters at the size limit and overwrites that straddle the end are histories the tests do not contain.',
  ['Stream.h', 'Stream.cpp', STR], [('read()/getline()', 'Stream.cpp'), ('seek()', 'Stream.cpp'), ('puts()/truncate()', 'Stream.h')], [('pos', 'current position', 'Stream.h')], ['returned data, tell(), length(), content']),
P('C14', 'Stream file load and save are exact or report failure',
  'loadFile() that returns 0 leaves the Stream holding exactly the bytes of the file with the position at the start, and writeFile() that returns 0 leaves the file holding exactly the Stream content, for every content including empty and embedded NULs. They return 1 only when a system call failed, never 0 after a failure that kept the content from being exact, and on every outcome each descriptor they opened is closed, each mapping is unmapped and a caller-supplied descriptor stays open. writeFile() does not alter the Stream, and a file that cannot be opened leaves it unchanged. Loading hands every byte of the file to the virtual puts() with loading set, clears loading afterwards, and passes on what puts() throws after releasing everything.',
  ['inputs', 'fault_sequences'], 'every content within the bound and a failure of any system call at any point',
  'System call failures are never injected by the tests, and descriptor or mapping leaks are invisible to value assertions.',
  ['Stream.cpp', 'Stream.h'], [('loadFile()', 'Stream.cpp'), ('writeFile()', 'Stream.cpp')], [], ['system calls made, file content, return value']),
P('C15', 'AtomicFile replaces the target completely or not at all',
  'At every moment, including a crash between or inside any system calls, the target path holds either its previous content or the complete committed content; it changes only by commit(), which returns true exactly when the new file, with the requested mode and flushed to disk beforehand, has been put in place. abort(), destruction without commit and a failed commit leave the target untouched, remove the temporary file and close its descriptor. The temporary file lives in the directory of the target. AtomicFiles open at the same time, on one target or several, do not affect each other; the last commit stays.',
  ['crash_points', 'fault_sequences', 'histories'], 'every interleaving of open/write/commit/abort/destroy/reopen with a failure of any system call and a crash before or after any of them; all target names within the bound',
  'The tests check one successful commit and one abort; no system call ever fails and no crash is simulated.',
  ['AtomicFile.cpp', 'AtomicFile.h'], [('mkstemp in the target directory', 'AtomicFile.cpp'), ('fsync before rename', 'AtomicFile.cpp'), ('cleanup on failure', 'AtomicFile.cpp')], [('_fd', 'descriptor of the temporary file, -1 when closed', 'AtomicFile.h')], ['system call trace, state of target, temporary and descriptors']),
P('C16', 'base64 round-trips every byte string and never leaves its buffers',
  'Encoding yields standard padded base64 of length 4*ceil(n/3), and decoding the encoding returns the original bytes, for every input and any valid 64-character alphabet, through both the String and the buffer interfaces. Decoding arbitrary bytes of any length, including truncated or invalid input, stays inside the input and output buffers. The result depends on the input and the alphabet only. The reported lengths are exact and the returned C buffers are NUL-terminated.',
  ['inputs'], 'all byte strings within the length bounds, for encode, decode and decode of arbitrary input',
  'Round-tripping quantifies over all inputs and residues modulo 3; malformed input is not tested at all.',
  ['base64.cpp', 'base64.h'], [('b64enc_buf()', 'base64.cpp'), ('b64dec_buf()', 'base64.cpp')], [], ['output bytes and lengths']),
P('C17', 'The C string helpers never overflow and always terminate',
  'strlcpy() and strlcat() write at most the given size including the NUL, always terminate when there is room, and return the length they tried to create, so truncation is detectable; the result is the longest prefix that fits. strdup() and strldup() return fresh NUL-terminated copies of all, or the first maxlen, characters, and str_redup() replaces the target with a copy or frees it when given NULL. None reads past the end of its arguments. When memory runs out, the allocating helpers (and calloc(), realloc()) end the process with a failure status instead of returning without memory.',
  ['inputs'], 'all strings and sizes within the bounds, including size 0 and an unterminated destination',
  'They have no tests; boundary sizes are where such functions fail.',
  ['Cstrings.cpp', 'Cstrings.h'], [('strlcpy()/strlcat()', 'Cstrings.cpp'), ('strdup()/strldup()/str_redup()', 'Cstrings.cpp')], [], ['destination bytes, return value']),
P('C18', 'Values cross the Tcl boundary unchanged or become the documented zero',
  'Converting a C++ value (integers of every width, bool, double, String with embedded NULs, arrays and nested arrays of Strings) to a Tcl object represents exactly that value, and converting a Tcl object to a C++ type yields its value when it is representable in the type and zero or empty otherwise. Converting to Tcl and back is the identity. No conversion changes the source object or leaks.',
  ['inputs'], 'all 2^8..2^64 values of each integer type, all strings and lists within the bounds',
  'Tests convert a few small positive numbers; sign, width and overflow boundaries are not exercised.',
  ['ScriptInterpTCL.h', 'ScriptInterpTCL.cpp'], [('c_to_tcl_cast<>::from()', 'ScriptInterpTCL.h'), ('tcl_to_c_cast<>::from()', 'ScriptInterpTCL.cpp')], [], ['Tcl object value, C++ value']),
P('C19', 'A Tcl command reaches the right C++ function with the right arguments',
  'Invoking a created command calls exactly the function it was created with, once, with the given arguments converted in order and defaults for omitted optional ones, and makes its return value the Tcl result; too few or too many arguments produce an error mentioning the usage and no call. An exception thrown by the function becomes a Tcl error (carrying the text when a String was thrown) and never escapes into Tcl. A deleted command is no longer registered, and creating a command again replaces the previous function.',
  ['inputs', 'histories'], 'all argument counts around the minimum and maximum, all argument values, create/delete/recreate histories, exceptions of any type',
  'Tests call each command with the right arguments once; argument-count boundaries, re-creation and exceptions are histories they do not contain.',
  ['ScriptInterpTCL.cpp', 'ScriptInterpTCL.h', 'ScriptInterpTCLCallbacks.h'], [('_createCommand_callback()', 'ScriptInterpTCL.cpp'), ('real_call()', 'ScriptInterpTCLCallbacks.h'), ('ScriptCmdTCL registration', 'ScriptInterpTCL.h')], [('CmdHandlerData', 'command name to handler', 'ScriptInterpTCL.h')], ['calls made, Tcl result and return code']),
P('C20', 'Linked variables stay equal on both sides and read-only ones cannot be written',
  'Reading a linked variable from Tcl gives the current C++ value, and writing it from Tcl stores the converted value in the C++ variable and then calls the hook, if any, exactly once with the old and new values. A variable linked as const cannot be changed from Tcl. Writing a fixed-size char buffer never writes beyond its size, always leaves it terminated, and never reads beyond the new value.',
  ['inputs', 'histories'], 'all values of every linkable type, all buffer sizes and new-value lengths within the bounds, with and without hook',
  'Tests write short values into large buffers; lengths equal to, below and above the buffer size are what decides memory safety.',
  ['ScriptInterpTCL.h', 'ScriptInterpTCL.cpp'], [('tcl_traceGet/tcl_traceSet/tcl_traceSetPtr', 'ScriptInterpTCL.h'), ('TraceSetRO()', 'ScriptInterpTCL.cpp')], [('trace_ptrs', 'descriptors of linked buffers', 'ScriptInterpTCL.h')], ['C++ variable, Tcl variable, hook calls']),
P('C21', 'Objects sharing a buffer are safe to use from different threads',
  'Threads that each use only their own String or Array objects may concurrently copy, read, modify, slice and destroy them although the objects share a buffer internally: every thread sees exactly the values it would see alone, the buffer is released exactly once after its last use and never leaked, and a buffer whose Strings are destroyed by different threads is wiped by the last of them. This holds for every interleaving of their steps.',
  ['schedules', 'inputs'], 'every interleaving (within the preemption bound) of two threads each running one or two operations on objects sharing a buffer',
  'The test suite is single-threaded; the failures need a preemption between a reference count check and the use of the buffer.',
  [RCA, STR], [('atomic reference count', RCA), ('COW() keeping the old buffer alive while copying', RCA), ('CheckDeallocRef()', RCA)], [('refs', 'atomic owner count', RCA)], ['values seen by each thread, memory safety, live heap blocks']),
P('C22', 'Moving transfers the value and leaves a usable object',
  'Move construction, move assignment, swap and rvalue overloads give the destination exactly the value the source had and release what the destination held before. The moved-from String, Array, HashTable or Stream can be read, assigned, appended to, copied and destroyed like any other object and never affects the destination. Moving an object onto itself keeps its value.',
  ['inputs', 'histories'], 'every move form followed by every operation on source and destination, all buffer states',
  'Use after move is exercised by the tests for one or two operations only.',
  [RCA, STR, ARR, 'HashTable.h', 'Stream.h'], [('move constructor/assignment', RCA), ('swap()', RCA)], [], ['values of source and destination']),
P('C23', 'Destroying the last owner of a String wipes its buffer before releasing it',
  'When the last String owning a buffer is destroyed, every byte of that buffer is overwritten before the memory is released, whatever the offset, length and capacity. A buffer still owned by another String is not touched. Nothing outside the buffer is written.',
  ['inputs', 'histories'], 'all contents, lengths, capacities, offsets and sharing within the bounds',
  'Released memory cannot be inspected by the unit tests.',
  [STR, RCA], [('~String() and cleanse()', STR)], [('cleanse_ctr', 'overwrite pattern generator', STR)], ['content of each block at the moment it is released']),
P('C24', 'Failed allocations are reported and damage nothing',
  'When an allocation fails during any String, Array, HashTable or Stream operation, the failure reaches the caller as std::bad_alloc, nothing leaks, no memory error occurs, and every other object keeps its value. The object operated on stays valid: it can be read, reassigned and destroyed, and an edit of a String or of an Array of plain values or Strings that fails this way (assignments of lists and std::strings apart) leaves its value unchanged. A Stream operation that fails this way leaves content and position unchanged (file operations apart).',
  ['fault_sequences', 'inputs', 'histories'], 'failure of any single or multiple allocation within every operation, all sharing arrangements',
  'Allocation never fails in the tests.',
  [RCA, STR, ARR], [('reserve() allocating before changing state', RCA), ('COW()', RCA)], [], ['exception type, live heap blocks, values of other objects']),
P('C25', 'Scripts, script files and script callbacks run as given and report their outcome',
  'eval() runs exactly the given script text once and returns its result, or the error description starting with the error message, and an error does not affect later scripts. loadScript() loads exactly the files whose name ends in .tcl, reports success, failure (with the error text) or a name meant for another interpreter, and leaves the result text alone unless it failed. Calling a script callback invokes its command once with each parameter as one word holding exactly the bytes given, whatever characters they contain, and returns the result.',
  ['inputs', 'histories'], 'all result texts, script texts, file names and parameter texts within the bounds; failing, deleted and re-created callbacks',
  'Tests call callbacks with plain words; parameters with spaces, brackets, dollar signs, quotes, newlines or no characters at all decide whether a parameter becomes several words or is executed as script.',
  ['ScriptInterpTCL.cpp', 'ScriptInterpTCL.h'], [('ScriptInterpTCL::eval()', 'ScriptInterpTCL.cpp'), ('ScriptInterpTCL::loadScript()', 'ScriptInterpTCL.cpp'), ('ScriptCallbackerTCL::call()', 'ScriptInterpTCL.h')], [], ['returned text and code, words received by commands']),
P('C26', 'Strings are read from and written to iostreams exactly',
  'For every input, however it is cut into pieces by the stream buffer: is >> s skips whitespace, reads the next whitespace-delimited word and leaves what follows it on the stream; getline(is, s) reads up to and including the next newline, which is not stored; NUL and 8-bit characters are ordinary characters; a last word or line that ends with the stream is still delivered successfully, and the stream is in the failed state exactly when there was nothing left to read (s is empty then). os << s, for an lvalue, a copy or a temporary, whether or not its buffer is shared, writes exactly the characters of s, and a stream that accepts only part of them reports it. No String but the one read into changes.',
  ['inputs', 'histories'], 'all stream contents, piece sizes, output capacities and internal states within the bounds; sequences of word and line reads',
  'No unit test covers these operators, and the interesting cases (input ending without a newline, whitespace runs, NUL and 8-bit bytes, full outputs, shared temporaries) depend on the content.',
  ['String.cpp', 'String.h'], [('operator>>(istream&, String&)', 'String.cpp'), ('getline(istream&, String&)', 'String.cpp'), ('operator<<(ostream&, const String&)', 'String.h')], [], ['String value, stream state, characters consumed and written']),
]
