DEFAULTS = dict(quick=dict(max_time=400, max_steps=3000000, max_viol=6), thorough=dict(max_time=3000, max_steps=10000000, max_viol=12), assumptions=[])
def E(*names, **k): return {n: dict(dict(reach=['done']), **k) for n in names}
FS = {k: 'vfs_' + k for k in 'open creat close lseek pread read pwrite write ftruncate fstat stat access mmap munmap msync fsync fchmod chmod rename link unlink dup mkstemp mkostemp'.split()}
FS.update({k: 'vfs_' + k for k in 'open64 lseek64 ftruncate64 mmap64 fdatasync remove lstat fstat64 mkstemp64'.split()})
TCL = dict(defs=['-DUSE_SCRIPT_TCL'], repo_defs=['-DUSE_SCRIPT_TCL'], exclude=[], stubs=['tclstub.cpp'], stublibs=['-ltcl8.6'], redefine={'Tcl_CreateInterp': 'vft_CreateInterp', 'Tcl_EvalFile': 'vft_EvalFile'})
BIG = dict(quick=dict(max_steps=40000000), thorough=dict(max_steps=40000000))
PROPS = {
 'C01': dict(harness={'cow.cpp': E('cow_string', 'cow_history', 'cow_uses'), 'cowarr.cpp': E('cow_array_long', 'cow_array_string', 'cow_array_obj'), 'huge.cpp': E('huge_cow', **BIG), 'hugearr.cpp': E('huge_cow_array', **BIG)}, bounds='Strings of length 0-3 (4) and arrays of length 1-3 with all contents, buffers exactly full, with spare room or cut at both ends, hash cached or not; up to 3 objects sharing a buffer whole or in part; one operation from all 61/66 on one of them, histories of 2 (3) operations out of 12 (16), every read-only use; one edit of Strings of 300..65537 bytes and of arrays of up to 1025 elements, shared in five states.', outside='Not covered: Longer sharing histories and more than three owners.'),
 'C02': dict(harness={'ops.cpp': E('string_ops', reach=['done','oor']), 'ops2.cpp': E('string_pairs'), 'ops3.cpp': E('string_history'), 'opsbig.cpp': E('string_big'), 'huge.cpp': E('huge_edit', **BIG)}, bounds='One operation from all 62 (C strings inside the String itself included) on Strings of length 0-3 (thorough 4) in 10 internal states, every position incl. two huge ones, arguments of length 0-4 in 4 alias states; pairs of operations from 3 (6) states; histories of 4 (5) out of 16 operations on two Strings that come to share buffers; one operation on lengths 15..257 (..512); all bytes symbolic; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle (one editing operation each).', outside='Not covered: Lengths above 2^31, negative slice starts in slice assignment (documented @todo).'),
 'C03': dict(harness={'arr.cpp': E('array_long', 'array_string', 'array_obj'), 'arr2.cpp': E('array_pairs_obj', 'array_pairs_string', 'array_big_obj'), 'ops.cpp': E('string_ops'), 'ops2.cpp': E('string_pairs'), 'ops3.cpp': E('string_history'), 'arr3.cpp': E('array_history_obj', 'array_history_string'), 'opsbig.cpp': E('string_big'), 'views.cpp': E('views_small', 'views_big', 'views_cstr'), 'search.cpp': E('search_self'), 'split.cpp': E('split_alias', 'split_big', 'join_pieces'), 'subst.cpp': E('sub_alias', 'sub_big'), 'text.cpp': E('trim_text', 'chomp_text', 'repeat_text'), 'moves.cpp': E('move_string', 'move_array_obj'), 'huge.cpp': E('huge_edit', 'huge_views', 'huge_split', 'huge_sub', 'huge_repeat', 'huge_move', **BIG), 'hugearr.cpp': E('huge_array_long', 'huge_array_string', **BIG)}, only=r'released|leak|lifetime|refused', bounds='The explorations of C01, C02, C04, C07-C11 and C22 with every load, store, free and element lifetime checked; sizes up to the largest size_t.', outside='Not covered: Elements whose default constructor or copy throws inside a reallocation.'),
 'C04': dict(harness={'views.cpp': E('views_small', 'views_big', 'views_cstr'), 'huge.cpp': E('huge_views', 'huge_cstr', **BIG)}, bounds='Strings of length 0-8 (12) in 10 states with all contents, lengths 15..128 in every state, all copy sizes; C strings of length 0-12 (30); long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle.', outside='Not covered: None beyond the length bound.'),
 'C05': dict(harness={'cmp.cpp': E('cmp_pairs', 'cmp_same_buffer', 'cmp_cstr', 'cmp_big'), 'huge.cpp': E('huge_cmp', **BIG)}, bounds='All pairs of Strings of length 0-3 (4) in several states, prefixes and overlapping parts of one buffer, all C strings of length 0-3, all n, lengths 15..257 with one symbolic difference; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle.', outside='Not covered: Lengths whose difference exceeds an int.'),
 'C06': dict(harness={'hash.cpp': E('hash_string', 'hash_array_long', 'hash_array_string', 'hash_big'), 'ops3.cpp': E('hash_history'), 'huge.cpp': E('huge_hash', **BIG)}, bounds='Every editing operation after a cached hash on Strings and Arrays of length 0-3 (4), all contents, all states; histories of 3 (4) operations; lengths 15..65; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle (last byte).', outside='Not covered: None beyond the length bound.'),
 'C07': dict(harness={'search.cpp': E('search_small', 'search_self', 'search_big'), 'huge.cpp': E('huge_find', **BIG)}, bounds='Haystacks of length 0-6 (7), needles 0-3, all contents, positions, 6 states; needles that are parts of the haystack; haystacks of 15..64 with a symbolic window; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle.', outside='Not covered: The fallback search that is compiled only where memmem() is missing.'),
 'C08': dict(harness={'split.cpp': E('split_text', 'split_alias', 'split_big', 'newsplit_text', 'join_pieces', 'join_big'), 'huge.cpp': E('huge_split', **BIG)}, bounds='Texts of length 0-8 (10), delimiters of length 0-3, all contents and limits 1..5 and none, 4 states; delimiters that are parts of the text; newsplit on texts of length 0-7 (10) in 10 states; longer texts (..40) with a symbolic part; arrays of 0-3 pieces of length 0-2; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle, many pieces.', outside='Not covered: limit 0.'),
 'C09': dict(harness={'subst.cpp': E('sub_text', 'sub_alias', 'sub_big', 'subst_map', 'subst_order'), 'huge.cpp': E('huge_sub', **BIG)}, bounds='Texts of length 0-7 (8), search 0-3 (4), replacement 0-3, all contents, limits -1..3, 4 states; arguments that are the receiver or parts of it; maps of up to 3 entries that may interact, in any order of application; longer texts with a symbolic part; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle.', outside='Not covered: The order in which subst() applies several entries.'),
 'C10': dict(harness={'text.cpp': E('trim_text', 'trim_big', 'chomp_text', 'repeat_text', 'printf_short') | E('printf_long', **BIG), 'huge.cpp': E('huge_trim', 'huge_repeat', **BIG)}, bounds='trim and chomp: all contents of length 0-10 (14) in 10 states, longer whitespace runs; repetition 0-9, 12-33 of length 0-4; formatted lengths 0..7, and 127..65537 around every power of two; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle.', outside='Not covered: Negative repetition counts; formatting of anything but %s, %d, %c (vsnprintf is modelled).'),
 'C11': dict(harness={'arr.cpp': E('array_long', 'array_string', 'array_obj', reach=['done', 'oor']), 'arr2.cpp': E('array_pairs_long', 'array_pairs_string', 'array_pairs_obj', 'array_big_long', 'array_big_obj'), 'arr3.cpp': E('array_history_long', 'array_history_string', 'array_history_obj'), 'hugearr.cpp': E('huge_array_long', 'huge_array_string', 'huge_array_find', **BIG)}, bounds='One operation from all 66 on arrays of length 0-3 (4) of long, String and a lifetime-tracked object in 8 states with arguments in 4 alias states; pairs of operations from length 2; histories of 4 (5; String elements 3 (4)) out of 17 operations on two arrays that come to share buffers; one operation on lengths 15..63 (128); arrays of 100..4097 (65537) elements.', outside='Not covered: Elements whose copy throws.'),
 'C12': dict(harness={'hasht.cpp': E('map_collide', 'map_long', 'map_string', 'map_grow', 'map_list', 'map_history'), 'hugearr.cpp': E('huge_map', 'huge_map_string', **BIG)}, bounds='Sequences of 3 (4) operations out of 18 on symbolic keys that all collide, of 2 (3) on long and String keys chosen to share buckets or not, of 4 (5) out of 8 basic operations on two tables, growth to 20 (60) entries; maps of up to 300 (600) entries.', outside='Not covered: Symbolic String keys whose hash is symbolic.'),
 'C13': dict(harness={'stream.cpp': E('stream_ops', 'stream_seq', 'stream_lines', 'stream_big', 'stream_history'), 'hugearr.cpp': E('huge_stream', 'huge_lines', **BIG)}, bounds='One operation from every position of streams of length 0-3 (4); sequences of 2 (3) operations with all arguments and of 4 (5) with few; line reading; lengths around the block size; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle, many lines.', outside='Not covered: Positions beyond int.'),
 'C14': dict(harness={'streamfile.cpp': dict(E('load_name', 'load_fd', 'load_bad_fd', 'save_name', 'save_fd', 'round_trip', 'file_big', 'file_names'), load_oom=dict(reach=['done', 'oom']), load_hook=dict(reach=['done', 'refused'])), 'hugefile.cpp': E('huge_file', **BIG)}, redefine=FS, bounds='Contents of length 0-6 (12), with one or two failures at any system call, names and descriptors; names of 1 to 1000 characters, also as parts of longer Strings; subclasses whose puts() transforms or throws; lengths around the block size with a symbolic window; one or two allocation failures; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle.', outside='Not covered: Files changed by others while being mapped; short or deferred write errors that the kernel reports only through msync.'),
 'C15': dict(harness={'atomic.cpp': dict(E('abort_or_drop', 'reuse', 'two_files'), commit_once=dict(reach=['committed', 'failed', 'noopen']), long_name=dict(reach=['committed', 'failed']), commit_faults=dict(reach=['committed', 'failed']))}, redefine=FS, bounds='Target names of several shapes and with directories of up to 1023 and file names of up to 200 characters, contents of 0-3 (4) bytes written in up to two pieces, every single failure and every pair of failures of system calls, a crash at every point between and inside calls, open/abort/commit/destroy histories of up to 4 (5) on one object; two objects at once on one or two targets.', outside='Not covered: What the disk does after fsync; file names holding NUL; copying an AtomicFile.'),
 'C16': dict(harness={'b64.cpp': E('b64_encode', 'b64_round', 'b64_any', 'b64_unpadded', 'b64_long', 'b64_same') | E('b64_huge', **BIG)}, bounds='All inputs of 0-15 (30) bytes for encoding, 0-9 (14) for the round trip, all 0-11 (14) bytes for decoding, four alphabets (all rotations of the standard one in the thorough tier) incl. 8-bit characters; longer inputs with a symbolic window; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle.', outside='Not covered: malloc failure.'),
 'C17': dict(redefine={'exit': 'vfs_exit', 'malloc': 'vfs_malloc', 'calloc': 'vfs_calloc', 'realloc': 'vfs_realloc'}, harness={'cstr.cpp': dict(E('c_strlcpy', 'c_strlcat', 'c_strdup', 'c_strldup', 'c_redup', 'c_redup_self', 'c_alloc'), c_oom=dict(reach=['done', 'exit'])) | E('c_huge', **BIG)}, bounds='All strings of length 0-9 (12), sizes 0..12 (20), unterminated destinations, aliasing of the old and new string; allocation failure; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle.', outside='Not covered: overlapping source and destination.'),
 'C23': dict(harness={'cleanse.cpp': E('wipe_string', 'wipe_shared', 'wipe_inside', 'wipe_big') | E('wipe_huge', **BIG)}, bounds='Strings of length 0-6 (10) in 10 states, with owners going away in every order, inside arrays and containers, lengths 15..257; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle.', outside='Not covered: Wiping by reallocation (growth releases the old buffer as it is), and compilers that remove the wipe.'),
 'C24': dict(harness={'alloc.cpp': E('oom_string', 'oom_array_long', 'oom_array_string', 'oom_array_obj', 'oom_text', 'oom_table', 'oom_stream', reach=['done', 'oom']), 'hugeoom.cpp': E('oom_huge_string', 'oom_huge_array', 'oom_huge_table', 'oom_huge_stream', reach=['done', 'oom'], **BIG)}, bounds='One or two allocation failures at any point of every String, Array, HashTable and Stream operation on values of length 0-2 (Streams 0-3) in sharing states; one or two failures in an operation on Strings and Streams of 300..65536 bytes, arrays of 100..1025 and tables of 60..140 elements.', outside='Not covered: Failures inside libc, base64 and Tcl.'),
 'C22': dict(harness={'moves.cpp': E('move_string', 'move_array_long', 'move_array_string', 'move_array_obj', 'move_table', 'move_stream'), 'huge.cpp': E('huge_move', **BIG)}, bounds='Every move form from 10/8 states of length 0-3 (4) followed by one of 8-13 uses of the source and the destination, with and without a cached hash; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle.', outside='Not covered: Longer histories after the move.'),
 'C18': dict(TCL, harness={'tclconv.cpp': dict(E('tcl_to_int', 'tcl_from_int', 'tcl_real_bool', 'tcl_string', 'tcl_list', 'tcl_nested'), tcl_from_text=dict(reach=['done', 'int']), tcl_list_text=dict(reach=['done', 'bad'])), 'hugetcl.cpp': E('huge_tcl_string', 'huge_tcl_list', **BIG)}, bounds='All values of the eight integer types, of double (NaN excluded) and bool, both ways; Tcl integers up to 2^64 and beyond; number texts of up to 3 (4) bytes; Strings of 0-5 (7) bytes in 10 states; lists of up to 4 elements and nested lists; list texts of up to 4 (5) bytes; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle; lists of up to 1025 elements.', outside='Not covered: decimal fractions, inf/nan and long decimal literals as text. The Tcl library itself is a model (lib/tclstub.cpp, over the real tcl.h types); sampled paths and every counterexample also run on the real libtcl 8.6.'),
 'C19': dict(TCL, harness={'tclcmd.cpp': dict(E('cmd_throw', 'cmd_history', 'cmd_interps', 'cmd_nested', 'cmd_names'), cmd_args=dict(reach=['done', 'arity', 'called'])), 'hugetcl.cpp': dict(E('huge_cmd', 'huge_cmds', **BIG), cmd_many=dict(reach=['done', 'arity', 'called']))}, bounds='Eight signatures, 0-4 arguments, all argument values (texts of 0-2 bytes, full-width integers, doubles), plain, qualified and renamed invocation; all exception kinds with texts of 0-5 bytes; create/delete/rename/call histories of 5 (6) steps; two interpreters, 3 (4) steps; functions that delete, replace or call commands; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle; 40 (140) commands at once; a function of eight parameters, called with 0-10 arguments.', outside='Not covered: signatures with more than three parameters; interpreters deleted by a script. The Tcl library itself is a model (lib/tclstub.cpp, over the real tcl.h types); sampled paths and every counterexample also run on the real libtcl 8.6.'),
 'C20': dict(TCL, harness={'tcllink.cpp': E('link_int', 'link_string', 'link_real_bool', 'link_buffer', 'link_cstr', 'link_history', 'link_interps', 'link_hooks', 'link_names', 'link_list'), 'hugetcl.cpp': E('huge_link', 'huge_link_buffer', 'huge_links', **BIG)}, bounds='All values of eight integer types, double and bool; Strings of 0-3 bytes in 10 states; buffers of 1-6 (7) bytes set to values of 0-7 (8) bytes; names plain, qualified and aliased, of 1 to 255 characters, as parts of longer Strings and naming array elements; arrays of 0-2 Strings and arrays of such arrays; link/relink/unlink/write histories of 5 steps; two interpreters; hooks that link and unlink; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle; 40 (140) variables at once.', outside='Not covered: scripts that unset a linked variable, whole arrays, hooks that throw, unterminated buffers. The Tcl library itself is a model (lib/tclstub.cpp, over the real tcl.h types); sampled paths and every counterexample also run on the real libtcl 8.6.'),
 'C25': dict(TCL, harness={'tcleval.cpp': dict(E('eval_result', 'callback_params', 'callback_life'), eval_text=dict(reach=['done', 'ok', 'error']), load_names=dict(reach=['done', 'tcl', 'other'])), 'hugetcl.cpp': E('huge_eval', 'huge_load', 'huge_callback', **BIG)}, bounds='Scripts with results and errors of 0-5 (8) bytes in several buffer states, all ASCII script texts of up to 3 (4) bytes alone and as arguments; file names of 0-7 (9) bytes and around .tcl; up to 3 parameters of up to 3 arbitrary bytes, with and without a command prefix; callback histories of 3 steps; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle; up to 300 parameters.', outside='Not covered: backslash sequences in scripts, scripts that return from an enclosing procedure; what a loaded file does. The Tcl library itself is a model (lib/tclstub.cpp, over the real tcl.h types); sampled paths and every counterexample also run on the real libtcl 8.6.'),
 'C21': dict(threads=True, preempt=3, harness={'threads.cpp': dict(E('thr_string', 'thr_string2', 'thr_string3', 'thr_array_long', 'thr_mixed', 'thr_elem', 'thr_elem_hash', 'thr_elem_cstr', 'thr_wipe', thorough=dict(preempt=4)), **E('thr_array_string', quick=dict(preempt=2), thorough=dict(preempt=3)), **E('thr_lib', quick=dict(preempt=1), thorough=dict(preempt=2)))}, bounds='Two threads with one or two operations each (every String and Array<long>/Array<String> operation against 8 (14) representative ones), three threads with one operation each; objects sharing a buffer of 3 elements, whole or sliced, with and without a further owner; Strings shared with Array elements, HashTable values and Streams; every interleaving with at most 3 preemptions (2 for Array<String>; 4 and 3 in the thorough tier) besides the switches at thread ends. Threads are switched at atomic operations only, which loses nothing because every pair of conflicting accesses not ordered by happens-before is itself reported.', outside='Not covered: more preemptions, more threads, values that a relaxed or acquire/release load could return besides the latest one, reusing one object from two threads without synchronisation.'),
 'C26': dict(defs=['-UNDEBUG'], repo_defs=['-UNDEBUG'], symdefs=['-include', 'noextern.h'], harness={'textio.cpp': E('read_words', 'read_words3', 'read_lines', 'read_mixed', 'write_text') | E('read_huge', 'read_many', 'write_huge', **BIG)}, bounds='Inputs of 0-8 (9) bytes, any content, arriving at once or in pieces of one or two characters, up to 4 reads; Strings of length 0-6 (8) in 10 states, two writes to an output of capacity 0-9, buffered or not; long values of 255..65537 bytes around every power-of-two size, with symbolic bytes at both ends and in the middle; 300 (1100) lines.', outside='Not covered: field widths, noskipws, locales other than C, exceptions() masks.'),
}
