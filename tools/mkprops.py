#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text stays readable)."""
import json
RCA="src/ReferenceCountedArray.h"; STR="src/String.h"; STC="src/String.cpp"; ARR="src/Array.h"
def P(id,title,statement,over,text,why,files,mech,observe):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
L=[
P("C01","A copy never changes when another handle is modified",
 "Copying, slicing or assigning a string or array yields an independent value: whatever later happens to one handle through the modifying interface (including growing its capacity, writing through its mutable iterators or element proxies, and failing half-way), every other handle keeps exactly the length and elements it had. Sharing of storage is never observable except as speed. (A mutable iterator, pointer or element reference is good only until its handle is next copied, hashed or modified; after an operation fails for lack of memory its own handle is valid, possibly emptied.)",
 ["inputs","histories"],"every pair of handles sharing storage (whole, sub-range, same object), every mutating operation and argument",
 "Tests check a few fixed strings; the guarantee ranges over every operation, every offset/length of the sharing slices and every capacity relation.",
 [RCA,STR,ARR],[("copy-on-write before any write to shared storage",RCA+" AboutToModify/COW"),("capacity growth",RCA+" reserve, "+STR+" reserve"),("mutable access",RCA+" begin/mdata/write/Cref/front/back")],["length/element accessors of every other handle"]),
P("C02","Container operations stay inside their storage",
 "For every string or array in a state reachable through the public interface, every operation with in-contract arguments reads and writes only inside live storage that belongs to its operands, never through a null handle, and leaves the object in a state for which the same holds again. Moved-from and emptied objects are valid empty containers.",
 ["inputs","histories"],"all sizes, offsets, capacities, positions and lengths, all argument aliasing (self, shared, distinct, empty)",
 "Out-of-bounds by one at an exact-capacity or offset boundary is silent in a normal run and needs a particular capacity/offset/length relation.",
 [RCA,STR,STC,ARR],[("representation invariant offset+length<=capacity",RCA),("capacity bookkeeping",RCA+" ArrayRef::reserve")],["every memory access"]),
P("C03","Shared storage is released exactly once, under any interleaving",
 "Handles to the same storage may be copied, modified and destroyed from different threads (each handle used by one thread at a time): the storage is freed exactly once, by the last handle to let go, no thread touches it after letting go of it, and nothing is leaked, including when an allocation fails. Operations on different handles do not race on any other data either.",
 ["schedules","histories","fault_sequences"],"every interleaving of counter updates by other handles between any two steps; every allocation failure point",
 "Unit tests are single threaded and never fail an allocation.",
 [RCA,STR],[("reference count protocol",RCA+" incRef/decRef/CheckDeallocRef/doDetach/COW"),("destructor",STR+" ~String")],["allocations/deallocations","reference counter"]),
P("C04","Insert, append, replace and resize compute the exact edited sequence",
 "Inserting, appending, prepending, replacing, resizing, assigning, constructing and concatenating produce exactly the mathematical result on the element sequence (prefix kept, edit applied once, suffix shifted or kept), for every position, count limit and source, including when the source is the object itself or shares its storage; const sources are unchanged.",
 ["inputs"],"all contents, positions, counts and aliasing between destination and source",
 "Tests use a handful of literals; errors show only at particular position/length/capacity/offset/aliasing combinations.",
 [RCA,STR,STC,ARR],[("shift right then copy",RCA+" insert"),("overwrite and extend",RCA+" replace"),("C-string variants",STC+" insert/replace")],["length and elements after the call"]),
P("C05","Slicing returns the documented sub-sequence for any start and length",
 "A substring/subarray request with any signed start and length returns: elements from start (negative counts from the end, clamped to the beginning; past-the-end gives empty), with -1 meaning to the end, other negative lengths dropping that many trailing elements (never fewer than none), and too-large lengths clamped. Advancing or shrinking a string or array by n drops exactly n elements from the front or back (all of them if n exceeds the length), and the source is unaffected.",
 ["inputs"],"all lengths and all 64-bit start/length arguments",
 "The argument space is 2^128; tests try a few dozen pairs on short strings.",
 [RCA,STR,ARR],[("slice",RCA+" slice"),("operator+=/-=/++/--",STR+", "+ARR)],["returned value"]),
P("C06","Checked positions either succeed or throw and change nothing",
 "Every position-checked operation (element access with at/charAt, insert, replace, searching from a position) throws out_of_range exactly when the position lies beyond what it documents, and in that case the object, its arguments and all other handles are left exactly as they were.",
 ["inputs"],"all positions and lengths, all operations and overloads",
 "Tests probe a few positions; off-by-one in a single overload or a side effect before the check goes unnoticed.",
 [RCA,STR,STC],[("validateIndex before any effect",RCA+" validateIndex")],["exception type","object state after the throw"]),
P("C07","Hash agrees with equality and is never stale",
 "The hash of a string or array is a function of its current elements only: equal containers hash equally regardless of history, sharing or offset, and after any modification (including through element references and mutable iterators obtained since the last hash query) the hash is that of the new contents.",
 ["histories","inputs"],"all contents, all histories of modifications interleaved with hash queries",
 "A missing invalidation is visible only when a hash was cached before one particular mutator runs.",
 [RCA,STR,ARR],[("cached hash cleared by mutators",RCA+" hash/my_hash")],["hash()","std::hash"]),
P("C08","Comparison is a consistent lexicographic total order",
 "Comparing strings with strings or C strings is exactly byte-wise unsigned lexicographic order (shorter prefix first; with a limit, on the first n bytes), all six relational operators agree with it, equality of strings and of arrays is element-wise equality, and comparing never reads past either operand.",
 ["inputs"],"all pairs of contents and lengths including embedded NUL and bytes >= 0x80",
 "Tests compare a few ASCII words; sign, embedded NUL, length-difference wrap need specific inputs.",
 [STC,STR,ARR],[("compare",STC+" String::compare"),("operators",STR),("equals",ARR)],["sign of result","reads"]),
P("C09","Search finds the first (or last) occurrence and nothing else",
 "find returns the distance from the starting position to the first occurrence of the character or substring at or after it, rfind the position of the last occurrence not before the given lower bound, case-insensitive variants do the same modulo case, and npos is returned exactly when there is none; an empty needle is found at 0 (find) and at length-1 (rfind).",
 ["inputs"],"all haystacks, needles, positions",
 "Needs needles that overlap themselves, sit at the boundary, or whose prefix recurs; tests use a few words.",
 [STC,STR,RCA],[("find/rfind",STC),("element find/rfind",RCA)],["return value"]),
P("C10","C-string views are complete and NUL-terminated",
 "The C-string view of any string is its exact bytes followed by a NUL, stays inside its storage, and taking it never changes the string's value or any other handle; duplicates, bounded copies and std::string conversions likewise yield exactly the string's bytes.",
 ["inputs","histories"],"all strings incl. slices of shared storage and exact-capacity buffers",
 "Requires a slice or an exact-capacity buffer at the moment of the call.",
 [STR,STC],[("c_str",STR+" c_str"),("dup/copy",STR+","+STC)],["returned pointer contents"]),
P("C11","Base64 encodes to the standard form and decoding inverts it",
 "For every byte string, base64 encoding yields the standard padded encoding over the chosen alphabet and decoding it with the same alphabet returns the original bytes; encoding and decoding any input whatsoever stay within the input and the documented output size.",
 ["inputs"],"all byte strings of all lengths, standard and custom alphabets, malformed decoder input",
 "Tests encode a few strings; table, padding and truncated-input errors need particular bytes or lengths.",
 ["src/base64.cpp","src/base64.h"],[("b64enc_buf/b64dec_buf","src/base64.cpp")],["returned string","buffer accesses"]),
P("C12","C-string helpers never overrun and report truncation exactly",
 "Bounded copy and bounded concatenation never write more than the stated size, never read the destination beyond it, always terminate when the size permits, copy the longest prefix that fits, and return the length they tried to create; the duplicating helpers return an exact (or exactly bounded) terminated copy.",
 ["inputs"],"all source/destination lengths and sizes, including 0, 1, exact fit and unterminated destination",
 "Boundary sizes times lengths are unbounded and an overrun by one is silent.",
 ["src/Cstrings.cpp"],[("strlcpy/strlcat/strldup/str_redup","src/Cstrings.cpp")],["destination bytes","return value"]),
P("C13","Atomic file replacement is all-or-nothing under any failure",
 "At every instant and for every failure of any system call (memory permitting, file names without NUL), the target name refers either to its previous contents or to the complete new file, which replaces it only after its data (and requested mode) were successfully flushed and closed; commit reports success iff the replacement happened. On failure, abort or destruction the temporary file is removed, its descriptor is closed exactly once, and nothing else is unlinked or closed.",
 ["fault_sequences","crash_points","histories"],"every outcome of every system call, crash after any call, every order of open/commit/abort/destruction",
 "The test opens, writes and commits once with no fault injection.",
 ["src/AtomicFile.cpp","src/AtomicFile.h"],[("commit ordering fchmod, fsync, close, rename","src/AtomicFile.cpp commit"),("abort/destructor","src/AtomicFile.cpp, AtomicFile.h")],["system-call trace","return values"]),
P("C14","A stream behaves as a byte sequence with one cursor",
 "Writing replaces or extends bytes exactly at the cursor and advances it past them; reading returns the next bytes up to the requested count or through the delimiter, whichever comes first, advances the cursor by exactly what was returned and never beyond the data; seeking and truncation move or cut exactly where requested, clamped to the valid range (0 to the capacity; seeking from the end counts back from the capacity; writing at a cursor beyond the data throws and changes nothing). Successive reads therefore return the contents exactly once and in order.",
 ["inputs","histories"],"all contents, cursor positions, counts, delimiters and sequences of operations",
 "Tests run a few scripted sequences.",
 ["src/Stream.cpp","src/Stream.h"],[("read/getline/puts/seek/truncate","src/Stream.cpp, src/Stream.h")],["returned strings","tell","contents"]),
P("C15","Saving and loading a stream preserves its bytes or reports failure",
 "Writing a stream to a file leaves the file with exactly the stream's bytes and reports success only then; loading a file makes the stream exactly the file's bytes with the cursor at the start, for every file size including empty; every system-call failure is reported (memory permitting, file names without NUL), and descriptors and mappings the operation opened are released on every path.",
 ["fault_sequences","inputs"],"all contents and sizes, every failure of open/seek/truncate/map/unmap",
 "The test writes one file successfully.",
 ["src/Stream.cpp"],[("loadFile/writeFile","src/Stream.cpp")],["file contents","return value","system-call trace"]),
P("C16","The hash table behaves as a finite map",
 "Insertion adds a key only if absent and reports whether it did, indexing creates or finds exactly that key, removal deletes exactly that key, lookups never create keys and return the stored (or a default) value, and size counts the distinct keys; keys and values are independent of the variables they were built from.",
 ["histories","inputs"],"all sequences of operations and all keys",
 "Tests run a few fixed sequences.",
 ["src/HashTable.h"],[("wrapper over the standard unordered map","src/HashTable.h")],["results and sizes"]),
P("C17","Script value conversions are exact",
 "Converting a native integer, floating-point number, truth value, string, list of strings or list of such lists to a script value yields exactly that number, text or list, for every value of every supported type, so converting it back returns the original; converting a script value to a native integer gives exactly that integer if it fits the target type and 0 if it does not fit or is no integer, never a wrapped or truncated number; texts and list elements are taken over byte for byte.",
 ["inputs"],"all values of each type, both directions, all script values including integers of any size",
 "Tests try a few values per type.",
 ["src/ScriptInterpTCL.h","src/ScriptInterpTCL.cpp"],[("conversion templates","src/ScriptInterpTCL.h")],["returned value or error"]),
P("C18","Script commands run only with acceptable arguments and never let errors escape",
 "A native command registered with the script interpreter is invoked only when the number of supplied arguments is within its declared minimum and maximum and then receives exactly those arguments; parameters not given are empty or 0; otherwise a usage error is returned without invoking it. Its result becomes the script result, any exception it throws becomes a script error (with the text thrown, if it is a string), and calling it under a name that is not registered (a qualified or renamed command) is a script error; the command may remove itself while it runs. Registering a name again replaces the earlier command and its limits, after deleting a command its name is an error and the others still run, and commands end with their interpreter.",
 ["inputs","histories"],"all argument counts and contents, all callbacks",
 "Tests register a few commands and call them with valid arguments.",
 ["src/ScriptInterpTCL.cpp","src/ScriptInterpTCLCallbacks.h"],[("command trampoline","src/ScriptInterpTCL.cpp")],["callback invocation","script result code"]),
P("C19","Splitting and joining partition the text exactly",
 "Splitting returns, in order, exactly the pieces between consecutive delimiters (skipping blanks before a piece when splitting on a single blank), at most the requested number (at least 1) with the remainder in the last; an empty piece after a trailing delimiter appears only when a limit is given; an empty or absent delimiter gives the whole text as one piece; taking one token removes exactly it and its delimiter from the source and returns it; joining concatenates the elements (quoted if asked) with the delimiter between them and nothing else.",
 ["inputs"],"all texts, delimiters, limits and arrays",
 "Tests use a few sentences.",
 [STC,ARR],[("split/newsplit",STC),("join",ARR)],["returned pieces"]),
P("C20","Substitution rewrites each non-overlapping match once, left to right",
 "Replacing a search text in a string yields the original with the leftmost non-overlapping occurrences (all, or the first limit of them) replaced, never rescanning inserted text, always terminating and leaving the original untouched (a negative limit means all, an empty search text changes nothing); applying a table does this for each entry in table order; repeating a string n >= 0 times yields exactly n concatenated copies; formatted construction yields the complete formatted text of any length.",
 ["inputs"],"all texts, search and replacement strings, limits, counts",
 "Tests use a few examples.",
 [STC],[("sub/subst/operator*/printf",STC)],["returned string"]),
P("C21","Destroying the last holder of a string wipes its whole buffer",
 "When the destructor of the last handle to a string's storage runs (and no other handle is being destroyed at the same time), every byte of the storage has been overwritten before it is returned to the allocator, regardless of the slice that handle viewed; while other handles remain, destruction leaves the bytes untouched.",
 ["inputs","histories"],"all capacities, offsets and lengths, shared or not",
 "Freed memory is not observed by any test.",
 [STR],[("cleanse before release",STR+" cleanse/~String")],["buffer bytes at deallocation"]),
P("C22","Elements of class type are constructed and destroyed exactly once",
 "In arrays of class-type elements, every element slot is constructed before it is read or assigned, destroyed exactly once when its storage is released, and never overwritten as raw memory while alive; element values follow the sequence semantics across growth, shifting and sharing.",
 ["histories","inputs"],"all sequences of growth, insertion, removal, resizing and sharing, for any element class",
 "A leaked or double-destroyed element is invisible unless the element counts its instances.",
 [RCA,ARR],[("uninitialized_fill/move on growth, destroy on release",RCA+" ArrayRef")],["constructor/destructor calls"]),
P("C23","Trimming removes exactly the edge characters it names",
 "Trimming removes all whitespace from both ends and nothing from the middle, chomping removes exactly one trailing line ending (LF, CR or CRLF), for every string including empty and all-blank ones; const forms leave the original unchanged.",
 ["inputs"],"all strings",
 "Tests use a few strings; empty, all-blank and high-bit bytes matter.",
 [STC,STR],[("trim/chomp",STC)],["resulting string"]),
P("C24","Linked script variables mirror the native variable",
 "Reading a script variable linked to a native variable gives the native variable's current value; writing it stores the converted value in the native variable (into a buffer: as much of the text as fits, always terminated, never beyond its size) and calls the registered hook once with the old and the new value; writing a read-only link is refused and changes nothing. Linking a name again or unlinking it removes every connection to the earlier variable, its buffer and its hook.",
 ["inputs","histories"],"all variable types and values, all script values, all buffer sizes, any earlier link of the same name",
 "Tests link a few variables once and write short values.",
 ["src/ScriptInterpTCL.h","src/ScriptInterpTCL.cpp"],[("variable traces","src/ScriptInterpTCL.h tcl_traceGet/tcl_traceSet/tcl_traceSetPtr, src/ScriptInterpTCL.cpp setupTraces/TraceGet/TraceSet")],["native variable","script variable","hook calls"]),
P("C25","Evaluating, loading and calling back run exactly the given script",
 "Evaluating a script runs exactly the given text (no more and no less, also if it is a slice) once, at global level, and returns its result, or the error information if it fails. Loading a file runs it exactly if its name ends in .tcl, and otherwise reports the wrong interpreter and runs nothing; a failure is reported together with its message and success as success. A callback made from a script value keeps its interpreter and command text, and calling it runs that command followed by exactly the given arguments, each as one literal word whatever characters it holds, and returns the result.",
 ["inputs"],"all script texts, file names, callback commands and arguments, success and failure of the script",
 "Tests evaluate a few scripts and never pass special characters to a callback.",
 ["src/ScriptInterpTCL.cpp","src/ScriptInterpTCL.h","src/ScriptInterp.h"],[("eval/loadScript/ScriptCallbackerTCL::call","src/ScriptInterpTCL.cpp")],["scripts run","returned text and code"]),
P("C26","Writing and reading strings through text streams keeps every character",
 "Writing a string to a standard output stream writes exactly its characters in order (including zero bytes) and leaves the string unchanged. Reading a word from an input stream skips the white space before it and stores exactly the next run of other characters, leaving what follows in the stream; reading a line stores exactly the characters up to the next line feed, which is taken from the stream but not stored. The earlier contents are replaced; reading from a failed stream or at the end of the input gives an empty string and leaves the stream failed. (Default stream flags.)",
 ["inputs","histories"],"all strings, all stream contents and positions, failed streams",
 "Tests write and read a few short words.",
 [STC,STR],[("operator<< / operator>> / getline",STC)],["stream contents and position","resulting string"]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in L:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(L))
