#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

B="mopaq/src/builder.rs"; A="mopaq/src/archive.rs"; F="storm-ffi/src/lib.rs"
p("C01","Round-trip fidelity of every built archive",
 "Every archive the builder reports as built can be opened, and every file that was added to it reads back, under its name, as exactly the bytes that were added. This holds for every format version, sector size, lossless compression method, encryption mode, checksum setting, table option, listfile option and file size, and however the operating system splits, shortens or interrupts individual reads and writes.",
 ["inputs","configurations","fault_sequences"],"all file sets and contents x all builder settings x all sequences of short / interrupted I/O",
 "The tests round-trip a few hand-picked files with one setting varied at a time, on a file system whose reads and writes are never short or interrupted.",
 [B,A,"mopaq/src/compression/compress.rs","mopaq/src/compression/decompress.rs","mopaq/src/crypto/encryption.rs","mopaq/src/tables/block.rs"],
 [("sector splitting, compression, encryption on write",B+" write_file"),("single-unit and sectored read",A+" read_file, read_sectored_file")],
 ["ArchiveBuilder::build","Archive::open","Archive::read_file"])
p("C02","Exact name resolution",
 "In every archive built by the library, looking a name up finds a file exactly when a file of that name (compared ignoring ASCII case and slash direction) was added, and then reports that file's own size and storage attributes; a name never added is reported as not found and never yields another file's data. Adding the same name twice in the same language is refused.",
 ["inputs","configurations"],"all sets of names (including colliding slots, full probe chains, many files, languages) x all versions and table options x all looked-up names",
 "Tests look up a few present names in small archives; wrong hits of the hashed and bit-packed tables only appear for particular names, table sizes and load factors.",
 ["mopaq/src/tables/hash.rs","mopaq/src/tables/het.rs","mopaq/src/tables/bet.rs",B,A],
 [("open-addressing hash table",B+" add_to_hash_table; tables/hash.rs find_file"),("extended tables",B+" create_het_table_with_hash_table, create_bet_table; tables/het.rs, bet.rs")],
 ["Archive::find_file","Archive::read_file"])
p("C03","Listing fidelity",
 "For every archive built with a generated listfile, listing returns exactly the names that were added plus the listfile itself, each once and with its true size (for names a listfile line can express: no line breaks or ';', not starting with '#', no blanks at the ends); without a listfile, enumerating all entries still yields exactly one entry per stored file with the true sizes. A read fault during listing yields an error or the full list, never a shortened or altered one.",
 ["inputs","configurations","fault_sequences"],"all file sets x settings x read-fault positions during open and listing",
 "Tests list small fault-free archives; a swallowed read error that silently shortens the list needs a fault at one particular read.",
 [A,B,"mopaq/src/special_files/listfile.rs"],
 [("listfile generation",B+" prepare_listfile"),("listfile parsing and table enumeration",A+" list, list_all; special_files/listfile.rs")],
 ["Archive::list","Archive::list_all","Archive::list_with_hashes"])
p("C04","Crash atomicity of building",
 "At every moment of a build - including after the process is killed or the machine loses power at any point - the destination path holds either exactly what it held before or the complete new archive, never a partial, empty or mixed file. After the crash a new build to the same path succeeds.",
 ["crash_points","schedules"],"every crash point between two file-system operations or inside a write x every subset of unsynced writes that power loss may drop or tear x previous destination absent, archive or foreign file",
 "A unit test cannot kill the process between two system calls or lose cached writes; none tries.",
 [B],[("temporary file in the destination directory, then rename",B+" build")],["destination path after restart"])
p("C05","Honest outcome of building under I/O failure",
 "If any system call fails during a build (full disk, I/O error, unreadable or vanished source, refused create or rename), the build either returns an error, leaving the destination exactly as it was and no stray files behind, or returns success with a complete archive holding exactly the added files. A retry once the fault is gone succeeds.",
 ["fault_sequences","inputs"],"every position and kind of failing open/read/write/seek/sync/rename, every disk capacity, transient or persistent",
 "Tests only see the error for a missing source file; they cannot make the n-th write fail or fill the disk.",
 [B],[("error propagation with ? and temporary-file cleanup on drop",B+" build, write_archive, write_file")],["Result of build","destination","directory contents"])
p("C06","Reads under I/O faults are right or refused",
 "While the underlying file returns errors, short reads, interruptions or early end of file, opening an archive (at once or with deferred table loading) and finding or reading files in it, or ranges of the file through the positioned reader, gives either the true answer or an error - never wrong, truncated or foreign bytes, and never a false 'not found'. Once the fault is gone the same open archive answers correctly again.",
 ["fault_sequences","histories"],"every position and kind of failing or short read/seek x every order of operations on one open archive",
 "Tests read from healthy files only.",
 [A,"mopaq/src/header.rs","mopaq/src/tables/hash.rs","mopaq/src/tables/block.rs"],
 [("error propagation on open and read",A+" open_with_options, load_tables, read_file"),("header search",'mopaq/src/header.rs find_header')],
 ["Archive::open","Archive::find_file","Archive::read_file"])
p("C07","Stored checksums catch damaged file data",
 "When an archive was built with checksums enabled, damage to the stored contents of a file (its sector data and the checksums kept with it) - flipped bits, zeroed or torn sectors, overwritten ranges - never makes a read of that file succeed with different contents: the read fails or returns the original bytes.",
 ["inputs","fault_sequences"],"all damage patterns inside a file's stored data x sector counts, compression, encryption, versions",
 "Tests flip at most one byte in one file, and the multi-sector path only logs mismatches.",
 [A,B],[("per-sector ADLER32 written after the data",B+" write_file"),("verification on read",A+" read_file, read_sectored_file")],
 ["Archive::read_file"])
p("C08","Damaged archives are contained",
 "Opening, listing, inspecting or reading any damaged, truncated or hostile archive ends in a bounded amount of work and memory with a value or an error: it never panics, aborts, overflows, hangs or requests memory out of proportion to the file.",
 ["inputs","fault_sequences"],"all corruptions and truncations of archives of every version, every API call order",
 "Tests feed a handful of malformed headers.",
 [A,"mopaq/src/header.rs","mopaq/src/tables/het.rs","mopaq/src/tables/bet.rs","mopaq/src/tables/hash.rs","mopaq/src/tables/block.rs","mopaq/src/special_files/attributes.rs","mopaq/src/compression/decompress.rs"],
 [("size and range validation while parsing",A+" load_tables, read_file; header.rs; tables/*")],
 ["Archive::open","get_info","list","list_all","read_file","verify_signature"])
p("C09","Version-4 digests report table damage",
 "An undamaged version-4 archive reports every stored digest as valid; after damage to the header or to any table byte range covered by a digest, opening fails or the report marks that digest invalid. A fault while computing the report is never reported as valid.",
 ["inputs","fault_sequences"],"all byte damage positions inside header/tables x table options x read faults",
 "The test checks one pristine archive and one corrupted byte.",
 [A,B],[("digest computation on build",B+" write_archive_with_het_bet, write_header"),("digest validation",A+" get_info, validate_v4_md5_checksums")],
 ["Archive::get_info md5_status"])
p("C10","Isolation of readers and concurrent builds",
 "A reader that has an archive open keeps reading exactly that archive's files while other threads replace the path with new builds, and every open sees one complete archive; when several builds target one path at once, each that reports success was complete and the final content is exactly one of them, with no stray files.",
 ["schedules","histories"],"all interleavings at system-call granularity of readers, openers and builders on the same path",
 "No test runs two operations concurrently.",
 [B,A],[("private temporary file plus rename",B+" build"),("one file handle per open archive",A+" open_with_options")],
 ["Archive::open","read_file","ArchiveBuilder::build"])
p("C11","C API: handle operations are linearizable",
 "Under any interleaving of threads, open, close, find, size, read and has-file calls of the C API behave as if executed one at a time: a handle is valid from the return of its open to the start of its close, handles are never reused or confused, closing an archive also invalidates its file handles, and a stale, null or wrong-kind handle is refused with an error and changes nothing.",
 ["schedules","histories"],"all interleavings at lock/atomic/system-call granularity of up to 4 threads x histories of API calls on shared handles",
 "The FFI tests are single-threaded.",
 [F],[("global handle tables behind mutexes",F+" ARCHIVES, FILES, NEXT_HANDLE")],["return values and last-error of every exported call"],
 state=[("ARCHIVES","open archive handles",F),("FILES","open file handles",F),("NEXT_HANDLE","next handle number",F)])
p("C12","C API: reads, seeks and errors follow the file model",
 "For every sequence of read, seek, size and information calls on a file handle, the bytes returned, the count stored, the position and end-of-file results match a byte array with a cursor clamped inside the file; a failed call sets a last-error naming the cause (invalid handle, invalid parameter, not found, insufficient buffer), visible only to the calling thread, and leaves the position and the other threads' errors unchanged, and no call writes beyond the buffer size it was given.",
 ["histories","inputs","schedules"],"all call sequences and argument values (offsets, methods, buffer sizes, nulls) x thread interleavings",
 "Tests make a few calls with in-range arguments on one thread.",
 [F],[("file handle cursor",F+" SFileReadFile, SFileSetFilePointer, SFileGetFileSize"),("thread-local last error",F+" set_last_error")],["exported calls"])
p("C13","C API: every call returns",
 "No call of the C API can block forever: whatever other threads do, and even when an enumeration callback itself calls back into the API, every call returns within a bounded number of scheduler steps once it is scheduled, and no call aborts the process.",
 ["schedules","histories"],"all interleavings x all combinations of calls including archive verification and callbacks that re-enter the API",
 "Deadlock needs a specific lock order or re-entrant callback; tests use neither.",
 [F],[("lock scopes around the global tables",F)],["return of every exported call"])
p("C14","Extraction stays inside the target directory",
 "Whatever file names an archive contains - parent references, absolute paths, either slash, drive letters, empty or odd components - extracting with the command-line tool creates or modifies nothing outside the chosen target directory.",
 ["inputs","configurations"],"all member names x flat and path-preserving extraction x extract one or all",
 "No test extracts an archive with a hostile name; doing so on a real file system would damage it.",
 ["storm-cli/src/commands/file.rs"],[("output path construction","storm-cli/src/commands/file.rs extract")],["every path created, truncated, renamed or removed during the command"])
p("C15","Extraction tells the truth",
 "When the extract command exits successfully, every requested file exists under the target with exactly its archived contents; if any file could not be read or written, because of damage, I/O errors or a full disk, the command exits with failure.",
 ["fault_sequences","inputs"],"every position and kind of I/O fault, corruption of members, single and whole-archive extraction",
 "CLI tests cover help texts and missing archives only.",
 ["storm-cli/src/commands/file.rs",A],[("exit status from accumulated results","storm-cli/src/commands/file.rs extract")],["exit status","target directory tree"])
p("C16","Creation tells the truth",
 "When the create command exits successfully, the archive at the given path contains exactly the selected source files with their contents, whatever order the directory is read in; if it fails or is killed at any point, the previous archive at that path is intact.",
 ["fault_sequences","crash_points","inputs","configurations"],"source trees x options x I/O faults and crash points x directory orders",
 "CLI tests never create an archive under faults.",
 ["storm-cli/src/commands/archive.rs",B],[("directory walk and build","storm-cli/src/commands/archive.rs create, add_directory_to_archive")],["exit status","archive contents"])
p("C17","Verification tells the truth",
 "The verify command with content checking exits successfully on every intact archive, and fails on every archive in which a listed file cannot be read back, a stored sector checksum or table digest does not match, a digital signature does not match, or a listed file is missing; an I/O error during verification is never reported as success, and the report says the same: it counts all files of an intact archive as verified and no check as failed, and it names exactly the listed files that cannot be read.",
 ["inputs","fault_sequences"],"all damage patterns and I/O faults x versions and settings",
 "The CLI tests verify nothing damaged.",
 ["storm-cli/src/commands/archive.rs",A],[("error accumulation","storm-cli/src/commands/archive.rs verify")],["exit status"])
p("C18","Builds are reproducible",
 "The bytes of a built archive depend only on the files added and the settings: not on time, randomness, the temporary file name, earlier content of the destination, the chunking of I/O or other builds running at the same time.",
 ["schedules","configurations","inputs"],"all clocks, random seeds, I/O chunkings and interleavings for one input",
 "Tests never compare two builds under different environments.",
 [B],[("pure serialisation of tables and files",B)],["bytes of the destination"])
p("C19","Signature verdicts",
 "A digital signature is reported valid only if the archive bytes it covers are exactly those that were signed: an unsigned archive reports no signature, a correctly signed and unchanged one is reported valid, any change to covered bytes or to the signature is not reported valid, and the verdict does not depend on how reads are split or interrupted.",
 ["inputs","fault_sequences"],"all signed archives x tampering positions x read chunkings and faults",
 "Tests never verify a correctly signed archive end to end or a chunked read.",
 ["mopaq/src/crypto/signature.rs",A],[("digest loops and padding checks","mopaq/src/crypto/signature.rs")],["Archive::verify_signature"],hook="cfg(mopaq_sim): the harness supplies the public keys, because Blizzard's private keys are not available to sign with")
p("C20","Configuration survives faults",
 "After 'config set' reports success the new value is what later commands see and use and all other settings are unchanged; if it fails, is killed or power is lost at any point (also right after it ended), the configuration file still holds the complete old or the complete new settings. A configuration file that cannot be parsed is reported and left as it is.",
 ["crash_points","fault_sequences","histories"],"sequences of set/reset/show x crash points and I/O faults",
 "Tests do not touch the configuration file.",
 ["storm-cli/src/config.rs","storm-cli/src/main.rs"],[("configuration rewrite","storm-cli/src/config.rs save_config")],["configuration file","output of config show"])
p("C21","Archives embedded in other files",
 "An archive placed behind any amount of foreign data, at any 512-byte aligned offset or behind a user-data header, opens and reads exactly as it does at offset zero, unless the foreign data itself starts an archive.",
 ["inputs","configurations","fault_sequences"],"all offsets and prefixes x archive settings x short reads",
 "One test covers a single offset.",
 ["mopaq/src/header.rs",A],[("aligned header search and offset-relative positions","mopaq/src/header.rs find_header; archive.rs")],["Archive::open","read_file","list"])
p("C22","C API: success means done",
 "When a C API call reports success, what it stands for has happened: opened and extracted files have exactly the archived contents, verification covered every stored checksum it was asked to check, enumeration reported every listed file once, creation left a new empty archive at the path and never replaced a file it was told to keep, even when several threads or another program create the same path at the same time. Under read, write and disk-full errors or damaged file data the call fails with an error instead, a refused creation leaves the path as it was, and once the faults stop the same calls succeed again on an intact archive.",
 ["fault_sequences","inputs","histories"],"all sequences of open/extract/verify/enumerate/create calls x all damage to file data x all I/O faults and full disks",
 "The FFI tests make these calls only with null arguments or on intact archives on a healthy file system.",
 [F,A],[("results mapped to return values and error codes",F+" SFileOpenFileEx, SFileExtractFile, SFileVerifyFile, SFileVerifyArchive, SFileEnumFiles, SFileCreateArchive")],["return value and last error of the calls","callback invocations","extracted and created files"])
p("C23","Queries tell the truth",
 "When a query command (file list, file find, file info, archive list, archive info, the file counts and sizes of archive analyze) exits successfully, its complete output describes the archive exactly - the stored names selected by the pattern, their sizes and attributes, the counts, format version, table and signature state - in every output format; a read error or an output error never passes for a shorter or different answer, and no query writes, renames or removes any file.",
 ["inputs","configurations","fault_sequences"],"all archives x patterns x output formats x read faults, and output pipes that fail or take part of a write",
 "The CLI tests run the query commands only without an archive or look for one word of the output.",
 ["storm-cli/src/commands/file.rs","storm-cli/src/commands/archive.rs",A],[("listing, lookup and information commands","storm-cli/src/commands/file.rs list, find, info; storm-cli/src/commands/archive.rs info, list"),("archive information",A+" get_info")],["exit status","standard output","file tree"])
p("C24","Stored attributes belong to their files",
 "For an archive with a well-formed (attributes) file - any combination of checksums, times, digests and patch bits, any number of files, compressed or encrypted or spanning sectors - the attributes reported for a file found by name are exactly the ones stored for it, no kind that is not stored is reported, and an archive without that file reports none. A read error while opening or loading is reported instead of passing for missing or other attributes, also with deferred table loading, and loading again after it succeeds.",
 ["inputs","configurations","fault_sequences"],"all attribute files x archive settings x versions x positions of read errors, at once or deferred",
 "The tests parse two hand-made buffers of three entries and never fail a read.",
 ["mopaq/src/special_files/attributes.rs",A],[("attribute arrays indexed by block","mopaq/src/special_files/attributes.rs parse, to_bytes"),("loading on open",A+" load_attributes, load_tables")],["Archive::attributes","get_file_attributes","find_file"])
p("C25","Archives are exchanged with other implementations of the documented format",
 "Unencrypted files in any archive that follows the documented format with hash and block tables - tables and file data in any order and at any distance including beyond 4 GiB, hash tables of any size, full, or with deleted entries, unused blocks, several languages of a name, files stored raw, in one piece, in compressed, imploded or unshrunk sectors, with or without trailing sector checksums, the whole archive inside another file - are found, listed and read with exactly their contents, deleted names (entry freed, or its block no longer marked as existing) and absent ones are not found, and read errors surface as errors. Archives the builder writes are such archives: a reader that follows the document finds every unencrypted file in every language with its contents, and correct sizes and digests in the headers.",
 ["inputs","configurations","fault_sequences"],"all layouts other writers may choose x versions x storage forms x read errors; all builder settings for the way back",
 "The tests read only archives the library built itself, so builder and reader can be wrong together.",
 [A,B,"mopaq/src/tables/hash.rs","mopaq/src/tables/block.rs","mopaq/src/header.rs","docs/mopaq-format.md"],[("table and sector reading",A+" load_tables, find_file_classic, read_file, read_sectored_file"),("table and file writing",B+" write_file, write_hash_table, write_block_table")],["Archive::open","read_file","find_file","list","list_all","get_info","bytes of a built archive"])
p("C26","Sound compressed with losses stays what it was, and touches nothing else",
 "When 16-bit sound of one or two channels is stored with ADPCM compression, alone or followed by one other supported method, encrypted or not, with or without checksums, in any version and sector size, the builder either refuses it (data that is not whole samples, or a second method that cannot take it) or reading the file back gives exactly as many bytes, with each sample within half of the largest step between neighbouring samples of its channel in that sector plus 32, and the same data at every read; other files and the listed names stay exact, even when ADPCM is the default method; faults while reading give that same data or an error; damage to a file with checksums is never read as other data.",
 ["inputs","configurations","fault_sequences"],"all signals x one or two channels x second methods x sector sizes x encryption/checksums x I/O splits and read errors x damaged bytes",
 "The tests round-trip a few short signals through the codec alone, never through an archive with sectors, checksums, encryption or faults.",
 [A,B,"mopaq/src/compression/"],[("lossy codec","mopaq/src/compression/algorithms/adpcm.rs"),("choice of methods","mopaq/src/compression/compress.rs, decompress.rs"),("checksums and listfile",B+" write_file, content_checksum, generate_listfile")],["ArchiveBuilder::add_file_data_with_options","default_compression","read_file","list"])
p("C30","Interoperability with StormLib and the games beyond the document",
 "Everything StormLib and the games write - encrypted files, HET and BET tables, patches, their own compression variants - is readable by the library, and the other way round.",
 ["inputs","programs"],"all archives written by other implementations",
 "Needs the other implementations.",
 [B,A],[("on-disk format",B)],["archive bytes"])
p("C31","Hash, key and cipher functions are the published ones",
 "Name hashing, key derivation and the block cipher compute the published MPQ functions, and decryption inverts encryption for every key and length.",
 ["inputs"],"all strings, keys and buffers",
 "Tests check a few vectors.",
 ["mopaq/src/crypto/hash.rs","mopaq/src/crypto/encryption.rs","mopaq/src/crypto/decryption.rs"],[("table-driven functions","mopaq/src/crypto")],["hash_string","encrypt_block","decrypt_block"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
