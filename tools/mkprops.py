#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Edit here, then run.
import json, os
A='src/hzip_storage/archive/archive.cpp'; AH='src/hzip_storage/archive/archive.h'; T='src/hzip_storage/archive/archive_trie.h'
P=[]
def p(id,title,st,over,text,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
NOARCH="No test in the repository opens an archive (the archive tests are not part of the stable set); the property ranges over every history of operations."
p('C01','Archive reads return exactly what was stored',
 "For every history of successful archive operations, reading a file returns the blobs it was created with, in order, each with the same header bytes, original size, stored data and coding state (algorithm and bytes); reading a blob by id or a coding state by path likewise returns exactly what was written under it. Operations on other entries, including ones that free or reuse space, never change what an entry reads back as. Entries that were removed or never existed are reported as missing, never as somebody else's content.",
 ['histories','inputs'],'all sequences of create/write/read/remove/install/inject/uninstall on one archive, with blobs and coding states of any size including empty',NOARCH,
 [A,AH,'src/hzip_core/blob/blob.h'],[('blob/mstate/file segments written and read through recorded offsets',A+': hza_write_blob, hza_read_blob, hza_write_mstate, hza_read_mstate'),('file entry -> blob id list',A+': hza_create_metadata_file_entry, read_file')],['results of read_file, read_blob, read_mstate, inject_mstate(path)'])
p('C02','Closing and reopening an archive preserves its whole logical state',
 "After an archive is closed and opened again, in the same or another process, it holds the same files with the same blobs, the same blobs by id, the same named coding states and the same directory listings as before the close, at any point of any history and after any number of reopenings. Opening an archive that does not exist yet gives an empty one. A reopened archive treats further operations exactly as the archive would have if it had never been closed.",
 ['histories'],'every history with any number of close/load points inserted anywhere',NOARCH,
 [A],[('scan of the segment stream on load',A+': hza_scan*'),('end marker and flush on close',A+': close'),('initial version record',A+': hza_init')],['all reads and listings before close and after load'])
p('C03','The archive file is always a gap-free chain of well-formed segments',
 "The stored archive is a version record followed by back-to-back segments that exactly tile the file up to the end marker: no two segments overlap, none is cut off, and each segment's declared length is its real length. Every live file entry, blob, coding state and path binding owns exactly one segment, its stored fields equal the logical entry, and every other segment is marked free. An independent reader that follows the documented format recovers exactly the live entries.",
 ['histories'],'every history of archive operations, observed after each operation and after close',NOARCH,
 [A,AH],[('segment framing: 8-bit marker, 64-bit length, body',A+': hza_write_*, hza_scan*'),('free segments re-marked and split with a 72-bit header',A+': hza_alloc_fragment, hza_rm_blob, hza_rm_mstate, remove_file')],['bytes of the archive file'])
p('C04','A coding state lives exactly as long as something needs it',
 "A coding state that any stored blob depends on cannot be uninstalled, by path or by id, and the refusal changes nothing. An unnamed coding state is reclaimed when the last blob that uses it is removed; one bound to a path stays, with its path, until it is explicitly uninstalled, however many users come and go. This holds equally for dependencies created before the archive was last closed and reopened.",
 ['histories'],'all interleavings of install, inject, write, remove, uninstall, close and load over shared and private coding states',NOARCH,
 [A],[('dependency counters',A+': hza_increment_dep, hza_decrement_dep, hza_check_mstate_deps'),('named marker',A+': mstate_inv_aux_map'),('rebuild on load',A+': hza_scan_blob_segment')],['result of uninstall_mstate, read_mstate, live mstate segments'])
p('C05','A failed archive operation changes nothing and leaves the archive usable',
 "An archive operation that reports an error (missing entry, name conflict, path through a file, directory where a file is needed, invalid path, missing or depended-upon coding state) leaves the logical contents, the set of live segments and the free space exactly as they were. After any failed operation every later operation on the same archive still completes and behaves as if the failed one had not been tried.",
 ['histories','inputs'],'all histories mixing valid and invalid operations',NOARCH,
 [A,T],[('checks before the first write',A+': create_file, install_mstate, hza_create_metadata_file_entry'),('archive lock released on every exit',A)],['state before/after each failing call; completion of the next call'])
p('C06','Paths form one consistent namespace of files and directories',
 "File paths and coding-state paths are two separate trees in which a name is either a leaf or a directory: a path is present exactly when a leaf exists at it or below it, a leaf can only be created where nothing exists and never beneath another leaf, and removing a leaf also removes the directories it leaves empty but nothing else. Listing a directory gives exactly its immediate entries, each once, flagged as leaf or directory; spellings of a path that differ only in a trailing slash name the same entry.",
 ['histories','inputs'],'all histories of creations, removals, existence tests and listings over paths that share prefixes',NOARCH,
 [T,A,'src/hzip_core/utils/validation.h'],[('prefix tree with leaf flags',T+': set, get, erase, contains, children')],['check_*_exists, list_*_system, results of create/remove'])
p('C07','Freed archive space is reused and the file grows only when nothing fits',
 "When an entry is stored, it goes into a free segment if one fits exactly or is big enough to leave room for a remainder segment header, choosing the smallest such segment; only otherwise does the archive grow, and then by exactly the new segment. The remainder of a split stays available as free space, and space freed by any removal, in this session or before a reopen, is available to later stores.",
 ['histories'],'all sequences of stores and removals with varying sizes',NOARCH,
 [A],[('best-fit allocation with split',A+': hza_alloc_fragment'),('fragments rebuilt on load',A+': hza_scan_fragment')],['segment positions and lengths after each operation'])
p('C08','Concurrent archive operations are linearizable and deadlock-free',
 "When several threads use one open archive at the same time, every operation returns a result consistent with some sequential order of all operations that respects real-time order, and the final stored archive equals the one that order produces. No schedule of archive operations, including failing ones, makes any of them block forever.",
 ['schedules','histories'],'all interleavings of archive operations issued by several threads','No test runs two threads on an archive; a race or lost unlock shows only under particular schedules.',
 [A,AH],[('one lock per archive held over each public operation',A)],['invocation/response histories under a controlled scheduler'])
p('C09','At most one open instance of an archive exists at a time',
 "Opening an archive that is already open, from another object, thread or process, waits until it is closed and then proceeds; closing releases it exactly once, also when loading fails. Within one server every request for the same archive file gets the same shared instance, also when several sessions ask at once and however the path is spelled, and an archive that cannot be opened makes only that request fail: later requests for it or for other archives still work.",
 ['schedules','histories','configurations'],'all interleavings of open/close over several openers and of concurrent requests to the archive provider, with any spelling of the path','No test opens an archive twice or provides archives to more than one session.',
 [A,'src/hzip_network/api/providers/archive_provider.cpp'],[('named semaphore per archive path',A+': HZ_Archive, close'),('shared instance map',"src/hzip_network/api/providers/archive_provider.cpp: provide, close")],['order of open/close completions; identity of provided instances'])
p('C10','The counting semaphore never over-admits and never loses a permit',
 "At every moment the number of completed acquires is at most the initial count plus the number of releases, and an acquire returns only by consuming a permit. Whenever permits are available and threads wait, some waiter proceeds; in particular n releases eventually admit at least n of the waiting threads, whatever the schedule.",
 ['schedules'],'all interleavings of any number of threads acquiring and releasing, any initial count','No test starts a thread on the semaphore; missed wake-ups and over-admission need particular schedules.',
 ['src/hzip_core/utils/semaphore.cpp','src/hzip_core/utils/semaphore.h'],[('count guarded by mutex and condition variable','src/hzip_core/utils/semaphore.cpp')],['acquire/release histories under a controlled scheduler'])
p('C11','Every submitted job runs exactly once and reports exactly one outcome',
 "Each codec job given to the processor is executed exactly once, reports success or error but never both and each at most once, then reports completion exactly once and last, whether the codec succeeds or throws. At most the configured number of jobs is inside execution at any time, and a finished job, successful or failed, always gives its slot back so that later jobs run. An encode, decode or train job that fails stores no result under the requested name and leaves an existing named coding state in place.",
 ['schedules','inputs','fault_sequences'],'all interleavings of concurrent jobs with succeeding and failing codecs, any thread count','No test submits a job; slot leaks and double callbacks appear only on error paths and under load.',
 ['src/hzip_codec/processor/processor.cpp','src/hzip_codec/processor/job.h'],[('semaphore around job execution','src/hzip_codec/processor/processor.cpp: run'),('callbacks','src/hzip_codec/processor/processor.cpp: run')],['callback sequence per job, number of jobs in execution'])
p('C12','Caches and device programs are handed out in turn, validly, without deadlock',
 "Requests to the cache provider and to the program provider each return the configured resources in round-robin order, every returned cache or program comes with the lock that belongs to the same resource, and the index is always within the currently configured set, also right after the set was reconfigured to a smaller one. Concurrent registration, lookup, device loading and filtering never deadlock; with no device, or an unregistered program, a lookup fails with an error instead of misbehaving.",
 ['schedules','histories','configurations'],'all histories and interleavings of configure/load/filter/register/get','No test initialises either provider; the states between reconfigurations are never visited.',
 ['src/hzip_core/runtime/cache_provider.cpp','src/hzip_core/opencl/cl_helper.cpp'],[('round-robin index','src/hzip_core/runtime/cache_provider.cpp: get_cache; src/hzip_core/opencl/cl_helper.cpp: ProgramProvider::get')],['returned resource identity and lock identity per call'])
p('C13','Framed socket transfers are complete or reported as a connection error',
 "Each message sent over a session is one status byte 0 followed by exactly the payload bytes, each receive first sends one byte 0 and then yields exactly the requested number of bytes in order however the network splits them, and an error message is the byte 255, a 16-bit length and that many text bytes. If the peer disconnects or times out, or a system call fails or transfers less than asked and the rest is not transferred after it, the transfer reports a connection error; it never returns as if it had succeeded.",
 ['fault_sequences','inputs'],'all message sizes, all ways the transport splits, truncates, delays or fails each system call','No test opens a socket; failing and short system calls never occur in tests.',
 ['src/hzip_network/api/handlers/socket_class.cpp','src/hzip_network/api/handlers/socket_class.h'],[('length checks on send/recv','src/hzip_network/api/handlers/socket_class.cpp: t_send, t_recv, t_recv_sync'),('error/success frames','src/hzip_network/api/handlers/socket_class.cpp: error, success')],['bytes on the wire, delivered payload, raised error'])
p('C14','Only a client that knows the password gets past the handshake',
 "A session executes commands only after the client has returned the token that the server drew, from all values of 64 bits, for this very session, which it sends masked with the password; a client that returns anything else is disconnected before any command is read and has no effect on any archive. A client that unmasks the token with the right password is always admitted, whatever the token and the password length. Masking is its own inverse and is the byte-wise exclusive-or of the token with the password folded over eight bytes.",
 ['inputs','histories'],'all tokens, all passwords of any length, all client answers','No test performs a handshake; 2^64 tokens and arbitrary passwords cannot be sampled.',
 ['src/hzip_network/api/api.cpp','src/hzip_core/utils/utils.h'],[('challenge and comparison','src/hzip_network/api/api.cpp: ApiInstance::handshake'),('masking','src/hzip_core/utils/utils.h: hz_enc_token')],['bytes exchanged, whether commands are executed'])
p('C15','Sessions are admitted up to the limit and always cleaned up once',
 "The server never serves more sessions at once than its configured limit, and every session that ends, by close command, failed handshake, disconnect or error at any point of the exchange, closes its own connection exactly once and gives back exactly one slot, so that further clients are admitted. An error inside a command is reported to the client and the session continues to serve commands; only connection failures, a failed handshake and the close command end it. Trouble in setting up one accepted connection leaks neither the connection nor a slot.",
 ['schedules','fault_sequences','histories'],'all interleavings of arriving, working, failing and leaving clients; a fault at any system call','No test starts the server; slot leaks need a fault at a particular call.',
 ['src/hzip_network/api/api.cpp'],[('admission semaphore','src/hzip_network/api/api.cpp: Api::start, ApiInstance::end'),('session loop','src/hzip_network/api/api.cpp: ApiInstance::start')],['accept/close/permit events, replies'])
p('C16','Query commands answer from the archive named in the same request',
 "Existence, listing and deletion queries act on exactly the archive and target given in that query and answer with the archive's current contents; deletion removes exactly that entry. A query that lacks a required part (archive, target, or permission to send data back) or has an invalid target or unknown command is answered with an error and changes nothing. Nothing from one query is remembered by the next.",
 ['histories','inputs'],'all sequences of query control words, targets and archive contents','No test speaks the query protocol.',
 ['src/hzip_network/api/handlers/query.cpp'],[('control-word loop with preconditions','src/hzip_network/api/handlers/query.cpp: Query::start')],['replies on the wire, archive contents'])
p('C17','A stream that is encoded into an archive decodes to the same bytes',
 "When a client streams data into an archive file and gets a success reply, decoding that file, in the same or a later session and after the server restarts, returns exactly the streamed bytes in order, for every supported algorithm, data length and block split, with or without a shared trained coding state. When any block of the stream fails, the client gets an error, no success reply, and no file is created. Blocks returned directly to the client decode, with the coding state sent along, to the original bytes.",
 ['inputs','histories','fault_sequences'],'all data lengths around block boundaries, algorithms, shared coding states, failing blocks','No test runs the streamer; the round trip crosses processor, codec, archive and socket code.',
 ['src/hzip_network/api/handlers/streamer.cpp','src/hzip_codec/processor/processor.cpp','src/hzip_core/blob/blob.cpp'],[('block loop with processor jobs','src/hzip_network/api/handlers/streamer.cpp: encode, decode'),('fallback to stored data','src/hzip_core/blob/blob.cpp: evaluate')],['bytes decoded, file presence, replies'])
p('C18','Coding states travel and train without loss',
 "A coding state written by a client under a path is read back by any client with the same algorithm and bytes; writing to a path that is taken, or reading one that does not exist, is an error and changes nothing. Training creates or replaces the coding state at its path only if every step succeeds: a failed training leaves the previous coding state readable and unchanged.",
 ['histories','fault_sequences','inputs'],'all histories of write, read, train, delete with failures','No test speaks this protocol.',
 ['src/hzip_network/api/handlers/streamer.cpp','src/hzip_codec/processor/processor.cpp'],[('mstate transfer','src/hzip_network/api/handlers/streamer.cpp: write_mstate, read_mstate'),('training','src/hzip_codec/processor/processor.cpp: hzp_train')],['replies, mstates read back'])
p('C19','Compressing and decompressing a block with a codec is lossless',
 "For every block of bytes and every registered lossless codec, decompressing the compressed block with the coding state that came with it (its own, or a shared one it was compressed with) returns the original block, and compression never loses data by being larger: a block that does not shrink is kept as it is and marked so that it decompresses to itself. Every algorithm number resolves to its own codec, name and block size, and unknown numbers are rejected.",
 ['inputs'],'all byte blocks: empty, constant, skewed, random, and all coding states','No test compresses anything; 256^n inputs.',
 ['src/hzip_codec/victini/victini.cpp','src/hzip_codec/uncompressed/uncompressed.cpp','src/hzip_core/blob/blob.cpp','src/hzip_codec/codec_provider.h'],[('BWT, MTF, order-1 rANS','src/hzip_codec/victini/victini.cpp'),('fallback','src/hzip_core/blob/blob.cpp: evaluate')],['decompress(compress(x))'])
p('C20','The entropy coder inverts itself and its tables are proper distributions',
 "Encoding any symbol sequence with any valid cumulative tables and then decoding with the same tables returns the sequence in order and restores the initial coder state, with the state staying in its normalised range and words emitted exactly when needed. Building a table from any frequency vector gives frequencies that sum exactly to the table size with every symbol that occurs keeping at least one slot, and a more frequent symbol never getting a materially smaller share than a rarer one (by more than one slot per symbol of the alphabet).",
 ['inputs'],'all symbol sequences, frequency vectors and scales','No test calls the coder.',
 ['src/hzip_core/kernel/hzrans/hzrans64.cpp','src/hzip_core/kernel/hzrans/hzrans64_codec.cpp','src/hzip_core/kernel/hzrans/hzrans64.h'],[('encode/decode steps','src/hzip_core/kernel/hzrans/hzrans64.cpp'),('table construction','src/hzip_core/kernel/hzrans/hzrans64.cpp: hzrans64_create_ftable*')],['state and emitted words per step, table entries'])
p('C21','Block sorting and move-to-front are exact inverses of themselves',
 "For every byte string, including the empty one, strings with a single repeated symbol and strings using every byte value, inverting the block-sorting transform with the index it returned restores the string; the transform's output is the last column of the sorted rotations of the string with an end sentinel. Move-to-front followed by its inverse restores every sequence over its alphabet, and each output is the symbol's position in the recency list.",
 ['inputs'],'all strings over the alphabet','No test calls either transform.',
 ['src/hzip_core/preprocessor/burrows_wheeler.h','src/hzip_core/preprocessor/move_to_front.h'],[('suffix array construction','src/hzip_core/preprocessor/burrows_wheeler.h'),('recency list','src/hzip_core/preprocessor/move_to_front.h')],['transform output, index, inverse'])
p('C22','The zig-zag scan visits every cell exactly once in zig-zag order',
 "For every width and height the scan starts at the top-left cell, visits every cell of the rectangle exactly once, and ends; consecutive cells follow the zig-zag order: along anti-diagonals of alternating direction, the second cell lying to the right when there is one. Pre-increment yields the advanced position and post-increment the previous one, two positions compare equal exactly when they are the same, and a rectangle without cells is an empty scan.",
 ['inputs'],'all widths and heights, including 0 and 1','The tests try four shapes and check coverage only, not order, degenerate shapes or termination.',
 ['src/hzip_core/preprocessor/zigzag.h'],[('next-cell rule','src/hzip_core/preprocessor/zigzag.h: zigzag_pair::next')],['sequence of visited cells'])
p('C23','The delta transform and its inverse cancel for every array',
 "For every array of integers, including empty and one-element arrays and values at the ends of the integer range, the delta transform leaves the first element and replaces each other element by its difference to its predecessor's original value, modulo the integer range; the inverse restores the original array exactly, and no element outside the array is read or written.",
 ['inputs'],'all arrays','No test calls the transform.',
 ['src/hzip_core/preprocessor/delta.cpp'],[('backward difference, forward sum','src/hzip_core/preprocessor/delta.cpp')],['array before/after'])
p('C24','The colour transforms are exactly reversible and follow the lifting formulas',
 "For every pixel and every bit depth from 1 to 16, converting RGB to YCoCg and back restores every channel value exactly, in place or not, on the processor or on an OpenCL device, with every output within the bit depth and planes of any size; the forward result is the two-step lifting (difference, then average by halving the difference) of the red-blue pair and then of the green-and-first-average pair. The per-pixel transformer is exactly reversible for every integer type over its full range, and undefined transforms are rejected.",
 ['inputs'],'all pixel values, bit depths and image sizes','No test calls the transforms; 2^48 pixels.',
 ['src/hzip_core/preprocessor/color.h','src/hzip_core/preprocessor/color.cpp'],[('lifting steps','src/hzip_core/preprocessor/color.h; src/hzip_core/preprocessor/color.cpp')],['pixels before/after'])
p('C25','The Paeth prediction filter is exact, and so reversible',
 "For every image of any size, number of channels and bit depth, in place or not, on the processor or on an OpenCL device, each filtered sample is the original sample minus its prediction, modulo the bit depth, where the prediction uses only original samples of the same channel: the nearest of left, upper and upper-left to the absolute value of left plus upper minus upper-left (ties in that order), the only existing neighbour on the first row or column, and nothing for the first sample. Hence adding predictions back in raster order restores every sample exactly. The pixel predictor gives the same kind of prediction without the absolute value and with ties in the order upper, left, upper-left.",
 ['inputs'],'all images, sizes, channel counts and bit depths','No stable test calls the filter.',
 ['src/hzip_core/models/paeth.cpp','src/hzip_core/models/paeth.h'],[('prediction from original neighbours, processed backwards so that in-place works','src/hzip_core/models/paeth.cpp: cpu_filter')],['samples before/after'])
p('C26','A PNG image is read exactly and compressed without losing a sample',
 "For every PNG image of any size, colour type, bit depth and interlacing, reading it yields its header fields, its palette if it has one, and one plane per channel that holds the exact value of every sample at its row and column; data that is cut off before the end of the image data, is damaged there, or is no PNG image is refused with an error, and nothing beyond the given bytes is read. Compressing an image records these header fields and this palette, decorrelates the colours of RGB and RGBA images with the colour transform, predicts every image without a palette with the Paeth filter, and codes the resulting planes so that they can be decoded: for every chunk size, context order and learning rate, with the adaptive model or a given one, on the processor or on an OpenCL device with the same result, each sample (the high and the low byte of 16-bit samples one after the other) is given slots of a 24-bit table that no other value shares at that place and that depend only on the samples coded before it in plane and row order; and the stream decodes, with these slots, to exactly these samples and nothing else.",
 ['inputs'],'all images, chunk sizes, context orders and learning rates, and all truncations','No test that can run here reads or compresses an image.',
 ['src/hzip_core/preprocessor/png_bundle.cpp','src/hzip_codec/sharingan/sharingan.cpp','src/hzip_codec/sharingan/state_transition.cpp','src/hzip_codec/sharingan/sharingan_dynamic.cl'],[('a chunk learns only from its own earlier samples','src/hzip_codec/sharingan/state_transition.cpp: cpu_dynamic_precode'),('samples are unpacked to one 16-bit value each','src/hzip_core/preprocessor/png_bundle.cpp: read_bundle')],['samples, header and palette of the image read','header, stream and slots of the compressed image'])
p('C27','Integer codes and serialised parameters decode to what was encoded',
 "Every value below 2^31 written with the Elias-gamma code, and every positive value written with the unary code, is read back unchanged and leaves the reader exactly behind its last bit, so that any concatenation decodes to the same sequence; encoding always terminates. Packing 64-bit and 32-bit words into bytes and back restores them, bytes packed into words keep every byte including a trailing partial word, and a parameter map with any keys and values survives serialisation.",
 ['inputs'],'all values in range and all sequences of them; all maps','No test calls these functions.',
 ['src/hzip_core/utils/utils.h','src/hzip_core/blob/blob.cpp'],[('bit codes','src/hzip_core/utils/utils.h'),('parameter map','src/hzip_core/blob/blob.cpp: to_byte_array, from_byte_array')],['decoded values, bits consumed'])
p('C28','The buffered stack is last-in first-out at every depth',
 "For every sequence of pushes and pops, including ones that cross internal buffer boundaries in both directions and that empty the stack and fill it again, the top is the most recently pushed value not yet popped, the size is the number of pushes minus pops, and the stack reports empty exactly when the size is zero; popping an empty stack does nothing.",
 ['histories'],'all push/pop sequences','No test uses the stack.',
 ['src/hzip_core/utils/stack.h'],[('linked buffers and index','src/hzip_core/utils/stack.h')],['top, size, empty after each operation'])
p('C29','Path and size arguments are accepted or rejected by the documented rules',
 "A path is accepted exactly when it starts with a slash and contains no NUL, no backslash, no space and no two consecutive slashes; every other string is rejected with a validation error. A size argument with the suffix kb, mb, gb or b denotes its number times 2^10, 2^20, 2^30 or 1; file helpers report existence and size of regular files truthfully, treat directories and missing files as absent with size 0 for missing ones, and never crash on a path that cannot be created.",
 ['inputs'],'all strings; all file-system situations','No test calls these helpers.',
 ['src/hzip_core/utils/validation.h','src/terminal.h','src/hzip_core/utils/fsutils.h'],[('validation','src/hzip_core/utils/validation.h'),('size parsing','src/terminal.h: conv_to_bytes'),('file helpers','src/hzip_core/utils/fsutils.h')],['accept/reject, value'])
p('C30','Configuration takes every setting from its variable and defaults the rest',
 "After configuration each setting has the value of its own environment variable if that is set and its documented default otherwise, for every subset of variables; the cache set has the configured file name, count and page size. Configuring again with another environment gives the settings of that environment for every variable that is set.",
 ['configurations'],'all subsets of environment variables, repeated configuration','No test configures the runtime; 2^11 subsets.',
 ['src/hzip_core/runtime/config.cpp','src/hzip_core/runtime/cache_provider.cpp'],[('environment lookup','src/hzip_core/runtime/config.cpp')],['settings after configure'])
p('C31','Closing and shutting down are final and keep what was acknowledged',
 "Closing an archive ends its use: it returns whatever other operations run, however often it is repeated; every operation that was acknowledged before is in the file, complete, and every other one completely or not at all (a training request at most block by block); afterwards no operation of that instance succeeds or changes the file. Shutting down the server does this for every archive it opened, at any moment, while sessions execute commands or are just opening archives; afterwards no session opens one again, every archive is free for its next owner, and it holds exactly what was acknowledged.",
 ['schedules','histories'],'all interleavings of closing, shutting down, opening and operating','No test closes an archive while another thread uses it, and none shuts down a server; the windows are a few instructions wide.',
 ['src/hzip_storage/archive/archive.cpp','src/hzip_network/api/providers/archive_provider.cpp','src/hzip_network/api/api.cpp'],[('closing','src/hzip_storage/archive/archive.cpp: HZ_Archive::close'),('closing all archives','src/hzip_network/api/providers/archive_provider.cpp: ArchiveProvider::close'),('shutdown','src/hzip_network/api/api.cpp: Api::shutdown')],['results of operations around a close, the archive opened by the next owner'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
