#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the list stays reviewable)."""
import json, os
S="stenos/internal/stenos.cpp"; B="stenos/internal/block_compress.h"; L="stenos/internal/lz_compress.h"
P="stenos/internal/tiny_pool.h"; C="stenos/cvector.hpp"; Z="stenos/internal/zstd_wrapper.h"; T="stenos/timer.hpp"
H="stenos/stenos.h"
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook))
props=[
p("A01","Compression is lossless",
  "Decompressing what compression produced gives back exactly the original bytes, for every input content and size, every element size from 1 to 65534 bytes, every compression level, thread count and superblock size accepted by the library. This holds whatever the number of threads used on either side and whichever of the one-shot and context functions are used.",
  ["inputs","configurations"],"all contents x sizes (0, below one block, exact multiples, partial tails) x element sizes x levels 0-9 x threads x superblock sizes",
  "The tests use six element sizes up to 15, levels 0-5, megabyte sizes that are never an exact multiple of a superblock and three synthetic contents.",
  [S,B,L,Z,"stenos/internal/delta.cpp","stenos/internal/shuffle.cpp","stenos/internal/shuffle-avx2.cpp","stenos/internal/shuffle-sse2.cpp","stenos/internal/lz4dry.cpp"],
  [("strategy choice per superblock and its inverse",S+": compress_generic_superblock / decompress_generic_superblock"),("256-element block encoder and decoder",B),("transposition and byte delta","stenos/internal/shuffle*.cpp, delta.cpp")],
  obs=["return values and output bytes of the compress and decompress functions"]),
p("A02","The size bound suffices and the destination is never overrun",
  "Compressing into a buffer of the advertised maximum size for the input (with default superblock sizes) always succeeds and the result is at most that size. With any smaller buffer the call either succeeds within the capacity or returns an error, and it never writes outside the given capacity.",
  ["inputs","configurations"],"all inputs x element sizes x levels x threads x destination capacities from 0 to the bound",
  "The tests always give the full bound and never look beyond the buffer; incompressible data in odd configurations and short buffers are not reached.",
  [S,B,L,Z],[("bound formula","stenos/internal/block_compress.h: compress_bound"),("capacity checks before each write",S+": compress_generic_superblock, compress_memcpy, stenos_compress_generic"),("block encoder capacity checks",B)],
  obs=["return value; guard bytes around the destination"]),
p("A03","Decompression honours the destination capacity",
  "Decompression succeeds exactly when the destination can hold the announced content, returns its exact size and leaves every byte beyond that size untouched; with a smaller destination it returns an error and writes nothing outside the capacity. Neither the source nor any memory around the buffers is modified.",
  ["inputs","configurations"],"all frames x destination capacities (0, content-1, content, larger) x thread counts",
  "The tests decompress into exactly sized buffers and never check the surroundings.",
  [S,B],[("destination check",S+": stenos_decompress_generic"),("decoder bounds",B)],
  obs=["return value; guard bytes around source and destination"]),
p("A04","Compression is deterministic and independent of the context history",
  "The bytes produced by a compression depend only on the input and on the current parameters of the context: repeating the call, using a fresh context, or reusing a context after any sequence of other calls (successful or failed, with other parameters) gives the same bytes. A call that fails leaves the context usable as if the call had not been made.",
  ["histories","configurations"],"all sequences of parameter changes, compressions, decompressions and failing calls on shared contexts",
  "The tests create a fresh context per call and never compare two outputs.",
  [S,L,B],[("per-call preparation of the context",S+": stenos_context_s::prepare, ensure_has_buffers, clear_buffers"),("match table initialisation",L)],
  state=[("context","level, threads, superblock size, time limit, cached buffers",S+": stenos_context_s")],
  obs=["output bytes of repeated calls"]),
p("A05","Parameters, reset and frame information behave as documented",
  "Levels and thread counts outside their range are clamped, invalid element sizes and superblock sizes are refused with the documented error without changing the context, and resetting a context restores every default. Every produced frame carries the documented header, partition into superblocks and superblock headers, and querying a frame reports exactly the original size and the superblock size that was used.",
  ["histories","configurations"],"all sequences of setter, reset, compress and query calls with valid and invalid arguments",
  "The tests never read frame information, never reset a context and never pass invalid parameters.",
  [S,H],[("setters",S+": stenos_set_*"),("superblock size rule",S+": prepare, super_block_size"),("frame information",S+": stenos_get_info")],
  obs=["setter return values, frame bytes, frame information"]),
p("A06","Truncated or corrupted frames are handled safely",
  "Decompressing (or querying) any byte string returns in bounded time with either an error or a size not larger than the destination, and never accesses memory outside the given source and destination. Every strict prefix of a valid frame with content, and every frame with an invalid header code, superblock size, superblock code or superblock length, is reported as an error; a call that succeeds has produced all the announced bytes.",
  ["inputs","fault_sequences"],"all truncations and all structural corruptions of frames, for every encoding strategy, single- and multi-threaded",
  "No test ever decompresses anything but an intact frame.",
  [S,B,L],[("frame header checks",S+": stenos_decompress_generic, stenos_get_info"),("superblock checks",S+": decompress_generic_superblock"),("block decoder bounds",B+": block_decompress_generic"),("LZ decoder bounds",L)],
  obs=["return value; memory error detector; guard bytes"]),
p("A07","The block encoding is a fixed, self-consistent format",
  "Every stream that follows the block format (each kind of block and of row coding, any element size) is decoded to the content the format assigns to it, and every stream the encoder emits follows that format. Data compressed with one instruction-set variant of the library is decoded identically by the others.",
  ["inputs","configurations"],"all block kinds x row codings x element sizes x partial tails, generated from the format itself and taken from the encoder; SSE4.1 and AVX2 builds",
  "The tests only check that this encoder and this decoder agree on a few contents; a format drift or an encoding the encoder seldom emits goes unseen.",
  [B,L,"stenos/internal/delta.cpp","stenos/internal/shuffle.cpp"],[("row codings",B+": decode_* and encode functions"),("block kinds",B+": block_compress_generic / block_decompress_generic"),("LZ groups",L)],
  obs=["encoded bytes and decoded bytes of the public functions"]),
p("A08","Time-limited compression always yields a decodable frame",
  "A compression with a time limit always succeeds and its frame decompresses to the original bytes, whatever the limit and however the clock advances, including when the limit is exceeded at any point of the call. The time limit and its outcome never influence later calls made without one.",
  ["inputs","schedules","histories"],"all limits x clock behaviours (instant, slow, jump past the deadline at any point) x inputs x threads",
  "No test sets a time limit; the outcome depends on the machine's speed, which a test cannot control.",
  [S,B,Z,T],[("deadline handling",S+": prepare, compress_generic_superblock"),("early stop of the block encoder",B),("level choice from the remaining time",Z)],
  state=[("time constraint","limit, start, processed bytes, give-up flag",B)],
  obs=["return value, frame bytes, decompressed bytes under a controlled clock"]),
p("A09","Independent concurrent calls do not interfere",
  "Any number of threads may compress and decompress at the same time with distinct contexts and any parallelism: every call completes, returns what it would return alone, and touches only its own buffers. No interleaving makes a call wait forever.",
  ["schedules"],"all interleavings of concurrent multi-threaded compressions and decompressions sharing the library's worker threads",
  "The tests call the library from one thread at a time; interleavings inside the shared worker pool are not controlled.",
  [S,P],[("shared worker pool",P),("tasks and join of a parallel call",S+": stenos_compress_generic, stenos_decompress_generic")],
  obs=["return values and outputs of the calls under controlled schedules"]),
p("A10","The worker pool runs every task exactly once and waits for all of them",
  "Every task accepted by the pool runs exactly once, waiting returns only after all tasks submitted before it have finished, and it does return, for any number of submitting and waiting threads and any number of workers. Destroying the pool ends its threads, runs nothing afterwards, destroys the tasks that were not started and leaks nothing; a task that cannot be accepted is reported to the caller.",
  ["schedules"],"all interleavings of submitters, waiters, workers and destruction",
  "The tests use one submitting thread; lost wakeups and buffer reuse races need particular interleavings.",
  [P],[("queue, condition variables, waiter accounting",P+": tiny_pool"),("recycled task storage",P+": TaskAllocation")],
  state=[("queue","accepted tasks",P),("processing","number of unfinished tasks",P)],
  obs=["task start and end, return of wait and of the destructor under controlled schedules"]),
p("A11","Memory exhaustion is reported, never fatal",
  "When any single memory allocation made by a compression, decompression or context creation fails, the call returns an error or a correct result, without crash, hang or leak. The context and the thread remain usable afterwards: a retried call then gives the same result as if nothing had failed.",
  ["fault_sequences"],"every allocation point of every call, failing once or persistently",
  "The tests never fail an allocation.",
  [S,B,Z,P],[("allocation checks",S+": ensure_has_buffers, CBuffer::make, stenos_make_context"),("task allocation",P)],
  obs=["return values, memory balance with an allocator failing at each point"]),
p("B01","A compressed vector behaves like an ordinary vector",
  "After any sequence of insertions, removals, assignments, element accesses, iterations, copies, moves, swaps, resizes and standard algorithms, the compressed vector has the same size and contents, returns the same values and throws the same range errors as an ordinary vector would. Copies are independent of their source.",
  ["histories","configurations"],"all operation sequences around chunk boundaries x element types (trivial, heap-owning, move-only) x chunk sizes x levels",
  "The tests run a few fixed sequences on one million elements with one chunk size and level.",
  [C],[("chunk list and back chunk handling",C+": emplace_back, pop_back, resize, insert, erase"),("reference wrappers and iterators",C+": RefWrapper, CompressedIter")],
  state=[("chunks","compressed or decompressed blocks of elements",C+": d_buckets"),("decompressed buffers","cache of chunks",C+": d_contexts")],
  obs=["size, contents and return values of the public interface"]),
p("B02","Modified elements survive the recompression of their chunk",
  "A value stored through an element reference, an iterator, a swap, a bulk visit or an algorithm is what every later read returns, however many other chunks are accessed, compressed, evicted, shrunk, serialized or copied in between. A modification made before a visit stops early or throws is kept as well.",
  ["histories"],"all interleavings of writes with evictions, shrinks, serializations and removals over a bounded number of chunks",
  "Whether a modification is lost depends on which chunks are cached, dirty or pinned when it happens; the tests do not steer that state.",
  [C],[("dirty marking and write back",C+": mark_dirty, find_free_context, compress_bucket, shrink_to_fit")],
  state=[("dirty flag","decompressed chunk differs from its compressed form",C+": RawBuffer")],
  obs=["element values after forced evictions"]),
p("B03","A live element reference keeps its chunk in place",
  "While an element reference (or an iterator that was dereferenced) is alive, the memory of the element it designates is not reused for another chunk, whatever other elements are read, written or appended meanwhile, and releasing the last reference makes the chunk evictable again. Copying, assigning and destroying references never loses or leaks such a hold.",
  ["histories"],"all interleavings of taking, copying, assigning and dropping references with accesses to other chunks and appends",
  "The tests keep at most one short-lived reference at a time.",
  [C],[("reference counts",C+": ConstRefWrapper, PackBuffer"),("choice of the chunk to evict",C+": get_locked_context, ensure_has_back_bucket")],
  obs=["values and addresses read through held references; later exclusive visits complete"]),
p("B04","Bulk visits cover exactly the requested range in order",
  "The bulk visit functions call the functor once per element of the requested range, in increasing (or decreasing for the backward ones) order, with access to the very element, stop right after the first call that returns false, and return the number of elements visited before that. Visits of a constant vector never change it.",
  ["inputs","histories"],"all ranges over several chunks x stop positions x direction x const or not x compressed or decompressed chunks",
  "The tests visit full ranges with functors returning nothing.",
  [C],[("chunk by chunk visit",C+": for_each, const_for_each, for_each_backward, const_for_each_backward")],
  obs=["sequence of functor calls, return value, final contents"]),
p("B05","Concurrent visits and reads are atomic per element and complete",
  "Any number of threads may read elements and run bulk visits, including modifying ones, at the same time: each functor call sees the latest value of its element, no modification is lost, and all calls terminate. Chunk eviction caused by one thread never disturbs the chunk another thread is using. (A thread does not look up a second element of a chunk while it keeps a reference to one of its elements and another thread waits to modify that chunk.)",
  ["schedules"],"all interleavings of concurrent reads and bulk visits over more chunks than are kept decompressed",
  "The tests never access a vector from two threads.",
  [C],[("per chunk shared lock",C+": PackBuffer::ref_count, SharedSpinner"),("global lock for decompression and eviction",C+": decompress_bucket, dealloc_bucket")],
  obs=["functor calls and final contents under controlled schedules"]),
p("B06","The shared lock gives exclusion without starvation",
  "The reader-writer lock never lets a writer run together with another writer or a reader, lets readers share, never succeeds spuriously in the non-blocking variants, and always ends free after balanced use. A waiting writer eventually proceeds even when readers keep arriving.",
  ["schedules"],"all interleavings of blocking and non-blocking readers and writers",
  "The tests have no concurrent user of the lock.",
  [C],[("state word protocol",C+": SharedSpinner")],
  state=[("lock word","writer bit, writer-waiting bit, reader count",C+": SharedSpinner::d_lock")],
  obs=["entry and exit of critical sections under controlled schedules"]),
p("B07","Serialization preserves the contents and stays interoperable",
  "Deserializing what was serialized, through a memory buffer or a stream, rebuilds a vector with the same contents for every size and internal state, and serializing does not change the vector. The serialized bytes are also a valid frame for the general decompression function, and a too small buffer is reported as an error without being overrun.",
  ["histories","configurations"],"all vector states (sizes around chunk multiples, compressed or dirty last chunk, after shrink, after deserialization) x element types x levels",
  "The tests serialize one vector of one million freshly appended elements.",
  [C,S],[("frame assembly",C+": serialize, compressed_block"),("rebuild",C+": deserialize"),("header",S+": stenos_private_create_compression_header")],
  obs=["serialized bytes, rebuilt contents, return values"]),
p("B08","Deserializing invalid data is refused safely",
  "Deserializing truncated data, data of another chunk size in bytes, or data with an inconsistent header returns an error, never reads outside the given input, and leaves a vector that can be cleared, refilled and destroyed. No such call crashes or leaks.",
  ["inputs","fault_sequences"],"all truncations and header corruptions of serialized vectors, through buffers and streams",
  "The tests only deserialize intact data.",
  [C,S],[("header and size checks",C+": deserialize"),("frame information",S+": stenos_get_info")],
  obs=["return value, memory error detector, later use of the vector"]),
p("B09","Elements are destroyed exactly once and all memory is released",
  "Every element constructed by the vector is destroyed exactly once, whether its chunk is compressed or not when it goes away, and moved, replaced or erased elements are never duplicated. After clearing or destroying the vector all memory obtained by it has been returned to its allocator with the sizes it was requested with.",
  ["histories"],"all operation sequences on heap-owning and move-only elements with evictions",
  "The tests do not count constructions or allocations.",
  [C],[("destruction through a scratch chunk",C+": clear, destroy_pack_buffer, resize_shrink, pop_back"),("buffer release",C+": dealloc_bucket, erase_context, ~CompressedVectorInternal")],
  obs=["live element count and allocator balance"]),
p("B10","Failures leave the vector as the documented guarantees say",
  "When an allocation or an element construction fails during an operation, an appending or single removing operation leaves the vector exactly as before, and any other operation leaves it valid: its size matches its contents, untouched elements keep their values, and it can be used and destroyed. Nothing is leaked and no lock stays held.",
  ["fault_sequences","histories"],"every allocation point and element construction of every operation, in every chunk state",
  "The tests never make an allocation or a constructor throw.",
  [C],[("exception handling",C+": emplace_back, allocate_buffer_for_compression, insert, shrink_to_fit")],
  obs=["contents after the exception, later operations, memory balance"]),
p("B11","The amount of decompressed data kept by a vector is bounded",
  "Whatever the size of the vector and the accesses made, the number of chunks kept decompressed never exceeds the largest number that were referenced at the same time plus a small constant, and shrinking leaves at most one full chunk and the last partial chunk decompressed. The reported memory footprint accounts for it.",
  ["histories"],"all access patterns over many chunks, with and without live references",
  "The tests never look at memory use.",
  [C],[("context reuse",C+": make_or_find_free_context, find_free_context, shrink_to_fit"),("footprint",C+": memory_footprint")],
  obs=["allocator accounting by block size; reported footprint"]),
p("B12","Binary stream iterator yields exactly the complete records of a stream",
  "Reading a stream through the binary iterator yields each complete record once, in order, and ends at the end of the stream whether or not it finishes with an incomplete record. Building a vector from such a range gives exactly these records.",
  ["inputs","histories"],"all stream lengths (including 0 and non-multiples of the record size) x dereference and increment patterns",
  "The iterator is used by no stable test.",
  [C],[("record buffering",C+": istreambuf_iterator")],
  obs=["yielded values and end comparison"]),
p("A12","Ordering of memory operations on weakly ordered processors",
  "Concurrent users of the worker pool, of the library's parallel calls, of a compressed vector and of its shared lock see each other's completed writes on every processor supported by the library, including those that reorder independent memory accesses: whenever two threads access the same memory and one of them writes it, the language orders the two accesses (by locks, atomic operations of sufficient order, creation or end of a thread) or both are atomic or volatile.",
  ["schedules"],"all interleavings of pool users, parallel calls, vector readers and visitors, and lock users x all pairs of accesses of different threads to the same memory",
  "The test hardware keeps the order of writes, so that a missing acquire or release shows no effect; a race shows only in rare interleavings.",
  [P,C,"stenos/internal/stenos.cpp"],[("acquire/release operations",P),("pointer of a chunk, read without lock",C+": TagPointer"),("memory orders of the shared lock",C+": SharedSpinner"),("results of the tasks of a call","stenos/internal/stenos.cpp: stenos_compress_generic, stenos_decompress_generic")],
  obs=["memory accesses and synchronisations of instrumented executions"]),
p("A13","The reported memory footprint and elapsed times are exact",
  "At every moment between two calls, the memory footprint reported for a compression context is the memory its destruction releases (up to a few bytes for each buffer): it accounts for every buffer kept, whatever the sizes, element types, thread counts and failures of the calls made before, does not grow when a call is repeated, and buffers of another superblock size than the last one used are not kept. A timer returns exactly the nanoseconds elapsed on the monotonic clock since its last tick, whatever the two clock readings, independently of other timers.",
  ["histories","inputs"],"all sequences of calls on several contexts x superblock sizes and thread counts; all pairs of clock readings, with the carry between nanoseconds and seconds",
  "The tests call neither the footprint nor the timer functions with known memory or a known clock.",
  [S,"stenos/timer.hpp"],[("footprint",S+": stenos_memory_footprint, clear_buffers, ensure_has_buffers"),("timer","stenos/timer.hpp: tick, tock, diff")],
  obs=["reported footprint against the allocator's accounting; time told under a simulated clock"]),
]
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for q in props: f.write(json.dumps(q)+"\n")
print(len(props))
