#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, then run."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Sequential reading delivers every element exactly once, in file order",
  "Reading a PBF stream sequentially calls the callback exactly once for each node, dense node, way and relation stored in its data blobs, in stored order of blobs and groups (and in stored order within each element kind of a group), with that element's own content, and for nothing else; header blobs and blobs of unknown type contribute nothing and do not stop the read. "
  "If the read returns Ok, every element was delivered; if it returns an error, exactly the elements of the data blobs before the first failing blob were delivered.",
  ["inputs", "fault_sequences"], "every sequence of blobs (any number, types, order, empty blocks, many groups, mixed storage), with or without one failing blob at any position",
  "The tests count 5 elements in three files of two blobs each; no multi-blob order, no unknown blobs, no failing blob in the middle, no check of what was delivered before an error.",
  ["src/reader.rs", "src/block.rs", "src/blob.rs"],
  [("ElementReader::for_each", "src/reader.rs"), ("PrimitiveBlock::for_each_element", "src/block.rs"), ("Iterator for BlobReader", "src/blob.rs")],
  observe=["callback sequence and result of ElementReader::for_each"])

p("C02", "Parallel map/reduce equals the sequential result on every schedule",
  "For an associative and commutative reduction with a true identity, parallel map/reduce over a stream returns the same value as mapping and folding all its elements sequentially, whatever the number of worker threads and their interleaving: every element is mapped exactly once and every intermediate value is consumed exactly once. "
  "If any blob fails to read or decode the result is an error, and if none does the result is Ok. A panic of the caller's closure comes through to the caller.",
  ["schedules", "inputs", "fault_sequences"], "all thread counts, interleavings and work splits; all streams including failing ones",
  "One test counts elements of two-blob files on the default pool: with a single data blob there is nothing to interleave and no error to lose.",
  ["src/reader.rs", "src/block.rs"],
  [("ElementReader::par_map_reduce (par_bridge, map, reduce)", "src/reader.rs"), ("BlockElementsIter", "src/block.rs")],
  observe=["map/reduce/identity closure calls", "returned value"])

p("C03", "Blob iteration yields exactly the stored blobs with true types and offsets",
  "Iterating over the blobs of a well-formed stream yields each stored blob exactly once, in order, with its own type string and content, and then ends without an error. "
  "When the reader was created with a known position (from a path or as seekable, at whatever position the stream then was), each blob's offset is exactly the byte position of its frame from the start of the stream; otherwise the offset is absent - never a wrong number. "
  "How the underlying reader splits its reads makes no difference.",
  ["inputs", "configurations", "schedules"], "all frame sequences, all constructors and start positions, all short-read patterns, offsets beyond 2^32",
  "Tests read files of 2-3 small blobs from a path or a BufReader; offsets are compared only with each other for the first blob.",
  ["src/blob.rs"],
  [("Iterator for BlobReader", "src/blob.rs"), ("read_blob_header", "src/blob.rs"), ("Blob::get_type / Blob::offset", "src/blob.rs")],
  state=[("BlobReader.offset", "current known stream position", "src/blob.rs")],
  observe=["items returned by BlobReader::next"])

p("C04", "The header-skipping walk visits the same frames as full blob iteration",
  "Walking a well-formed stream by reading blob headers and skipping contents reports, for each stored blob in order, its type and its stored content size, and (once the position is known) the byte offset of its frame, and leaves the stream so that the next operation - skip or full read, in any mixture - continues at the following frame. "
  "Every reported offset can be used to read that whole blob.",
  ["inputs", "histories"], "all frame sequences and all interleavings of skip, full read and positioned read, including frames beyond 2 GiB and 4 GiB",
  "No test calls the header-skipping walk directly; it is only exercised through a 2-blob index.",
  ["src/blob.rs", "src/indexed.rs"],
  [("BlobReader::next_header_skip_blob", "src/blob.rs"), ("BlobReader::seek_raw", "src/blob.rs")],
  observe=["next_header_skip_blob results", "subsequent next results"])

p("C05", "A cut-off or corrupt stream is never mistaken for a complete one",
  "If a well-formed stream is cut anywhere other than at the end of a blob, then blob iteration (buffered or memory mapped) and sequential or parallel element reading report an error instead of ending normally, after delivering exactly the complete blobs before the cut. "
  "The same holds when a frame's declared sizes reach past the end of the stream, when a declared content size is negative, or when a frame header is not a valid header.",
  ["crash_points", "inputs"], "every cut position of every well-formed stream, every field order in the frames, and all corrupt size fields",
  "Tests only read complete files.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/reader.rs"],
  [("read_blob_header", "src/blob.rs"), ("Iterator for BlobReader", "src/blob.rs"), ("Iterator for MmapBlobReader", "src/mmap_blob.rs")],
  observe=["result of iteration over each prefix"])

p("C06", "Iteration ends after the first error and always terminates",
  "Every blob iterator - full, header-skipping, memory mapped - returns no further item after it has returned an error until the caller explicitly repositions it, and returns no further item after the end of the stream. "
  "On every finite input it ends after a number of items bounded by the size of the input.",
  ["inputs", "histories"], "all finite byte inputs and all numbers of further calls after end or error",
  "Tests never continue an iterator after an error and only use valid files.",
  ["src/blob.rs", "src/mmap_blob.rs"],
  [("last_blob_ok", "src/blob.rs"), ("last_blob_ok", "src/mmap_blob.rs")],
  state=[("last_blob_ok", "no error since the last repositioning", "src/blob.rs, src/mmap_blob.rs")],
  observe=["next / next_header_skip_blob after an error or the end"])

p("C07", "Positioned reads depend only on the position, not on history",
  "Reading the blob at a byte offset returns the blob whose frame starts there and leaves the reader at the frame that follows, whatever was read, skipped, sought or failed before on the same reader, provided the underlying stream works now; seeking reports and assumes exactly the requested position (from start, end, or current position). "
  "An offset at or past the end is reported as an error by a positioned read and as end of iteration after a plain seek.",
  ["histories", "inputs"], "all finite sequences of next, skip, seek and positioned reads, including after errors and end of stream, on clones as well",
  "One doc example re-reads the first blob once; no sequence of operations, no error history.",
  ["src/blob.rs", "src/mmap_blob.rs"],
  [("BlobReader::blob_from_offset", "src/blob.rs"), ("BlobReader::seek / seek_raw", "src/blob.rs"), ("MmapBlobReader::seek", "src/mmap_blob.rs")],
  state=[("offset, last_blob_ok", "cursor state", "src/blob.rs")],
  observe=["blob_from_offset / seek results and following reads"])

p("C08", "Memory-mapped reading is equivalent to buffered reading",
  "On every input, the memory-mapped blob reader and the buffered one agree on the sequence of blob types, byte offsets and decoded contents, and on whether and after which blob an error occurs (for damage inside a blob's own content the mapped reader may report it when that blob is decoded). "
  "Seeking the mapped reader to an offset and reading gives the blob at that offset; positions at or past the end give the end of iteration.",
  ["inputs", "histories"], "all byte inputs: valid, cut, corrupt; all seek histories",
  "One test reads three valid two-blob files through the memory map.",
  ["src/mmap_blob.rs", "src/blob.rs"],
  [("Iterator for MmapBlobReader", "src/mmap_blob.rs"), ("MmapBlob::decode", "src/mmap_blob.rs"), ("MmapBlobReader::seek", "src/mmap_blob.rs")],
  observe=["items of both readers on the same bytes"])

p("C09", "Size limits are enforced exactly for headers and for blob contents",
  "A frame whose declared header size is 64 KiB or more is rejected with the header-too-big error naming that size, and smaller headers are accepted, by buffered and memory-mapped readers alike. "
  "A blob whose uncompressed content is 32 MiB or more is rejected with the message-too-big error whether it is stored raw or compressed, without ever expanding much more than that, and smaller contents are decoded completely - content is never silently shortened.",
  ["inputs", "configurations"], "all declared sizes around and far beyond the limits, raw and zlib, any content whose prefix would also parse",
  "The biggest blob in the tests is below 1 KiB.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/error.rs"],
  [("MAX_BLOB_HEADER_SIZE check", "src/blob.rs, src/mmap_blob.rs"), ("decode_blob", "src/blob.rs")],
  observe=["error kind and decoded content", "peak allocation"])

p("C10", "Decoded content does not depend on how the blob is stored",
  "A blob decodes to the same block whether its content is stored raw or zlib-compressed (any compression settings, fields in any order, with or without the optional size field). "
  "A header or data blob with no content, with a compression other than zlib, or with damaged compressed data (cut, flipped, wrong checksum) decodes to an error, never to an empty or partial block; blobs of unknown type are reported with their exact type string and never decoded.",
  ["inputs", "configurations"], "all contents, storages, compression levels and single-point damages of the compressed bytes",
  "Three fixed files; no unsupported compression, no damage, no unknown type from a file.",
  ["src/blob.rs", "src/mmap_blob.rs"],
  [("decode_blob", "src/blob.rs"), ("Blob::decode / get_type", "src/blob.rs")],
  observe=["Blob::decode, to_headerblock, to_primitiveblock, MmapBlob::decode"])

p("C11", "Dense nodes decode to their exact ids and coordinates",
  "Iterating over a dense group yields exactly the nodes that were delta-encoded in it, in order, each with its exact 64-bit id, latitude and longitude, starting afresh in each group; negative ids, large jumps and repeated values included. "
  "If the parallel arrays differ in length, only the nodes present in all of id, latitude and longitude are yielded.",
  ["inputs"], "all delta sequences, group sizes from none to tens of thousands, extreme values",
  "Tests check three nodes with small positive values from one block.",
  ["src/dense.rs", "src/proto/osmformat.proto"],
  [("DenseNodeIter::next", "src/dense.rs")],
  state=[("cid, clat, clon", "running sums", "src/dense.rs")],
  observe=["id, nano_lat, nano_lon of dense nodes"])

p("C12", "Each dense node gets exactly its own tags",
  "The tags of a dense node are exactly the key/value pairs stored for that node in the shared array, in order - both as strings and as raw indices: never a neighbour's, never lost, also when some or all nodes have no tags, when the array is empty or ends early, and when nodes are skipped, counted or cloned instead of visited one by one. "
  "A trailing odd entry or an excess of entries never causes a panic or shifts tags of preceding nodes.",
  ["inputs", "histories"], "all delimiter layouts of the shared array over all numbers of nodes",
  "The test data has no tagged dense node.",
  ["src/dense.rs"],
  [("DenseNodeIter::next (keys_vals)", "src/dense.rs"), ("DenseTagIter, DenseRawTagIter", "src/dense.rs")],
  state=[("keys_vals_index", "start of the next node's tags", "src/dense.rs")],
  observe=["DenseNode::tags, raw_tags"])

p("C13", "Element metadata is reported exactly, present or absent",
  "Version, timestamp, changeset, user id and user name of nodes, dense nodes, ways and relations are reported with exactly the stored values (delta-decoded for dense nodes, starting afresh in each group), and as absent when not stored; timestamps are the stored value times the block's date granularity in milliseconds (default 1000). "
  "An element is visible unless stored as deleted, and 'deleted' is always the opposite of 'visible'.",
  ["inputs"], "all combinations of present and absent metadata fields, array lengths, values and granularities",
  "Tests check one user id and visibility of five nodes; timestamps, versions, changesets, names, granularity are never checked.",
  ["src/dense.rs", "src/elements.rs", "src/proto/osmformat.proto"],
  [("DenseNodeInfoIter::next", "src/dense.rs"), ("Info", "src/elements.rs"), ("DenseNodeInfo", "src/dense.rs")],
  state=[("ctimestamp, cchangeset, cuid, cuser_sid", "running sums", "src/dense.rs")],
  observe=["info() accessors"])

p("C14", "Ways and relations decode to their exact references and members",
  "A way yields exactly its stored id, tags, ordered node references and (if stored) ordered node locations; a relation yields exactly its stored id, tags and ordered members, each with its exact referenced id, type and role; plain nodes yield their exact id and tags. "
  "Delta-encoded sequences are decoded exactly over the whole 64-bit range and start afresh for each element.",
  ["inputs"], "all reference and member sequences incl. repeated, negative and extreme ids, all member types, empty lists",
  "Tests check one way with four references and one relation with one member (only its role).",
  ["src/elements.rs", "src/proto/osmformat.proto"],
  [("WayRefIter, WayNodeLocationsIter, RelMemberIter, RawTagIter", "src/elements.rs")],
  observe=["refs, raw_refs, node_locations, members, tags, raw_tags"])

p("C15", "Coordinates follow the block's granularity and offsets exactly",
  "For nodes, dense nodes and way locations, the nanodegree coordinate is exactly offset + granularity * stored value, with latitude and longitude each using their own offset and with the defaults 100 and 0 when the block does not state them. "
  "The decimicrodegree value is that number divided by 100 truncated towards zero, and the degree value is that number times 1e-9.",
  ["inputs", "configurations"], "all granularities, offsets (negative included) and stored values whose result is representable",
  "All test files use the default granularity 100 and zero offsets, where offset and granularity mistakes are invisible.",
  ["src/elements.rs", "src/dense.rs", "src/proto/osmformat.proto"],
  [("nano_lat/nano_lon/decimicro_*/lat/lon", "src/elements.rs, src/dense.rs")],
  observe=["nano_*, decimicro_*, lat, lon accessors"])

p("C16", "Strings resolve to the exact table entry or to an error",
  "A tag key or value, user name or role is the exact string table entry its index names, if that entry exists and is valid UTF-8. "
  "A role or user name with an out-of-range index or invalid UTF-8 is reported as the corresponding error carrying that index; tag iteration ends before the first tag that cannot be resolved; raw tags and the raw string table are reported unchanged in every case.",
  ["inputs"], "all string tables (empty, non-UTF-8, duplicate, long, many entries) and all indices including negative and beyond the end",
  "Test files contain only valid short ASCII strings and valid indices.",
  ["src/block.rs", "src/elements.rs", "src/dense.rs"],
  [("str_from_stringtable, get_stringtable_key_value", "src/block.rs"), ("TagIter, DenseTagIter, RelMember::role, user()", "src/elements.rs, src/dense.rs")],
  observe=["tags, raw_tags, role, user, raw_stringtable"])

p("C17", "All ways of walking a block agree and iterators are honest",
  "Walking a block by its flat element iterator, by callback, or group by group yields the same elements with the same content, each exactly once, groups in stored order. "
  "For consistent data every iterator's announced remaining length is exact at every step, a clone continues independently from where it was taken, and skipping, counting or taking the last item agrees with visiting items one by one.",
  ["inputs", "histories"], "all blocks (empty groups, groups mixing kinds, any number of groups) and all interleavings of iterator calls on originals and clones",
  "Tests only collect groups of one-group blocks; lengths, clones and the flat iterator are not compared.",
  ["src/block.rs", "src/dense.rs", "src/elements.rs"],
  [("BlockElementsIter::step", "src/block.rs"), ("for_each_element", "src/block.rs"), ("ExactSizeIterator impls", "src/block.rs, src/dense.rs, src/elements.rs")],
  state=[("ElementsIterState", "which list is being walked", "src/block.rs")],
  observe=["iterator items, len(), nth(), count(), last()"])

p("C18", "Way-and-dependency query returns exactly matching ways and their nodes",
  "The query offers every way of the file to the filter once, in file order, returns exactly the accepted ways in that order, and then returns, in file order, exactly the nodes (plain and dense) whose id is referenced by an accepted way - each stored occurrence once - wherever in the file they are stored, before or after the ways, sorted or not. "
  "No relation and no other node is ever returned.",
  ["inputs", "histories"], "all files (id ranges overlapping, unsorted, negative, nodes after ways, mixed blobs, unknown blobs, repeated ids, references to missing nodes) and all filters",
  "One test runs one filter on files with a single data blob, where the index never prunes anything.",
  ["src/indexed.rs"],
  [("IndexedReader::read_ways_and_deps", "src/indexed.rs"), ("update_element_id_ranges / range_included", "src/indexed.rs")],
  state=[("index: offset, blob type, id ranges", "what is known per blob", "src/indexed.rs")],
  observe=["filter and callback sequences, result"])

p("C19", "Indexed node iteration returns exactly all nodes of the file",
  "Indexed node iteration calls the callback exactly once for every stored plain or dense node of the file, in file order (plain before dense or dense before plain within one group), and for no way or relation, whatever the mixture of blobs and wherever the stream was positioned when the reader was created.",
  ["inputs", "histories"], "all files: blobs with and without nodes, header blobs anywhere, unknown blobs, empty blocks; first and repeated calls",
  "One doc example counts three nodes of a single-data-blob file once.",
  ["src/indexed.rs"],
  [("IndexedReader::for_each_node", "src/indexed.rs"), ("create_index", "src/indexed.rs")],
  state=[("index: offset, blob type, id ranges", "what is known per blob", "src/indexed.rs")],
  observe=["callback sequence, result"])

p("C20", "Indexed query results do not depend on earlier calls or failures",
  "Every call on an indexed reader - index creation, node iteration, way query - gives the result it would give on a fresh reader of the same file, whatever calls came before on it, in any order and number, and whether they succeeded, failed, or were ended by a panic of the caller's closure. "
  "A call that returns Ok is never based on a partially built index: if an earlier call failed, a later one either fails too or gives the complete answer; once the stream works and the file is intact, it gives the complete answer.",
  ["histories", "fault_sequences", "crash_points"], "all finite call sequences with I/O failures at any read or seek, and with damaged blobs",
  "Tests make exactly one call per reader on an intact file.",
  ["src/indexed.rs", "src/blob.rs"],
  [("create_index", "src/indexed.rs"), ("id_ranges caching", "src/indexed.rs"), ("last_blob_ok", "src/blob.rs")],
  state=[("index", "persists across calls", "src/indexed.rs"), ("last_blob_ok", "error latch of the inner reader", "src/blob.rs")],
  observe=["per-call callbacks and results over call histories"])

p("C21", "Hostile input never panics, hangs or exhausts memory",
  "For every byte string, opening, iterating, skipping, decoding and fully traversing it with any of the readers (buffered, memory mapped, sequential, parallel, indexed) finishes with data or an error value: it never panics, never loops forever, and never allocates memory out of proportion to the input size and the 32 MiB content limit.",
  ["inputs"], "all byte strings, in particular mutated and size-corrupted PBF files, in builds with overflow checks",
  "Tests read valid files only.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/dense.rs", "src/elements.rs", "src/indexed.rs", "src/block.rs"],
  [("size checks", "src/blob.rs, src/mmap_blob.rs"), ("delta arithmetic", "src/dense.rs, src/elements.rs"), ("DenseNodeIter keys_vals slicing", "src/dense.rs")],
  observe=["termination, panics, peak allocation of full traversals"])

p("C22", "The header block is reported exactly as stored",
  "Bounding box (nanodegrees times 1e-9, each side from its own field), required and optional feature lists (in order), writing program, source, and the replication timestamp, sequence number and base URL of a header block are reported exactly as stored, and as absent exactly when not stored (an empty or zero stored value is present).",
  ["inputs"], "all combinations of present and absent fields and values",
  "Tests compare only the two feature lists, ignoring order.",
  ["src/block.rs", "src/proto/osmformat.proto"],
  [("HeaderBlock accessors", "src/block.rs")],
  observe=["HeaderBlock accessors"])

p("C23", "Failures of the underlying stream surface as errors, never as data or end",
  "If a read or seek on the underlying stream fails while a reader operation runs, that operation (or the blob decoding it feeds) returns an error - never a normal end of iteration, a shortened result or wrong data - whatever the kind of the failure (interrupted reads may be retried). "
  "Reads that return fewer bytes than asked are not failures and change nothing.",
  ["fault_sequences", "schedules"], "a failure of any kind at any read or seek call of any operation, short reads everywhere",
  "Tests read healthy local files only.",
  ["src/blob.rs", "src/reader.rs", "src/indexed.rs"],
  [("read_blob_header error mapping", "src/blob.rs"), ("seek error handling", "src/blob.rs")],
  observe=["operation results under injected failures"])

p("C24", "Errors name their cause and keep it through conversions",
  "Every failure is reported as an error value whose kind tells what went wrong: a stream that ends within the size prefix is an invalid header size; a header or content over the limit is HeaderTooBig or MessageTooBig with the offending size (the exact stored size for headers and uncompressed contents); a blob without content or with an unsupported compression is Empty; bytes that are no valid message, and streams that end within a header or content, are Protobuf or Io errors; a string index outside the table or a string that is not UTF-8 is reported with that index; "
  "a missing file, a refused seek and a positioned read where no blob is are Io errors that carry the kind the system or stream reported (NotFound, the stream's own kind, UnexpectedEof). "
  "Whole-stream operations report the error of a blob that really fails. Every error has a text that mentions its size or index, exposes its underlying error as cause exactly if it has one, and survives conversion to std::io::Error and back unchanged.",
  ["inputs", "fault_sequences"], "all streams with damage, all string tables and indices, and failures of every kind at any seek or open",
  "Tests look at error kinds of a handful of cut streams and never at texts, causes or conversions.",
  ["src/error.rs", "src/blob.rs", "src/mmap_blob.rs", "src/block.rs", "src/indexed.rs"],
  [("ErrorKind, BlobError, Display, cause, conversions", "src/error.rs"), ("read_blob_header, next, decode_blob", "src/blob.rs"), ("MmapBlobReader::next", "src/mmap_blob.rs"), ("str_from_stringtable", "src/block.rs")],
  observe=["kind(), into_kind(), Display, cause and io::Error conversion of every error"])

p("C25", "A blob is a value of its own: decoding is pure",
  "A blob that was read keeps its type, offset and content for good: decoding it (by type, as header or as data) gives the content of the frame it was read from, however often, in whatever order with other blobs, from clones, and from several threads at once, and whatever happens to the reader meanwhile - it may read on, seek, fail or be dropped. "
  "The same holds for memory mapped blobs, and decoded blocks remain intact after blob and reader are gone. Decoding never changes the blob, also when it fails.",
  ["histories", "schedules"], "all sequences of reading, cloning, decoding (also concurrently) and dropping over all streams",
  "Tests decode every blob exactly once, immediately after reading it, on one thread.",
  ["src/blob.rs", "src/mmap_blob.rs", "src/block.rs"],
  [("Blob::decode, to_headerblock, to_primitiveblock", "src/blob.rs"), ("MmapBlob::decode", "src/mmap_blob.rs"), ("Clone of Blob and MmapBlob", "src/blob.rs, src/mmap_blob.rs")],
  state=[("Blob: header, blob, offset", "an owned value", "src/blob.rs"), ("MmapBlob: header, data, offset", "borrows the map", "src/mmap_blob.rs")],
  observe=["get_type, offset and decoded content of kept blobs and clones"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
