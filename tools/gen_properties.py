#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

B = "src/kml/base/"; D = "src/kml/dom/"; E = "src/kml/engine/"; C = "src/kml/convenience/"; R = "src/kml/regionator/"

prop("C01", "A file write reported as successful has stored every byte",
  "When the library reports that a string was written to a file, that file then holds exactly those bytes, replacing whatever it held before. If the storage refuses or loses any part of the data while the file is being opened, written or closed, the write is reported as failed. No other file is changed.",
  ["fault_sequences", "histories", "inputs"],
  "For every history of writes, reads and deletes over any set of paths, every byte string (empty, binary, larger than any buffer) and every placement of open, short-write, interrupted-call, I/O-error, disk-full and close failures.",
  "file_test.cc writes two small strings to a healthy disk; no test makes the storage fail, and the failures happen inside the C++ stream layer at byte counts no test chooses.",
  [B+"file.cc", B+"file_posix.cc", B+"file.h"],
  [("whole-string write to a truncating binary stream, status taken after close", B+"file.cc: File::WriteStringToFile")],
  observe=["return value of the write", "contents of the simulated disk"])

prop("C02", "A file read returns exactly the stored bytes or fails cleanly",
  "When reading a file into a string succeeds, the string holds exactly the bytes stored in that file. When the file cannot be opened or any read fails, the call reports failure and the caller's string keeps its previous value. Existence checks and deletions tell the truth about the storage, and a failed deletion leaves the file in place.",
  ["fault_sequences", "histories", "inputs"],
  "For every file content and size (around every buffer boundary), every split of the content into short reads, and every point at which an open, read or unlink fails.",
  "Tests read small healthy files; a read error half way through a file, or short reads, never occur in them.",
  [B+"file.cc", B+"file_posix.cc", B+"file.h"],
  [("chunked read loop into the output string", B+"file.cc: File::ReadFileToString"), ("stat and unlink wrappers", B+"file_posix.cc: File::Exists, File::Delete")],
  observe=["return values", "caller's output string", "contents of the simulated disk"])

prop("C03", "A KMZ archive whose creation was acknowledged holds every entry",
  "If creating a KMZ archive is reported as successful, the finished file is a valid archive in which every entry whose addition was reported as successful can be read back under its name with exactly its bytes, in the order of addition. If the storage or the compressor fails while the archive is being opened, filled or finished, some step reports failure. Entry names that are absolute or start above the archive root are refused and leave the archive unaffected.",
  ["fault_sequences", "histories", "inputs"],
  "For every sequence of added entries (names, sizes, contents, refused names) and every placement of open, write, seek, disk-full and close failures during the archive's life.",
  "kmz_file_test.cc and zip_file_test.cc create a few tiny archives on a healthy disk and never fail a write.",
  [B+"zip_file.cc", B+"zip_file.h", E+"kmz_file.cc", E+"kmz_file.h"],
  [("entry writing and archive finishing", B+"zip_file.cc: ZipFile::Create, ZipFile::AddEntry, MinizipFile"), ("one-call archive creation", E+"kmz_file.cc: KmzFile::WriteKmz, Create, AddFile")],
  observe=["return values", "bytes of the finished file read by the library and by an independent zip reader"])

prop("C04", "A damaged archive yields the stored content or an error, never garbage",
  "Reading any entry of an archive that was truncated, torn, partly overwritten or had stored bytes flipped either returns exactly the bytes that were originally stored as one entry of that archive or reports failure. It never crashes, never reads outside its input, and never returns altered content as success. Entries of an undamaged archive are always listed completely, in order, and readable.",
  ["inputs", "fault_sequences", "crash_points"],
  "For every archive the library or a standard zip writer can produce (stored and deflated entries, comments, long names, many entries) and every truncation point, lost block, and set of flipped bytes.",
  "Tests read a handful of good archives plus one or two fixed bad files; the damage space is the whole byte range of every archive.",
  [B+"zip_file.cc", B+"contrib/minizip/unzip.c", B+"contrib/minizip/iomem_simple.c", E+"kmz_file.cc"],
  [("table of contents and entry extraction from memory", B+"zip_file.cc: ZipFile::ZipFile, GetEntry"), ("checksum verification when an entry is finished", B+"contrib/minizip/unzip.c: unzCloseCurrentFile")],
  observe=["return values and output of entry reads", "memory-safety instrumentation"])

prop("C05", "The uncompressed-size limit of an archive reader is never exceeded",
  "Once a maximum uncompressed size is configured on an archive reader, reading an entry larger than the maximum fails without delivering any of it, whatever the archive's headers claim, and the reader never allocates memory for more than the maximum on behalf of one entry. Entries within the maximum are unaffected by the setting.",
  ["inputs", "histories", "fault_sequences"],
  "For every limit and every order of changing it, for entries just below, at and above it, and for archives whose size fields were corrupted upwards or downwards.",
  "kmz_file_test.cc checks one limit against one healthy file.",
  [B+"zip_file.cc", B+"zip_file.h", E+"kmz_file.cc"],
  [("size check before allocation", B+"zip_file.cc: ZipFile::GetEntry")],
  observe=["return values and output sizes", "largest allocation made during the read"])

prop("C06", "Temporary files are unique, private, and gone when released",
  "Every successfully created temporary file is a new, empty, owner-only file whose path no live temporary file shares, and it is removed when its owner is destroyed. A failed creation reports failure, leaves the caller's path alone and leaves no file behind. Creating temporary files from several threads at once never changes the process's file-creation mask as seen afterwards.",
  ["schedules", "fault_sequences", "histories"],
  "For every interleaving of creations and releases by several threads and every failure of the underlying system calls (creation, close, unlink).",
  "tempfile_test.cc creates one file at a time on one thread with no failures.",
  [B+"file_posix.cc", B+"tempfile.h"],
  [("unique creation with restrictive mode", B+"file_posix.cc: File::CreateNewTempFile"), ("removal on destruction", B+"tempfile.h: TempFile::~TempFile")],
  observe=["simulated filesystem: names, modes, sizes", "process file-creation mask", "open descriptors"])

prop("C07", "Packing a document packs exactly its readable local references",
  "Packing a KML document with its local references into a KMZ archive stores the document first as the default KML file, then each distinct relative reference that lies at or below the document's directory and could be read, once, byte for byte. References that are absolute, remote or point above that directory are never read from disk or packed. The count of references that could not be packed equals the number that failed, and one failing reference does not affect the others. Checking the links of an archive names exactly the relative references of its document that it does not hold.",
  ["fault_sequences", "inputs", "histories"],
  "For every document and reference list (fragments, duplicates, dot segments, traversal attempts, absolute paths, URLs, missing files) and every subset of files whose open or read fails.",
  "kmz_file_test.cc packs three fixed documents from the test data directory with one known missing file; read failures and traversal combinations are not sampled.",
  [E+"kmz_file.cc", E+"get_links.cc", E+"href.cc", E+"kml_uri.cc", B+"uri_parser.cc", "src/kml/convenience/kmz_check_links.cc"],
  [("normalise, reject, deduplicate, read, add", E+"kmz_file.cc: KmzFile::AddFileList"), ("document first, then references", E+"kmz_file.cc: KmzFile::CreateFromElement")],
  observe=["archive contents", "returned error count", "paths opened on the simulated disk"])

prop("C08", "The bounded fetch cache is a bounded, oldest-first, fetch-once cache",
  "A fetch through the cache returns the content the network delivered for that URL, goes to the network only when the URL is not cached, and keeps at most the configured number of items, discarding the oldest stored first. A fetch that fails, or whose content cannot be turned into an item, returns nothing and leaves the cached items as they were. Once the network recovers, the same URL can be fetched successfully.",
  ["histories", "fault_sequences", "configurations"],
  "For every interleaved history of fetches, saves, look-ups, deletions and evictions over any set of URLs and cache sizes, with fetch failures, empty, truncated, corrupted, stale and changed responses at arbitrary points.",
  "net_cache_test.cc runs a few fixed sequences with a fetcher that fails deterministically for one URL.",
  [B+"net_cache.h", B+"memory_file.h"],
  [("look up, fetch, construct, save", B+"net_cache.h: NetCache::Fetch"), ("oldest-entry eviction", B+"net_cache.h: NetCache::Save, RemoveOldest")],
  state=[("cache map", "URL to item and insertion stamp", B+"net_cache.h")],
  observe=["returned items", "requests seen by the simulated network", "reported size"])

prop("C09", "Links are fetched from the right place, through KMZ files, despite faults",
  "Fetching a link relative to a document returns the content the network holds for the URL it resolves to, looking first inside the KMZ archive the base lies in and then beside it, and for a bare KMZ returning its default KML file with its URL inside that archive recorded. A document or archive already cached is not fetched again and a repeated fetch returns the same parsed document. A failed transfer, or a response that cannot be opened, makes that fetch report failure without harming documents already obtained, is tried again when asked for again, and a damaged response never yields part of a document as if it were whole.",
  ["histories", "fault_sequences", "inputs"],
  "For every graph of KML and KMZ resources, every sequence of relative and absolute fetches, cache sizes, and every placement of transfer failures and damaged responses.",
  "kml_cache_test.cc and kmz_cache_test.cc use a fetcher over the test data directory that never fails or corrupts.",
  [E+"kml_cache.cc", E+"kmz_cache.cc", E+"kml_uri.cc", E+"kml_file.cc", E+"link_util.cc"],
  [("resolution and three-way KMZ lookup", E+"kmz_cache.cc: KmzCache::DoFetchAndReturnUrl, FetchFromCache"), ("parsed-document cache", E+"kml_cache.cc: KmlCache::FetchKmlRelative")],
  observe=["returned documents and data", "requests seen by the simulated network"])

prop("C10", "Resolving styles across the network terminates and only drops what failed",
  "Resolving the style of a feature merges, in order, the referenced shared style (following style maps and references into other documents) and then the inline style, so that later values win. A reference that cannot be fetched, parsed or found contributes nothing and everything reachable without it is still merged. Resolution follows at most the library's limit of references (five by default), so it ends within a bounded number of fetches whatever cycles the references form.",
  ["inputs", "fault_sequences", "histories"],
  "For every graph of documents, styles, style maps and references (including cycles through several documents), both style states, and every subset of fetches that fail or return damaged content.",
  "style_resolver_test.cc uses a few fixed files and one self-reference; failing fetches part way through a chain are not sampled.",
  [E+"style_resolver.cc", E+"style_merger.cc", E+"merge.cc", E+"kml_cache.cc"],
  [("recursive merge with nesting bound", E+"style_merger.cc: StyleMerger::MergeStyleUrl, MergeStyleMap"), ("field-wise merge", E+"merge.cc: MergeElements")],
  observe=["resolved style", "requests seen by the simulated network"])

prop("C11", "Web-service clients report exactly what the service acknowledged",
  "Each call of a web-service client issues the documented requests, with the right method, address, session headers and body, and reports success only if the transport succeeded; after a successful login every request carries that login's token and no other, an incomplete login answer is refused, and feeds and entries that fail to arrive or to parse are reported as absent. Posting the placemarks of a document posts each placemark with a geometry exactly once, in order, and returns the number the service accepted. Collecting a multi-page feed delivers every feature of the pages received in order, follows each page address at most once, stops at the first page that cannot be obtained, and never alters the feed it reads from.",
  ["histories", "fault_sequences", "inputs"],
  "For every sequence of client calls, every document posted, every paging structure, and every request that is refused, dropped, or answered with a truncated or corrupted body.",
  "The client tests use canned responses with no failures and one or two pages.",
  [C+"google_maps_data.cc", C+"google_doc_list.cc", C+"google_spreadsheets.cc", C+"google_picasa_web.cc", C+"http_client.cc", C+"atom_util.cc"],
  [("request construction and result propagation", C+"google_maps_data.cc: GoogleMapsData::*"), ("login and session headers", C+"http_client.cc: HttpClient::Login, SendRequest"), ("paging", C+"atom_util.cc: AtomUtil::GetNextFeed")],
  observe=["requests recorded by the simulated service", "values returned to the caller"])

prop("C12", "Parsing a stream gives the same result however its bytes arrive",
  "Parsing a document from a stream or in successive buffers yields the same document, the same sequence of observer notifications and the same success or failure as parsing all of its bytes at once, wherever the delivery is split. This holds for every kind of content, including multi-byte characters, CDATA, entities and markup split across deliveries, for KML, Atom, GPX tracks and XML schemas. Whatever the bytes, parsing ends and touches no memory outside its input; a document that declares entities of its own, and could so expand without bound, is refused.",
  ["schedules", "inputs"],
  "For every document, well formed or not, and every division of its bytes into reads or buffers, including one byte at a time and splits at every internal buffer boundary.",
  "kml_stream_test.cc parses small files that fit in one read.",
  [E+"kml_stream.cc", B+"expat_parser.cc", D+"kml_handler.cc", D+"parser.cc", B+"expat_handler_ns.cc"],
  [("buffered parse loop", E+"kml_stream.cc: KmlStream::ParseFromIstream"), ("incremental buffers", B+"expat_parser.cc: ExpatParser::ParseBuffer, ParseInternalBuffer"), ("character data accumulation", D+"kml_handler.cc: KmlHandler::CharData")],
  observe=["resulting document", "observer notifications", "success and error message"])

prop("C13", "An input that fails or ends early is never taken for a whole document",
  "If the input stream reports an error at any point, or ends before the document is complete, parsing returns no document and sets a non-empty error message. It never returns a partial document as success, and the observer's notifications before the failure are a prefix of those for the intact input.",
  ["fault_sequences", "inputs", "crash_points"],
  "For every document and every byte position at which the stream fails (error state, thrown stream error, immediate failure before the first byte) or ends.",
  "kml_stream_test.cc covers one malformed document and no failing stream.",
  [E+"kml_stream.cc", B+"expat_parser.cc", D+"parser.cc", E+"kml_file.cc"],
  [("stream state checked after the read loop", E+"kml_stream.cc: KmlStream::ParseFromIstream"), ("final-buffer completeness check", B+"expat_parser.cc: ExpatParser::ParseInternalBuffer")],
  observe=["returned document and error message", "observer notifications"])

prop("C14", "Serializing to a failing output is reported and harms nothing",
  "When a document is serialized to an output stream and success is reported, the stream received exactly the text that serializing to a string produces. If the stream fails at any point, failure is reported and the bytes accepted before it are a prefix of that text. The document is unchanged by a failed attempt and a later attempt to a healthy output succeeds in full.",
  ["fault_sequences", "inputs"],
  "For every document and every byte position at which the output stream starts to fail, with any sequence of retries to other outputs.",
  "kml_file_test.cc serializes small documents to a healthy string stream.",
  [E+"kml_file.cc", D+"xml_serializer.h", D+"xml_serializer.cc", E+"find_xml_namespaces.cc"],
  [("header, namespaces, serializer to stream", E+"kml_file.cc: KmlFile::SerializeToOstream"), ("shared template for string and stream", D+"xml_serializer.h")],
  observe=["return value", "bytes accepted by the simulated output", "later serialization of the same document"])

prop("C15", "An observer can cancel or filter a parse at any notification",
  "When a parse observer declines to continue at any notification, the parse stops, no document is returned, an error message is set, and no later element is announced to any observer. When an observer refuses a child, that child and only that child is left out of the resulting document. Notifications follow document structure: an element is announced before its children and completed after them.",
  ["schedules", "inputs", "fault_sequences"],
  "For every document, every notification index at which an observer cancels or refuses, every position of the observer among several, and every delivery of the input.",
  "parser_observer_test.cc cancels on the first occurrence of one element in a few tiny documents.",
  [D+"kml_handler.cc", D+"parser.cc", D+"parser_observer.h", E+"kml_stream.cc"],
  [("observer fan-out and parser stop", D+"kml_handler.cc: KmlHandler::StartElement, EndElement")],
  observe=["observer notifications", "resulting document", "error message"])

prop("C16", "Threads using separate objects behave as if each ran alone",
  "Any number of threads may parse, build, serialize, clone, resolve, pack and unpack their own documents at the same time: each gets exactly the results it would get running alone. The process-wide tables the library creates on first use are created once, so that every thread gets the same ones, and are complete before any thread can see them, whichever threads touch them first.",
  ["schedules", "histories"],
  "For every interleaving of the threads' memory accesses, including the very first use of the library from several threads at once.",
  "All tests are single-threaded.",
  [D+"kml_factory.cc", D+"xsd.cc", B+"zip_file.cc", B+"xml_namespaces.cc", B+"string_util.cc", B+"uri_parser.cc", D+"kml_handler.cc"],
  [("no mutable state shared between objects", "whole library"), ("lazily created factory and schema", D+"kml_factory.cc: KmlFactory::GetFactory; "+D+"xsd.cc: Xsd::GetSchema")],
  state=[("process-wide factory and schema", "element tables", D+"kml_factory.cc, "+D+"xsd.cc")],
  observe=["per-thread results compared with solo runs"])

prop("C17", "Regionating writes every feature once into a well-linked file tree",
  "Dividing a feature list into a region hierarchy writes a tree of KML files in which every feature that has a location (whether or not it is already part of a document) appears exactly once and inside its region, no file holds more than the configured number, higher scores sit nearer the root, and every link names a file that was written, its region being one quarter of the linking file's region at the same level of detail. With a handler of the user's own, exactly the regions it says hold data are descended into and saved, children before parents. At every instant each finished file links only to files finished before it, and when progress monitoring asks to stop, no further regions are processed. If a file cannot be written in full, or the list reaches outside the world, the operation reports failure and the other files are unaffected.",
  ["inputs", "fault_sequences", "schedules"],
  "For every feature set, limit and output directory, every point at which the progress monitor stops the run, and every subset of output files whose writing fails.",
  "The regionator tests use one grid of points on a healthy disk and check file counts.",
  [R+"regionator.cc", R+"feature_list_regionator.h", R+"feature_list_region_handler.cc", R+"regionator_util.cc", C+"feature_list.cc"],
  [("recursive region walk", R+"regionator.cc: Regionator::_Regionate"), ("per-region split and save", R+"feature_list_regionator.h"), ("destructive split by bounding box", C+"feature_list.cc: FeatureList::BboxSplit")],
  observe=["files on the simulated disk", "progress callbacks", "return value"])

prop("C18", "Failed and cancelled operations release everything they acquired",
  "Whatever operation fails, is cancelled or succeeds, once its results are dropped the library holds no memory, open file or temporary file it did not hold before (apart from tables created once per process), and it never touches released memory. Repeating failing operations any number of times does not grow the process.",
  ["histories", "fault_sequences"],
  "For every sequence of parse, stream, archive, cache, style, update, packing, temporary-file and service operations with storage, network, stream and cancellation faults injected at arbitrary points.",
  "Tests never fail operations half way and do not measure what is held afterwards.",
  [B+"zip_file.cc", B+"contrib/minizip/unzip.c", E+"kml_file.cc", E+"kmz_file.cc", E+"kml_stream.cc", E+"kml_uri.cc", B+"uri_parser.cc", D+"kml_handler.cc", B+"referent.h"],
  [("reference counting and scoped ownership", B+"referent.h, boost pointers throughout")],
  observe=["live heap bytes", "open descriptors and files of the simulated system", "memory-safety instrumentation"])

prop("C19", "Applying delivered updates gives the state those updates describe",
  "Applying a sequence of received updates to a loaded document leaves it exactly as performing their create, change and delete operations one by one, in order, on the identified objects. Identified objects are those the document was loaded with; operations whose target is not one of them, creations whose target is not a container, deletions whose target is not a feature, and operations whose target is not mapped when an id mapping is given, change nothing, and a deletion removes the very object the id refers to. The update itself is never altered, so that applying it again, or to another document, has the same meaning.",
  ["histories", "fault_sequences", "inputs"],
  "For every document and every sequence of updates a server may send, with updates lost, duplicated, reordered or delayed on the way.",
  "update_test.cc applies single updates to small documents.",
  [E+"update.cc", E+"update_processor.cc", E+"merge.cc", E+"clone.cc", D+"container.cc", D+"networklinkcontrol.cc"],
  [("per-operation dispatch and target lookup", E+"update_processor.cc: UpdateProcessor::*"), ("field-wise merge and deep copy", E+"merge.cc, "+E+"clone.cc")],
  observe=["serialized document after each delivery", "serialized update after application"])

prop("C20", "A saved document survives reload exactly; an interrupted save is detected",
  "A document saved to a KML or KMZ file and loaded again is the same document: every element, attribute, text and number (to 15 significant digits) is preserved, and object and shared-style look-ups find the same objects. It reads the same to the namespace-aware parsers, however its one namespace is written. After a crash at any moment of saving, loading the file either reports failure or yields exactly the old or the new document, never a mixture or a part of one.",
  ["crash_points", "inputs", "histories", "fault_sequences"],
  "For every document built through the API or parsed, every save path (plain file, archive, stream) and every crash point with any part of the unsynchronised data lost.",
  "Tests round-trip selected elements in memory; none interrupts a save.",
  [B+"file.cc", E+"kml_file.cc", E+"kmz_file.cc", B+"zip_file.cc", D+"xml_serializer.h", D+"kml_handler.cc", E+"object_id_parser_observer.h", E+"shared_style_parser_observer.h"],
  [("serializer and parser agree on every element", D), ("completeness checks of XML and archive formats", B+"expat_parser.cc, "+B+"zip_file.cc")],
  observe=["document reloaded from the post-crash disk image", "serialized form and look-up tables"])

prop("C21", "CSV import delivers each record once, whole, until told to stop",
  "Importing CSV data hands each record to its consumer exactly once, in file order, with its line number, its status and a placemark built from exactly that line's columns. When the consumer asks to stop, nothing further is delivered and the import reports that it did not complete. When reading the file fails part way, only whole records that were read are imported, never a torn one (the older pipe-separated form ends at its first blank line).",
  ["inputs", "fault_sequences", "histories"],
  "For every CSV text (any schema order, quoting, comments, bad rows, line endings), every record at which the consumer stops, and every byte position at which reading the file fails.",
  "csv_parser_test.cc and csv_file_test.cc use small valid inputs and one early stop.",
  [C+"csv_parser.cc", C+"csv_file.cc", B+"csv_splitter.cc", B+"string_util.cc"],
  [("line loop and handler callback", C+"csv_parser.cc: CsvParser::ParseCsvData"), ("file line loop", C+"csv_file.cc: CsvFile::ParseCsvFile"), ("quoted splitting", B+"string_util.cc: SplitQuotedUsing")],
  observe=["records delivered", "return value"])

prop("C22", "Numbers and times mean the same under every locale and time zone",
  "Reading and writing documents, coordinates, times, CSV columns and numbers, naming files and reporting errors gives the same values and the same text whatever C or C++ locale or time zone the process or thread uses, even if it changes while an operation is in progress. No operation changes the caller's locale settings, not even while it lasts, except the scoped C-locale object a caller creates on purpose, which restores what it found.",
  ["configurations", "schedules", "histories"],
  "For every locale (decimal comma, grouping), time zone and every point in a sequence of parses, serializations and conversions at which the application switches it.",
  "Tests run in a single fixed locale and time zone.",
  [B+"string_util.cc", B+"localec.cc", B+"date_time.cc", D+"element.cc", B+"vec3.h", D+"xml_serializer.h", R+"regionator.cc"],
  [("classic locale imbued on every conversion", B+"string_util.cc: ToString, FromString, StringToDouble"), ("scoped C locale", B+"localec.cc")],
  observe=["parsed values and serialized text", "current C, thread and C++ locale"])

prop("C23", "Running out of memory in the XML or zip engine is reported, not fatal",
  "If an allocation fails inside the XML parser, the archive reader or the archive writer, the operation in progress reports failure (or completes correctly), without crashing, leaking or returning altered content. Later operations work normally once memory is available.",
  ["fault_sequences", "inputs"],
  "For every operation on documents and archives and every allocation inside those engines that may fail, singly or persistently.",
  "No test can make an allocation fail.",
  [B+"expat_parser.cc", B+"zip_file.cc", B+"contrib/minizip/unzip.c", B+"contrib/minizip/iomem_simple.c", D+"parser.cc", E+"kml_stream.cc"],
  [("checks on engine handles and buffers", B+"expat_parser.cc, "+B+"contrib/minizip/unzip.c, "+B+"zip_file.cc")],
  observe=["return values and content", "memory-safety instrumentation", "live heap bytes"])

prop("C24", "Rewriting a document while it streams keeps its meaning",
  "Moving inline styles to shared ones, or inlining the shared styles that appear before their reference, while a document is parsed leaves every feature with the style it resolved to before, everything but styles as it was, and the content of updates untouched. Collecting features and shared styles while a document is parsed delivers each exactly once, in order and whole, and leaves none of them behind. The result does not depend on how the input is delivered, and input that fails or ends early delivers only features that were complete.",
  ["inputs", "schedules", "fault_sequences"],
  "For every document with inline and shared styles, style maps, nested containers and updates, every division of its bytes into deliveries, and every byte at which the input ends or fails.",
  "style_splitter_test.cc, style_inliner_test.cc and kml_feature_list_saver_test.cc call the observers by hand or on two fixed files.",
  [E+"style_splitter.cc", E+"style_splitter_internal.h", E+"style_inliner.cc", E+"style_resolver.cc", E+"style_merger.cc", E+"id_mapper.cc", C+"kml_feature_list_saver.h", C+"feature_list.cc"],
  [("parse observers that take over children", E+"style_splitter.cc, "+E+"style_inliner.cc, "+C+"kml_feature_list_saver.h")],
  observe=["resulting document", "collected features and styles"])

prop("C25", "An edited document is exactly what the accepted edits made it",
  "Whatever sequence of setting, replacing, clearing, adding and deleting children and values builds a document, and in whatever order its holders let go of it, reading it, serializing it and visiting it show exactly what the accepted edits made, every element once and in order. An element that already has a parent is not accepted by a second one, and a refused edit changes nothing anywhere; an element is taken for exactly the kinds it is of. A clone equals its source and shares nothing with it: edits of one never show in the other. What a holder keeps stays readable and unchanged when the rest is released, and what nobody holds is freed.",
  ["histories", "inputs"],
  "For every history of edits and of references taken and released over every kind of KML element, and every document that is cloned.",
  "The dom tests set and clear one child of one element at a time.",
  ["src/kml/dom/element.h", "src/kml/dom/element.cc", "src/kml/dom/container.cc", "src/kml/dom/document.h", "src/kml/dom/feature.h", "src/kml/dom/geometry.h", "src/kml/dom/visitor.cc", B+"xml_element.h", B+"referent.h", E+"clone.cc"],
  [("one parent per element, counted references", "src/kml/dom/element.h SetComplexChild, AddComplexChild; src/kml/base/xml_element.h SetParent")],
  observe=["getters", "serialized text", "visited elements", "outstanding memory"])

# Pure-function guarantees: real, but with no schedule, fault, clock or history in them.
prop("C30", "Geometric and conversion helpers compute the documented functions",
  "Distance, radial, bounding-box, colour and date helpers return the documented value for every argument.",
  ["inputs"], "For every numeric or textual argument.",
  "Unit tests sample a few values.", [B+"math_util.cc", E+"bbox.h", B+"color32.h", B+"date_time.cc", E+"location_util.cc"],
  [("closed-form computation", B+"math_util.cc")])
prop("C31", "URI splitting, resolution and normalisation follow the URI standard",
  "Splitting, resolving and normalising references gives the result the URI standard prescribes for every base and reference.",
  ["inputs"], "For every pair of base and reference.",
  "Unit tests use a fixed table.", [E+"kml_uri.cc", E+"href.cc", B+"uri_parser.cc"],
  [("delegation to the URI library", B+"uri_parser.cc")])
prop("C33", "Schema descriptions are parsed into the types they declare",
  "Parsing an XML Schema document yields the declared elements, types and inheritance.",
  ["inputs"], "For every schema document.",
  "Unit tests use two schema files.", ["src/kml/xsd/xsd_file.cc", "src/kml/xsd/xsd_handler.cc"], [("element and type tables", "src/kml/xsd/xsd_file.cc")])
prop("C34", "Balloon text substitutes exactly the entities the feature defines",
  "The balloon text of a feature is its template with every defined entity replaced by its value.",
  ["inputs"], "For every feature, template and entity set.",
  "Unit tests use a few templates.", [E+"feature_balloon.cc", E+"entity_mapper.cc", B+"string_util.cc"], [("entity map and string expansion", E+"entity_mapper.cc")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
