"""Per-property configuration of the checks."""
PROPS = {}
PURE = "a pure function of its arguments: it performs no I/O, reads no clock, shares no state and can meet no fault or schedule, so simulation would only be input generation under another name"
NOT_APPLICABLE = {i: PURE for i in ("C30", "C31", "C33", "C34")}

LIBC = "libc file calls (open, read, write, close, stat, unlink, umask, mkstemp, lseek): in-memory disk of the simulator, with injected faults"
ENGINES = "expat, minizip, zlib, uriparser (the system's libraries, real code)"


def P(id, technique, note, rule, state, real, stub, variant="asan", quick=40000, thorough=2000000, limit=60, **kw):
    d = dict(variant=variant, quick=quick, thorough=thorough, limit=limit, technique=technique, note=note,
             rule=rule, state_measure=state, real=real, stub=stub)
    d.setdefault("assumptions", [])
    d.update(kw)
    PROPS[id] = d


COMMON = "Sampled, not enumerated: a clean batch is evidence, not proof. Trusts the simulator (sim/core.cc and the seams named in the evidence file), the compiler and the sanitizer."

P("C01", "seeded histories of file writes on a simulated disk with open, short-write, EINTR, EIO, ENOSPC and close faults, judged against the disk's content",
  COMMON + " Faults are those POSIX allows a file system to report to the process; bytes the kernel lost after reporting success are not modelled here.",
  "one run = a seeded history of writes, reads and deletes over a few paths with a seeded fault plan; non-trivial = at least one write happened while a fault was armed or over existing content",
  "hash of (operation, fault kinds fired, outcome)",
  ["kmlbase::File", "libstdc++ streams"], [LIBC])
P("C02", "seeded reads and deletions on a simulated disk with short reads, EINTR, EIO and open faults, judged against the stored bytes",
  COMMON,
  "one run = files of seeded sizes around buffer boundaries, read, deleted and probed under a seeded fault plan; non-trivial = a read was split or failed, or content crossed a buffer boundary",
  "hash of (operation, fault kinds fired, outcome)",
  ["kmlbase::File", "libstdc++ streams"], [LIBC])
P("C03", "seeded archive constructions on a simulated disk with write, disk-full, open and close faults; the finished file is read by the library and by an independent zip reader",
  COMMON + " Failures of lseek on a regular file are outside the model (POSIX gives none that apply).",
  "one run = one archive filled with a seeded list of entries (valid, refused, empty, large) under a seeded fault plan; non-trivial = at least one entry added and a fault fired or two or more entries stored",
  "hash of (way of creation, entries, fault kinds fired, outcome)",
  ["kmlbase::ZipFile", "kmlengine::KmzFile", "minizip writer", "zlib"], [LIBC], quick=15000)
P("C04", "seeded archives damaged by truncation, lost or zeroed blocks, torn overwrites and bit flips, read under AddressSanitizer and compared with what was stored",
  COMMON + " Damage that by chance keeps every checksum right is not produced on purpose.",
  "one run = one archive (by the library's or an independent writer), a seeded damage, then every entry read; non-trivial = damage hit the archive and at least one entry was attempted",
  "hash of (damage kinds, entry outcomes)",
  ["kmlbase::ZipFile", "kmlengine::KmzFile", "the bundled unzip and memory stream code", "zlib"], [LIBC])
P("C05", "seeded limits and archives with corrupted size fields; the largest allocation made during each read is measured",
  COMMON,
  "one run = one archive with entries around a seeded limit, size fields possibly corrupted, the limit changed between reads; non-trivial = an entry above the limit was requested",
  "hash of (limit relation, header corruption, outcome)",
  ["kmlbase::ZipFile", "kmlengine::KmzFile", "the bundled unzip code", "zlib"], [LIBC, "operator new: counting wrapper"])
P("C20", "seeded documents saved to a simulated disk, reloaded, and saved again with power lost at a seeded point (unsynced writes kept, lost, torn or zeroed), compared by an independent XML reader",
  COMMON + " Documents come from a grammar of every element the library knows plus unknown content; numbers have at most 15 significant digits.",
  "one run = one generated document saved one of five ways and reloaded, then up to three crash images of a second save; non-trivial = the round trip completed",
  "distinct (parent element, child element, empty or not, way of saving)",
  ["kmldom parser, DOM and serializers", "kmlengine::KmlFile, KmzFile", "kmlbase::File, ZipFile", ENGINES], [LIBC], quick=40000)
P("C12", "seeded division of documents (well formed, damaged, hostile) into reads and buffers, compared with a parse of all bytes at once", COMMON,
  "one run = one generated document, GPX track, XML schema or damaged variant, parsed at once and in seeded pieces; non-trivial = more than one piece",
  "hash of (parser mode, outcome, damage, notifications / 4, pieces)",
  ["kmldom parser and DOM", "kmlengine::KmlStream", "kmlbase::ExpatParser and handlers", "GpxTrkPtHandler", "kmlxsd", "expat"],
  ["std::streambuf of the simulator", "parse observers of the simulator"], quick=150000)
P("C13", "seeded points at which input streams, files and buffers end or fail, judged by an independent XML reader and by the notifications of the intact parse", COMMON,
  "one run = one generated document delivered up to a seeded byte and then ended or failed; non-trivial = a fault fired before or at the end of the document",
  "hash of (delivery mode, outcome, error, notifications)",
  ["kmldom parser and DOM", "kmlengine::KmlStream, KmlFile", "libstdc++ streams", "expat"],
  ["std::streambuf of the simulator", LIBC], quick=150000)
P("C14", "seeded sequences of serializations to streams and files that fail at a seeded byte, judged against the text serialized to a string", COMMON,
  "one run = one document serialized up to four times to failing or healthy outputs, then to a healthy one; non-trivial = an output failed",
  "hash of (attempts, size of the text / 64)",
  ["kmldom serializers", "kmlengine::KmlFile", "libstdc++ streams"],
  ["std::streambuf of the simulator", LIBC])
P("C15", "seeded cancellations and refusals by several parse observers at every kind of notification, under seeded delivery, judged against the document's structure", COMMON,
  "one run = one generated document parsed with one to three observers, one of which stops the parse or refuses a child at a seeded notification; non-trivial = the observer acted",
  "distinct (delivery mode, observers, action, position of the observer, notification index)",
  ["kmldom parser and DOM", "kmlengine::KmlStream", "kmlbase::ExpatParser", "expat"],
  ["std::streambuf of the simulator", "parse observers of the simulator"], quick=150000)
NET = "network: kmlbase::NetFetcher subclass of the simulator with seeded failures, damaged and stale responses"
P("C08", "seeded histories of fetches, saves, deletions and evictions over a simulated network, compared with an executable model of the cache after every operation", COMMON,
  "one run = one history on one cache (raw files, parsed KML or KMZ) with changing network weather; non-trivial = a cache hit or a network fault happened",
  "hash of (item type, capacity, operation, size, requests made)",
  ["kmlbase::NetCache", "kmlbase::MemoryFile", "kmlengine::KmlFile, KmzFile as items", ENGINES], [NET], quick=60000)
P("C09", "seeded crawls over a simulated network of KML and KMZ resources with failing, damaged, stale and changing responses, compared with a model of RFC 3986 resolution and the two-level KMZ look-up", COMMON,
  "one run = one network, one KmlCache, up to 60 fetches relative to documents obtained before; non-trivial = a request was made or a document came from the cache",
  "hash of (cache size, operation, base, target, requests)",
  ["kmlengine::KmlCache, KmzCache, KmlUri, KmlFile, KmzFile", "kmlbase::NetCache, UriParser, ZipFile", ENGINES], [NET], quick=60000)
P("C10", "seeded graphs of documents, styles and style maps (cycles included) on a simulated network with failing and damaged responses, compared with an executable model of the merge", COMMON + " The limit of five references followed per resolution is modelled as the library documents it.",
  "one run = one network of up to five documents, up to six resolutions; non-trivial = more than one reference was followed",
  "hash of (entry point, references followed, requests, substyles)",
  ["kmlengine::StyleResolver, StyleMerger, MergeElements, Clone, KmlCache, KmlFile", "kmldom parser and serializer", ENGINES], [NET], quick=60000)
P("C11", "seeded conversations of the web-service clients with a simulated service that refuses, drops, damages and truncates, judged against the log of what it received and acknowledged", COMMON,
  "one run = four clients of one service, up to ten calls (login, feeds, paging, posts, uploads, downloads) in changing weather; non-trivial = a request was sent",
  "hash of (call, client, weather, requests) and of (pages, features), (posts, accepted)",
  ["kmlconvenience::HttpClient, GoogleMapsData, GoogleDocList, GoogleSpreadsheets, GooglePicasaWeb, AtomUtil", "kmldom parser, DOM and serializers", "kmlengine::KmlFile, Clone", "expat"],
  ["the service: HttpClient::SendRequest override of the simulator"], quick=40000)
P("C07", "seeded documents with local, duplicate, missing, remote, absolute and escaping references, packed from a simulated disk whose reads and opens fail; the archive, the opened paths and the error count are compared with a model", COMMON,
  "one run = one document with up to eight references packed one of four ways; non-trivial = at least one reference should be packed",
  "hash of (way of packing, references to pack, errors, reads failed, entries)",
  ["kmlengine::KmzFile, KmlFile, GetLinks, Href, NormalizeHref", "kmlbase::File, ZipFile, UriParser", "kmldom", ENGINES], [LIBC])
P("C21", "seeded CSV files on a simulated disk with failing and split reads, imported by consumers that stop or throw at a seeded record, compared with the records the file was written from", COMMON,
  "one run = one CSV file (header form or the older pipe-separated form) imported once; non-trivial = at least one record delivered",
  "hash of (records delivered, columns or lines, interruption, fault mode)",
  ["kmlconvenience::CsvParser, CsvFile, FeatureList", "kmlbase::CsvSplitter, SplitQuotedUsing, File", "libstdc++ streams", "kmldom"], [LIBC, "the consumer (CsvParserHandler)"], quick=300000)
P("C19", "seeded documents and streams of updates delivered with loss, duplication, reordering, truncation and restarts to several replicas, each compared after every delivery with an executable model of create, change and delete", COMMON + " Changes address one child of each kind; tracks and array data are created and deleted but not changed piecewise.",
  "one run = one document on one or two replicas, up to five updates of up to three operations delivered by a faulty network; non-trivial = an update was applied",
  "hash of the document's model state after each delivery",
  ["kmlengine::ProcessUpdate, UpdateProcessor, MergeElements, Clone, KmlFile", "kmldom parser, DOM and serializers", "expat"],
  ["network between server and replicas: message queue of the simulator"], quick=15000, thorough=500000)
SCHED = "threads: real threads of which the simulator lets exactly one run; it chooses who continues at every load, store, branch, lock, guarded initialisation and file call of library code"
P("C06", "seeded interleavings of threads that create and release temporary files on a simulated disk with failing system calls, colliding names and an outside process taking names", COMMON + " Interleavings are sequentially consistent.",
  "one run = one to four threads, up to six operations each, one seeded schedule and fault plan; non-trivial = a temporary file was created",
  "hash of (threads, files created, refused, context switches)",
  ["kmlbase::File, TempFile", "boost::intrusive_ptr"], [LIBC, SCHED], variant="sched", quick=20000)
P("C16", "seeded interleavings of threads using the library on separate data in a fresh process, each thread's answers compared with the same work done alone", COMMON + " Interleavings are sequentially consistent; pre-emption is possible at every load, store and branch of the library's own code but not inside libc, libstdc++'s compiled parts, expat, zlib and uriparser.",
  "one run = two to four threads with one or two pieces of work each (parsing, building, styles, archives, files, caches, updates, feeds, CSV, XSD, regionation) under one seeded schedule, in a forked process that has not used the library before; non-trivial = more context switches than threads",
  "distinct histories (hash of every context switch with its position)",
  ["all of kmlbase, kmldom, kmlengine, kmlconvenience, kmlregionator, kmlxsd exercised by sim/workload.cc", ENGINES], [LIBC, SCHED, "network: a private table per thread"], variant="sched", quick=3000, thorough=200000)
P("C17", "seeded feature lists divided into file trees on a simulated disk whose opens, writes and closes fail, with monitors that stop or throw at a seeded region and repeated attempts; the tree on the disk is judged by an independent reader", COMMON,
  "one run = one list of up to 120 features (spread, crowded, coincident, on quadrant borders, without location, part of a document), up to three regionations; non-trivial = files were written or a fault fired",
  "hash of (files, limit, placement, stopped, attempt)",
  ["kmlregionator::FeatureListRegionator, FeatureListRegionHandler, Regionator", "kmlconvenience::FeatureList", "kmlbase::File", "kmldom, kmlengine::Clone, GetFeatureLatLon"], [LIBC, "the progress monitor"], quick=20000)
P("C18", "seeded failing, cancelled and successful operations of every kind over a faulty disk, network, streams and consumers, each repeated with the same faults while every block the library allocates, every descriptor and every temporary file is accounted for", COMMON + " Memory kept by a first use only (tables, caches of the C library) is not counted as a leak.",
  "one run = up to four operations with seeded faults; an operation that keeps memory is repeated up to three times with identical faults; non-trivial = an operation completed",
  "hash of (operation, weather, draws made / 4)",
  ["kmldom, kmlengine, kmlbase, kmlconvenience, kmlregionator, kmlxsd", ENGINES], [LIBC, NET, "std::streambuf, parse observers, CSV consumers and progress monitors of the simulator", "malloc and operator new: counting hooks"], quick=60000)
P("C22", "seeded switches of the process's, the thread's and C++'s global locale by an application thread while library operations are under way in another, answers compared with the C locale and locale settings observed at every switch", COMMON + " Switches happen at every load, store and branch of the library's own code, not inside libc or libstdc++'s compiled parts.",
  "one run = one to three operations done in the C locale and then under a seeded sequence of up to 31 locale switches (7 compiled locales, 3 composed C++ locales); non-trivial = the locale changed more than once",
  "hash of (operations, thread locale, last process and C++ locale)",
  ["all of kmlbase, kmldom, kmlengine, kmlconvenience, kmlregionator, kmlxsd exercised by sim/workload.cc", "kmlbase::LocaleC", ENGINES, "glibc and libstdc++ locales"], [LIBC, SCHED], variant="sched", quick=20000, thorough=1000000)
P("C23", "seeded failures of allocations inside the XML parser, the archive reader and writer and the compressor while documents, archives and caches are in use; every answer compared with the answer given with enough memory, repeated after memory returns, with leaks accounted", COMMON + " Allocations by operator new are not failed (they end in std::bad_alloc), nor those of uriparser (a shared library) and one that minizip's writer, a system library, uses unchecked.",
  "one run = one or two operations, each done with enough memory, then with one, several or all allocations from a seeded point failing, then with enough memory again; non-trivial = an allocation failed",
  "hash of (operation, plan, failures, answers given)",
  ["kmlbase::ExpatParser, ZipFile, UriParser and the bundled unzip", "kmldom parser", "kmlengine::KmlFile, KmlStream, KmzFile, KmlCache", "kmlxsd", ENGINES], [LIBC, NET, "malloc, calloc, realloc of the statically linked C code: wrapped at link time"], variant="alloc", quick=40000, thorough=2000000)
P("C24", "seeded documents with inline and shared styles and updates, rewritten by the library's style splitter, style inliner and feature collector while streamed in seeded pieces that may end or fail, judged by an executable model of style resolution", COMMON + " Inlining is judged for references to shared styles that appear before them; styles are given in the order the schema prescribes.",
  "one run = one document rewritten one of three ways from a string or stream; non-trivial = a style was moved or a feature collected",
  "hash of (rewriting, features, styles moved, styles)",
  ["kmlengine::StyleSplitter, StyleInliner, StyleResolver, StyleMerger, MergeElements, KmlStream", "kmlconvenience::KmlFeatureListSaver, FeatureList", "kmldom", "expat"], ["std::streambuf of the simulator"], quick=60000)
P("C25", "seeded histories of edits by several holders of references, who take and drop them at seeded points, over every kind of KML element, judged after each step by an executable model of the tree", COMMON + " An element is never put below itself, and one that was taken out of a parent is not offered to another (the library documents neither). The visitor interface knows KML elements only, so Atom and address elements need not be met by it.",
  "one run = a history of up to 97 edits over a growing set of elements; non-trivial = a child was accepted",
  "hash of (edits accepted, refused, clones, elements)",
  ["kmldom elements, factory, casts, serializer, visitors", "kmlengine::Clone", "kmlbase::Referent"], ["holders of references"], quick=60000)
