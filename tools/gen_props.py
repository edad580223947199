#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as code so that the lines stay valid JSON).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
CORE="include/fastgltf/core.hpp"; IO="src/io.cpp"; FG="src/fastgltf.cpp"; TY="include/fastgltf/types.hpp"; B64="src/base64.cpp"

p("C01","Every byte source gives the same load result",
  "Loading the same glTF or GLB bytes gives the same outcome - the same error, or an asset equal in every observable field and byte - whether they come from memory, a file read into a buffer, a memory-mapped file, a file stream, or a user-written source honouring the documented reading interface. This holds however the storage layer splits or interrupts its reads and whatever the size and alignment of the file, and automatic container detection agrees with the explicit JSON and binary entry points.",
  ["inputs","fault_sequences"],
  "all files (valid, invalid, tiny, page-sized, GLB with every chunk layout) x all sources x all legal short-read/EINTR patterns of the storage",
  "Tests load a handful of files from one or two sources, from a local disk that never splits a read; page-boundary sizes, sub-12-byte files and short reads never occur.",
  [IO,CORE,FG],
  [("GltfDataBuffer/GltfFileStream/MappedGltfFile read, padded read, reset",IO),("determineGltfFileType, loadGltf, loadGltfJson, loadGltfBinary",FG)],
  observe=["Parser::loadGltf* result and the loaded Asset"])
p("C02","Failed reads of the main file never yield an asset",
  "If the storage holding the main glTF/GLB file fails, returns fewer bytes than the file holds, or the file shrinks while it is being opened or loaded (for a memory-mapped file: before it is mapped), then opening or loading reports an error. An asset is returned only if it equals the asset encoded by bytes the storage actually delivered, complete to the file's end, and no returned value ever depends on memory that was never written.",
  ["fault_sequences","inputs"],
  "all files x every read/open/stat/map/seek call x error, short read, end-of-file, shrink and disappearance faults at that call, for every file-backed source",
  "The tests never see a failing or short read: the disk under them always succeeds.",
  [IO,FG,CORE],
  [("GltfDataBuffer(path), GltfFileStream, MappedGltfFile",IO),("loadGltfBinary chunk reading, loadGltfJson",FG)],
  observe=["Expected<> error of FromPath/isOpen and Parser::loadGltf*","contents of the returned Asset"])
p("C03","External buffers and images load completely or fail",
  "When external buffers or images are requested, every one that the returned asset holds in memory (or in a mapped buffer) consists of exactly the bytes of the referenced file from the reported offset, at least as many as the buffer declares. If any of those files is missing, unreadable, shorter than declared, or changes length while being read, the load reports an error instead of returning an asset.",
  ["fault_sequences","inputs"],
  "all assets with external, data-URI and GLB buffers/images x every storage fault at every call made for the external files x with and without buffer-map callbacks",
  "Tests read intact sample files; no test makes an external read fail, come up short or shrink.",
  [IO,FG], [("loadFileFromUri",IO),("parseBuffers, parseImages",FG)],
  observe=["Asset::buffers/images data sources, mapped buffer contents, load error"])
p("C04","Damaged files are contained",
  "For any bytes in storage - torn, bit-flipped, spliced or arbitrary - loading them from any source with any options and callbacks, validating a loaded asset, and re-exporting an asset that validates, always terminates with a result, an error, or a standard out-of-memory exception. None of it accesses memory outside its objects, depends on uninitialised memory, exhausts the stack, or ends the process.",
  ["inputs","fault_sequences"],
  "all corruptions of stored glTF, GLB and external files, applied before or between reads, x sources x options x callbacks",
  "Tests use a few hand-written invalid files; damage positions and combinations are unbounded and memory errors are silent without instrumentation.",
  [FG,IO,B64,TY], [("all parse* functions and the index/size checks","src/fastgltf.cpp"),("validate",FG),("decodeDataUri, base64 decoding",FG),("Exporter::write*",FG)],
  observe=["process survival under address/undefined-behaviour instrumentation, bounded steps, result stability under different memory fill patterns"])
p("C05","A torn main file is never mistaken for a whole one",
  "If only a proper prefix of a well-formed glTF JSON or GLB file reached storage, loading it reports an error, whatever the source; the one exception is a prefix that lost nothing but trailing whitespace or trailing chunk padding, which may load and must then equal the original asset. A GLB whose declared length exceeds the bytes present is always rejected.",
  ["crash_points","inputs"],
  "all well-formed files x every prefix length (crash point of the writer) x every source x GLB with zero, one or several chunks",
  "Tests load whole files; the cut position ranges over every byte of every possible file.",
  [FG,IO], [("loadGltfBinary header/chunk length checks",FG),("simdjson document parse in loadGltfJson",FG)],
  observe=["Parser::loadGltf* result"])
p("C06","A reused parser behaves like a fresh one",
  "The result of a load depends only on that load's input, options and the callbacks currently set, never on what the same parser did before: earlier successful loads, failed loads, loads cut short by an I/O fault, an allocation failure or an exception from a callback, or the parser having been moved. In particular no bytes, buffers or memory of one file ever appear in the asset of another.",
  ["histories","fault_sequences"],
  "all histories of loads (JSON and GLB, valid and invalid, with options and callbacks changing), with faults, on one parser, compared step by step with a fresh parser",
  "Tests create a parser per file; state left behind by a particular earlier load or failure needs specific sequences.",
  [FG,CORE], [("Parser::loadGltf/loadGltfJson/loadGltfBinary state set-up",FG),("Parser move operations",FG)],
  state=[("glbBuffer","binary chunk of the GLB being loaded",CORE),("resourceAllocator","memory pool shared with the produced asset",CORE),("jsonParser","reused JSON parser",CORE),("config/options/directory","per-parser settings",CORE)],
  observe=["Asset and error of each load in the history"])
p("C07","A reused exporter behaves like a fresh one",
  "The result of an export depends only on the asset, the options and the settings currently in force on the exporter, never on earlier exports by the same exporter, whether those succeeded, failed on an invalid asset, or failed on a storage fault. Exporting never changes the asset, and switching between JSON and binary output leaves nothing behind.",
  ["histories","fault_sequences"],
  "all sequences of exports (JSON/GLB, in-memory and to files, valid and invalid assets, faults injected, settings changing) on one exporter compared with a fresh exporter",
  "Tests use a new exporter for each export.",
  [FG,CORE], [("Exporter::writeGltfJson/writeGltfBinary state reset",FG)],
  state=[("errorCode, options, exportingBinary","state of the current export",CORE),("bufferPaths, imagePaths","paths collected by the current export",CORE)],
  observe=["output bytes, reported paths, error code of each export"])
p("C08","Parsers and exporters on different threads are independent",
  "Parsers, exporters and validations running on different threads on their own objects, or reading one shared const asset, give exactly the results they give when run alone, for every interleaving and including the very first use in the process. They share no unsynchronised mutable state and always finish.",
  ["schedules"],
  "all interleavings (preemption at any instrumented memory access, allocation, file call or callback) of 2-4 threads constructing parsers, loading, validating, exporting and destroying",
  "The tests are single-threaded; harmful interleavings of process-wide lazily initialised state occur once per process and need exact timing.",
  [FG,B64,CORE], [("once-initialised CRC function pointer",FG),("lazily selected base64 decoder",B64)],
  state=[("crcStringFunction / crcInitialisation","process-wide string hash selection",FG),("DecodeFunctionGetter","process-wide base64 dispatch",B64)],
  observe=["results of each thread versus solo run; happens-before of shared accesses"])
p("C09","Buffer-map, unmap and base64 callbacks follow one protocol",
  "With map/unmap callbacks set, each buffer or image brought into memory causes exactly one map request for its exact byte count, is written completely within that region (through the custom base64 decoder when one is set), and is then unmapped exactly once before anything else is mapped and before the load returns, also when that load fails. The asset names each accepted region by the id the callback returned, every callback receives the current user pointer, and a callback that declines to map makes the library keep the bytes itself instead of losing them.",
  ["histories","fault_sequences","inputs"],
  "all assets x callback sets changing over a parser's life x callbacks that decline, x storage faults during the write into mapped memory",
  "One test maps one buffer on the happy path; failure paths, declining callbacks and ordering over several buffers and images are not reached.",
  [FG,IO,CORE], [("decodeDataUri",FG),("loadFileFromUri",IO),("GLB binary chunk handling in loadGltfBinary",FG)],
  observe=["recorded sequence of callback calls and the mapped regions"])
p("C10","A file export that reports success is complete on storage",
  "When a file export reports success, the target file and every buffer and image file it refers to are on storage with exactly the bytes an in-memory export of the same asset yields. If creating a directory, or opening, writing or closing any of these files failed, the export reports an error.",
  ["fault_sequences","inputs"],
  "all assets x JSON/GLB x every directory-creation, open, write, close call failing (no space, I/O error, permission, short and torn writes)",
  "Tests export to a working disk; a full disk or failed close never happens.",
  [FG,CORE], [("FileExporter::writeGltfJson/writeGltfBinary, writeFiles, writeFile",FG)],
  observe=["simulated storage contents and Error returned"])
p("C11","A crash during export leaves nothing that loads as something else",
  "If the process stops at any point during a file export into a fresh directory (so that any prefix of its storage operations took effect), or the machine stops (so that each file is missing or cut to any prefix), loading the target from what survived, with its external buffers and images, gives either an error or exactly the asset that was being exported. It never gives a partial asset, short buffers, or different bytes. (An image file, whose length glTF does not record, is only required to be right after a process stop.)",
  ["crash_points","inputs"],
  "all assets x JSON/GLB x every crash point between or inside storage operations x which unsynced writes survive",
  "Tests never interrupt an export.",
  [FG,IO], [("order of writes in FileExporter",FG),("size checks when reading back in parseBuffers/loadFileFromUri/loadGltfBinary",FG)],
  observe=["durable storage image after the crash, load result"])
p("C12","What is exported reads back as the same asset",
  "If exporting an asset that passes validation succeeds, as JSON or GLB, in memory or to files, then loading the result back (with external files) succeeds and gives an asset equal to the exported one in every category, extension, index, name, number and byte the format can represent. The output is valid JSON, with or without pretty-printing, whatever characters the names contain.",
  ["inputs","configurations"],
  "all valid assets over all categories and supported extensions x export options x folder settings x storage that splits writes and reads",
  "Round-trip tests cover a few small assets; field combinations, special characters and extension combinations are unbounded.",
  [FG,CORE,TY], [("Exporter::write*, escapeString, prettyPrintJson",FG),("Parser::parse*",FG),("getBufferFilePath/getImageFilePath",FG)],
  observe=["Asset before export versus Asset after reading back"])
p("C13","Running out of memory is survivable",
  "When memory for a file's contents, a buffer, an image or an export's output cannot be obtained at any point of opening, loading or exporting, the operation ends with an error or a standard out-of-memory exception. The process is not terminated, no memory, descriptor or mapping is lost, no partial asset is returned, and the same objects work again once memory is available.",
  ["fault_sequences"],
  "all loads and exports x every allocation of file-, buffer- or output-size failing (transiently or persistently)",
  "No test makes an allocation fail.",
  [IO,FG,TY], [("nothrow allocation in GltfDataBuffer",IO),("allocation of buffers in decodeDataUri/loadFileFromUri/loadGltfBinary",FG)],
  observe=["error/exception, live allocation and descriptor counts, results of a following load"])
p("C14","Everything acquired is released",
  "Once the sources, parsers, exporters and assets involved are destroyed, every file descriptor, file mapping and heap block the library acquired has been released exactly once, however the operations ended: success, parse error, storage fault, or exception thrown by a callback or user source. Moving any of these objects transfers ownership without leaking or double-releasing.",
  ["histories","fault_sequences"],
  "all histories of opening, moving, self-contained failing and destroying readers, parsers, exporters and assets with storage faults at every call",
  "Tests check results, not resources; leaks sit on failure paths that never run.",
  [IO,FG,CORE,TY], [("MappedGltfFile constructor/move/destructor",IO),("ownership in GltfDataBuffer, Parser, Asset",CORE)],
  observe=["simulated descriptor/mapping tables and live heap blocks at the end of a run"])
p("C15","A loaded asset stands on its own",
  "A loaded asset stays valid and unchanged after the byte source, the parser and other assets loaded by the same parser are reused, moved or destroyed in any order. Moving an asset, by construction or assignment over another loaded asset, preserves its content exactly and leaves every other asset untouched.",
  ["histories"],
  "all sequences of load, move-construct, move-assign, parser reuse/move/destroy and asset destroy over several assets and parsers",
  "Tests destroy everything in the same order at scope end; dangling memory-pool references need particular destruction orders.",
  [CORE,TY,FG], [("memory pool shared between parser and asset",FG),("Asset move operations",TY)],
  state=[("Asset::memoryResource","pool that owns the asset's strings and small arrays",TY)],
  observe=["full dump of every live asset after every step"])
p("C16","File export stays inside its target and keeps files apart",
  "A file export creates or changes only the target file and files inside the target's directory (or the configured buffer and image folders under it), whatever names the asset's buffers and images carry. Within one export no two buffers, images or the target share a file.",
  ["inputs","histories"],
  "all assets with arbitrary (empty, duplicate, path-like, reserved-character) buffer and image names x folder settings x repeated exports",
  "Tests use plain unique names.",
  [FG], [("getBufferFilePath, getImageFilePath, FileExporter::write*",FG)],
  observe=["paths opened for writing or created on the simulated storage"])
p("C17","The parser honours the byte-source contract",
  "Towards any byte source the parser rewinds before it starts, then only moves forward; it never asks for bytes beyond the size the source reported, and never uses a region returned by an earlier read after reading again. It never keeps using the source after the load returns, so the source and its memory may be discarded at once.",
  ["inputs","histories"],
  "all files incl. malformed headers and chunk lengths x all entry points x sources that recycle their regions on every read",
  "The built-in sources in the tests keep all memory alive and tolerate overlong reads silently.",
  [FG,CORE], [("documented GltfDataGetter contract",CORE),("determineGltfFileType, loadGltfJson, loadGltfBinary",FG)],
  observe=["sequence of calls received by a simulated source; poisoned stale regions"])
p("C18","Extras reach the right object exactly once and survive export",
  "With an extras callback set, each object of a loaded category that carries extras triggers exactly one call with its own extras, its index in its category and its category, and objects without extras trigger none, on every load of a reused parser. On export the extras callback is consulted once for each exported object with the right index and category, and what it returns is attached to that object alone.",
  ["inputs","histories"],
  "all assets with extras on any subset of objects x loads/exports in sequence with user pointers changing",
  "Tests attach extras to one kind of object.",
  [FG,CORE], [("extras handling in parse* and write*",FG)],
  observe=["recorded callback calls"])
p("C19","Accessor tools decode as the specification says",
  "Iterating, copying or converting an accessor (normalised, strided, sparse, matrix) yields the values the glTF specification defines for the underlying bytes.",
  ["inputs"],"all accessors and buffers","Unbounded combinations of component types, strides and sparse overlays; tests sample some.",
  ["include/fastgltf/tools.hpp"],[("iterateAccessor, copyFromAccessor, getAccessorElement","include/fastgltf/tools.hpp")])
p("C20","All base64 decoders agree",
  "The scalar and every SIMD base64 decoder produce the same bytes for every valid input, and never write outside the output region.",
  ["inputs","configurations"],"all base64 strings x decoder implementations","Tests decode a few strings.",
  [B64],[("fallback/sse4/avx2/neon decode",B64)])
p("C21","URIs parse and percent-decode per RFC 3986",
  "Splitting and percent-decoding a URI yields the components RFC 3986 defines for every input string.",
  ["inputs"],"all strings","Tests cover a short list of URIs.",
  [FG],[("URIView::parse, URI::decodePercents",FG)])
p("C22","Transforms compose and decompose consistently",
  "Decomposing a node matrix and recomposing it, and composing scene transforms, agree with the mathematical definition up to rounding.",
  ["inputs"],"all matrices, quaternions and node trees","Numeric domain; tests sample a few values.",
  ["include/fastgltf/math.hpp","include/fastgltf/tools.hpp"],[("math::decomposeTransformMatrix, iterateSceneNodes","include/fastgltf/math.hpp")])
p("C23","Category selection only leaves things out",
  "Loading with a subset of categories gives, for the selected categories and those they depend on, the same content as a full load, and leaves the rest empty.",
  ["inputs","configurations"],"all files x category masks","Tests use a couple of masks.",
  [FG],[("Parser::fillCategories, parse",FG)])
p("C24","A well-formed file is read as it is written",
  "Loading a well-formed glTF or GLB file gives exactly the asset the file describes: every object of every category in its place, every field, default, index, name, extension and byte as the glTF specification and the supported extensions define it. This holds whatever way the file is written down: order of keys, whitespace, escapes, number formats, omitted or explicit defaults, unknown members and extensions, embedded, external or GLB buffers.",
  ["inputs","fault_sequences"],
  "all assets over all categories and supported extensions x all legal ways of writing them down x sources and storage that splits and interrupts reads",
  "Tests load sample files and check a few fields of each; the combinations of optional fields, key orders and extensions are unbounded.",
  [FG,CORE,TY], [("Parser::parse*",FG),("defaults of the asset types",TY)],
  observe=["full dump of the loaded Asset compared with the asset that was written down by an independent encoder"])
p("C25","What validation accepts is safe to use",
  "If validate() accepts an asset, however it came about (loaded from a file that was damaged between writing and reading, loaded from a file that was written wrong, or built by an application), then every index in it names an object that exists (except the default scene of an asset without scenes and the target node of an animation channel in an asset without nodes, which are what loading some categories leaves), every buffer view and compressed buffer view lies within its buffer, every buffer holds the bytes it declares, every accessor and its sparse parts lie within their buffer views, and the nodes form strict trees: reading all accessors and walking all scenes terminates and stays within the data. It also rejects every asset that breaks a rule it enforces (required extensions are a subset of the used ones, extension data only with its extension, alignment and strides, bounds, formats of attributes and indices, animation channels and samplers, cameras, lights, rotations, textures, single root), accepts every valid asset, and an exporter with ValidateAsset refuses what validate() refuses and writes nothing.",
  ["inputs","fault_sequences"],
  "all assets x damage to any file and any wrong value in any field of any object",
  "Tests validate sample files and a handful of wrong values; the guarantee is over every index, range and rule at once.",
  [FG,"include/fastgltf/tools.hpp"], [("validate",FG),("Exporter::writeGltfJson, writeGltfBinary with ExportOptions::ValidateAsset",FG),("iterateAccessor, copyFromAccessor, getAccessorElement, iterateSceneNodes","include/fastgltf/tools.hpp")],
  observe=["result of validate() compared with an independent statement of the rules","addresses touched when everything is read","result and files of a validating export"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
