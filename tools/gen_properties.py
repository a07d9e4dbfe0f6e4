#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is maintained here, one entry per property)."""
import json, os
P = []
S = 'src/aaf2/'
def prop(id, title, statement, over, text, why, mech, files, observe=None, state=None, hook=None):
    files = [S + f for f in files]
    a = {"files": files, "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A stored stream behaves exactly like a growable byte array",
 "Whatever sequence of opens, writes, seeks (including past the end), reads and truncations is applied to the streams of a container file, every read returns, and every position and size query reports, what independent growable zero-filled byte arrays would, and no stream's bytes are disturbed by operations on another. After closing and reopening the file, by this library or by an independent reader of the format, each stream holds exactly those bytes.",
 ["histories", "configurations"], "all histories of stream operations on one to three streams, with sizes on both sides of every sector, mini-sector and small-stream cut-off boundary, for both supported sector sizes, live and after reopen",
 "Tests write a handful of random sizes once and read them back; they do not cross the small/large cut-off in both directions, shrink then regrow over recycled sectors, or interleave several streams.",
 [("stream read/write/seek/truncate/allocate", "cfb.py:Stream"), ("mini/regular conversion", "cfb.py:Stream.allocate, Stream.truncate"), ("chain allocation and free lists", "cfb.py:next_free_sect, next_free_minifat_sect, free_fat_chain")],
 ["cfb.py"], ["Stream.read/tell/seek results", "bytes of the closed file, parsed independently"])

prop("C02", "Every closed container file is structurally well formed",
 "After any history of directory and stream operations followed by a close, the bytes on disk form a valid compound file: header counts match the tables, every sector is owned by exactly one chain (or is free), every chain is acyclic, terminated and exactly as long as the size it serves, and every directory slot is either reachable exactly once or empty. An independent reader of the format finds the same tree and bytes as this library does.",
 ["histories", "configurations"], "all bounded histories of create, write, truncate, overwrite, remove, rename and tree-removal, over several sessions and both sector sizes",
 "Tests re-read files only with the library itself, which skips over lost or doubly-owned sectors, wrong counts and unreachable entries.",
 [("table writing at close", "cfb.py:CompoundFileBinary.close, write_fat, write_minifat, write_difat, write_dir_entries"), ("sector and slot allocation", "cfb.py:next_free_sect, next_free_minifat_sect, next_free_dir_id, free_fat_chain, free_dir_entry")],
 ["cfb.py"], ["bytes of the closed file"])

prop("C03", "The directory namespace behaves like a tree of named entries",
 "Creating, opening, listing, walking, looking up, removing, tree-removing and moving entries by path has exactly the effect it would have on an in-memory tree of named directories and streams, both immediately and after close and reopen; entry attributes (kind, class id, flags, times, size) follow the entry. An operation that is rejected (existing target, missing parent, non-empty directory, wrong kind, illegal name or target) raises and leaves every existing entry and its data unchanged.",
 ["histories"], "all histories of namespace operations over a small set of paths with nested directories, including every rejected combination",
 "Tests exercise each call once in a fixed order; a stale cached child list or a half-done rename shows only after particular multi-step histories.",
 [("create/remove/rmtree/move/find/walk", "cfb.py:CompoundFileBinary"), ("child list cache and entry cache", "cfb.py:listdir_dict, read_dir_entry")],
 ["cfb.py"], ["find/listdir/walk/exists", "reopened file"], [("children_cache", "names under each directory", "cfb.py:CompoundFileBinary")])

prop("C04", "Sibling search trees stay ordered, complete and balanced",
 "For every order of adding, removing and renaming entries in one directory, the stored sibling tree contains exactly the remaining entries, is a binary search tree under the format's name ordering (length first, then upper-cased), so that any reader descending it finds every name, and no path from the root to a leaf is more than about twice as long as another.",
 ["histories"], "every permutation of insertions and removals up to a bound, including bursts larger than any in-memory cache",
 "Tests insert random names and check order once with the library's own walker; deletion rebalancing has dozens of cases that only specific shapes reach.",
 [("red-black insert", "cfb.py:DirEntry.insert"), ("red-black delete", "cfb.py:DirEntry.pop"), ("name ordering", "cfb.py:DirEntry.__lt__, __eq__")],
 ["cfb.py"], ["directory sectors of the closed file"])

prop("C05", "Files stay correct when allocation tables outgrow their first block",
 "As a file grows through every point at which a table has to be extended (a further allocation-table sector, the header's list of them full, a further list sector, a further small-sector table, a further directory sector), all earlier and later contents stay intact, live and after reopen, and the reserved range-lock sector is never used for data.",
 ["histories", "configurations"], "every growth step across each table boundary, one allocation at a time, for both sector sizes, with closing and reopening at each step around the boundary",
 "Reaching these boundaries needs files of megabytes to gigabytes; tests stay below the header's capacity or never reopen exactly at a boundary.",
 [("table growth", "cfb.py:next_free_sect, next_free_minifat_sect, next_free_dir_id, mini_stream_grow"), ("table read/write", "cfb.py:read_header, read_fat, write_difat, write_fat")],
 ["cfb.py"], ["bytes of the closed file", "stream contents"])

prop("C06", "Space released by deletes, shrinks and overwrites is reused",
 "Sectors, mini sectors and directory slots released by removing, truncating, overwriting or moving entries become available again, so repeating any such cycle that returns to the same logical contents does not make the file grow without bound, and closing drops the unused tail of the file.",
 ["histories"], "all bounded cycles of operations that return to an earlier logical state, repeated within a session and across sessions",
 "Tests check size after one particular rewrite; a leak of one sector per cycle, or only for one kind of shrink, passes them.",
 [("free lists", "cfb.py:free_fat_chain, free_dir_entry, next_free_sect"), ("tail truncation", "cfb.py:CompoundFileBinary.close")],
 ["cfb.py"], ["size and free space of the closed file"])

prop("C07", "A file opened read-only is never changed and refuses changes",
 "Opening a file for reading and then reading, walking, dumping, copying out of it and closing it leaves its bytes untouched, and every attempt to change it through the object interface (assigning values, editing collections, opening streams for writing) raises an error and has no visible effect.",
 ["histories", "inputs"], "every mutating entry point on every kind of property, and every bounded history of reading operations",
 "Tests attempt one or two assignments; each property kind and each collection method has its own guard.",
 [("write guard", "properties.py:writeonly"), ("modified-object registration guard", "file.py:AAFObjectManager.add_modified"), ("close in read mode", "cfb.py:CompoundFileBinary.close")],
 ["properties.py", "file.py", "cfb.py", "core.py"], ["bytes of the file before and after", "exceptions raised"])

prop("C08", "Results never depend on cache evictions, buffering or object lifetime",
 "Internal caches (sectors, directory entries, child lists, loaded objects), the file buffering setting, and the moments at which unreferenced objects are dropped from memory are invisible: the same history of operations gives the same results and the same file contents for every cache capacity, buffering mode and collection point.",
 ["histories", "configurations", "schedules"], "all bounded histories, under every small cache capacity (including one that evicts on each access), both buffering modes and every choice of points at which unreferenced objects vanish",
 "Tests run with caches far larger than their files, so nothing is ever evicted, and the interpreter's collection points are whatever they happen to be.",
 [("LRU dictionary", "cache.py:LRUCacheDict"), ("sector cache invalidation", "cfb.py:Stream.write, write_modified_dir_entries, read_sector_data"), ("entry and object caches", "cfb.py:read_dir_entry, file.py:AAFObjectManager")],
 ["cache.py", "cfb.py", "file.py"], ["operation results", "bytes of the closed file"])

prop("C09", "Every typed value decodes to what was encoded, within its type's domain",
 "For every type of the data model, a value in the type's domain that is assigned to a property reads back equal, both at once and after close and reopen, in the representation fixed by the format (little-endian, fixed width, terminated text, exact element counts); a value outside the domain is rejected with an error instead of being stored altered.",
 ["inputs", "configurations"], "every type definition of the base and extension models, over boundary values of its domain, and values just outside it",
 "Tests assign a few values to a few properties; the model has over two hundred types and each codec has its own boundaries.",
 [("type codecs", "types.py:TypeDef*.encode/decode"), ("string codecs", "utils.py:encode_utf16le, decode_utf16le, encode_utf16_array")],
 ["types.py", "utils.py", "properties.py", "model/typedefs.py"], ["property value before and after reopen", "encoded bytes"])

prop("C10", "A saved object graph reopens equal, over any number of edit sessions",
 "For every history of edits (adding, changing and deleting properties and objects) divided in any way into open/edit/save/close sessions, the reopened file holds exactly the objects, property values, references and stream contents that the live objects had when it was last closed; splitting the same edits over more sessions or saving more often does not change the result.",
 ["histories"], "all bounded edit histories over a small object graph with every property kind, with every placement of save and close/reopen between edits",
 "Tests save once at the end of a fixed script; a change that is not marked for writing, or is lost when an object is re-read, shows only for particular split points.",
 [("modification tracking", "file.py:AAFObjectManager, properties.py:writeonly/mark_modified"), ("property stream read/write", "core.py:read_properties, write_properties"), ("reference table", "file.py:read_reference_properties, write_reference_properties")],
 ["file.py", "core.py", "properties.py"], ["object graph after reopen"])

prop("C11", "Ordered object collections behave like lists",
 "An ordered collection of owned objects responds to append, insert, extend, item assignment, pop, clear, whole-value assignment, indexing, iteration and length exactly as a list of distinct objects would, for every index including negative and out-of-range ones, in attached and unattached objects, and comes back in the same order after save and reopen.",
 ["histories", "inputs"], "all bounded histories of list operations with every index argument in a window around the valid range, attached, unattached, and with reopen at every point",
 "Tests apply a few operations with in-range indices; index and storage-key bookkeeping can agree for append-only use and disagree after a particular insert/pop/assign sequence.",
 [("vector property", "properties.py:StrongRefVectorProperty"), ("index stream", "properties.py:StrongRefVectorProperty.read_index/write_index")],
 ["properties.py"], ["len/iteration/indexing", "reopened file"])

prop("C12", "Keyed object collections behave like maps on the objects' unique ids",
 "A keyed collection holds at most one object per unique id and responds to append, extend, pop, clear, replacement, lookup, membership, iteration and length exactly as a map from each member's current unique id to the member would, including after a member's id is changed, and comes back equal after save and reopen.",
 ["histories"], "all bounded histories of map operations and id changes over a small key domain with forced collisions, attached and unattached, with reopen at every point",
 "Tests add and remove a few distinct objects; collisions, id changes followed by removal, and re-adding need specific sequences.",
 [("set property", "properties.py:StrongRefSetProperty"), ("id change", "properties.py:StrongRefSetProperty.swap_unique_key, Property.value")],
 ["properties.py"], ["lookup/iteration/len", "reopened file"])

prop("C13", "An object and its storage have one owner; detach and attach move it whole",
 "An object belongs to at most one place of one file at a time: attaching it a second time, or into another file, is refused; detaching it (by removing or replacing it) keeps all its properties, owned objects and stream data usable and attachable again elsewhere in that file; and once a file is closed no temporary storage remains in it.",
 ["histories"], "all bounded histories of attach, detach, replace and re-attach over a small graph of nested objects that includes stream data",
 "Tests detach and re-attach one object once; leftovers, lost stream data and stale ownership arise from particular orders across parents and children.",
 [("attach/detach", "core.py:AAFObject.attach, detach"), ("per-property attach/detach", "properties.py:StrongRef*.attach/detach, StreamProperty.attach/detach"), ("temporary storage", "file.py:AAFObjectManager.create_temp_dir, remove_temp")],
 ["core.py", "properties.py", "file.py"], ["object values", "directory tree of the closed file"])

prop("C14", "Weak references resolve to the object with the referenced id",
 "A weak reference always yields the object that currently has the referenced unique id in the target collection (or fails cleanly when there is none), for single, list and set references, immediately, after save and reopen, after any number of further references are added, and after copying; the reference table stored in the file stays consistent with every reference that uses it.",
 ["histories"], "all bounded histories of creating, changing, removing and copying weak references to every kind of target, over several sessions",
 "Tests follow references right after creating them; wrong table positions appear only when references are first created in a different order or in a later session.",
 [("reference table", "file.py:weakref_index, weakref_prop, read/write_reference_properties"), ("weak reference properties", "properties.py:WeakRefProperty, WeakRefArrayProperty")],
 ["properties.py", "file.py", "types.py"], ["resolved objects", "reopened file"])

prop("C15", "Copying an object yields an equal, complete and independent object",
 "Copying an object within a file or into another file yields an object of the same class with equal values for every property, equal owned objects recursively in the same order, and equal stream data; every definition it needs (classes, properties, types, referenced definitions) exists in the destination, and later changes to either copy or source do not affect the other. The source file is left unchanged.",
 ["inputs", "configurations", "histories"], "every property kind and shape of object graph up to a bound, same-file and cross-file destinations with and without the needed definitions, attached and unattached",
 "Tests copy whole sample files and compare a few fields; each property kind has its own copy code and its own same-file/cross-file branches.",
 [("object copy", "core.py:AAFObject.copy"), ("per-property copy", "properties.py:*.copy"), ("definition import", "metadict.py:register_external_classdef, register_external_typedef")],
 ["core.py", "properties.py", "metadict.py", "types.py"], ["copied object's values", "reopened destination"])

prop("C16", "Extended data models persist, with consistent and unique definitions",
 "Classes, properties and types added to a file's data model are usable at once, survive save and reopen (with or without built-in extensions loaded), can be carried into other files, and are looked up consistently by name and by id; every dynamically numbered property gets a number no other property of the file uses, and registering the same definition again changes nothing.",
 ["histories", "configurations"], "all bounded histories of registrations (classes, properties with and without fixed numbers, every kind of type) over several sessions and files with conflicting numbers",
 "Tests register one or two definitions in a new file; conflicts arise between a file's own numbers and numbers allocated in another session or file.",
 [("registration", "metadict.py:register_classdef, register_propertydef, register_typedef_model"), ("import", "metadict.py:register_external_*"), ("local number allocation", "metadict.py:next_free_pid, MetaDictionary.read_properties")],
 ["metadict.py", "types.py"], ["lookups", "reopened file"])

prop("C17", "A rejected assignment or edit leaves the object unchanged",
 "When assigning a value or editing a collection raises an error (wrong type, out-of-domain value, object owned elsewhere or from another file, duplicate member, bad index), the property, the collection, the offered objects and the rest of the file are exactly as before, and the file can still be saved and reopened.",
 ["inputs", "histories"], "every mutating operation on every kind of property with each kind of bad argument, at each position of a multi-item argument",
 "Tests assert that an exception is raised but not that nothing changed.",
 [("validation before mutation", "properties.py:*.value setters, extend, insert, __setitem__"), ("encoding before storing", "types.py:*.encode")],
 ["properties.py", "types.py", "core.py"], ["state before and after the failed call", "reopened file"])

prop("C18", "Identifiers convert losslessly and compare consistently",
 "Unique identifiers (16-byte and 32-byte) convert to and from every textual, byte and integer form without loss, malformed text is rejected, equality agrees with equality of the bytes and with hashing (also against standard UUIDs), ordering is total and consistent, and every field of an identifier can be read back as set without touching other fields. Newly generated identifiers are distinct.",
 ["inputs"], "all identifiers with boundary byte patterns in every position, every representation pair, and malformed texts",
 "Tests convert random identifiers; the byte-order swapped fields and the special label forms need specific bit patterns.",
 [("16-byte identifier", "auid.py:AUID"), ("32-byte identifier", "mobid.py:MobID")],
 ["auid.py", "mobid.py"], ["conversion results"])

prop("C19", "Rational values keep their numerator and denominator and act as exact fractions",
 "A rational built from integers, text, fractions or decimals keeps the given numerator and denominator unreduced, equals and orders like the exact fraction it denotes, and is stored and read back with the same numerator and denominator; a float is converted to the exact or nearest storable fraction with the right sign, and anything that cannot be stored is rejected.",
 ["inputs"], "all small numerator/denominator pairs with signs, and floats at the limits of the storable range",
 "Tests sample a few typical frame rates.",
 [("rational", "rational.py:AAFRational"), ("rational codec", "types.py:TypeDefRecord.encode/decode")],
 ["rational.py", "types.py"], ["numerator/denominator", "reopened file"])

prop("C20", "Slot ids within a mob are unique and resolvable",
 "Within a mob, creating slots through any of the mob's constructors never yields two slots with the same id, an explicitly requested id is either honoured or refused when taken, and looking up any existing id returns that slot while an absent id is refused; this holds for every set of existing ids, with gaps and zero, and after removals and reopen.",
 ["histories", "inputs"], "all sets of existing ids up to a bound and all bounded histories of slot creation and removal",
 "Tests create slots consecutively from an empty mob.",
 [("slot creation", "mobs.py:Mob.create_timeline_slot"), ("slot lookup", "mobs.py:Mob.slot_at")],
 ["mobs.py", "mobslots.py"], ["slot ids"])

prop("C21", "Timeline arithmetic agrees with laying the components out in time",
 "For every sequence of clips, fillers and transitions, the reported positions, the slot's length and the component found at a time agree with laying the components out one after another with each transition overlapping its neighbours by its length; a clip created over a slot covers exactly what remains of it, and following a clip's source chain yields each referenced segment in order down to the end of the chain.",
 ["inputs"], "all sequences of up to a bounded number of components with small lengths, all edit units in and around the range, and all small source chains",
 "Tests use a few fixed sequences.",
 [("positions and lookup", "components.py:Sequence.positions, index_at_time"), ("slot length", "mobslots.py:TimelineMobSlot.length"), ("clip creation and walking", "mobs.py:Mob.create_source_clip, components.py:SourceClip.walk")],
 ["components.py", "mobslots.py", "mobs.py"], ["positions, lengths, found components"])

prop("C22", "Animated values keep key frames in time order and interpolate between them",
 "Adding key frames in any order leaves them sorted by time with one per time (the last value winning); the value at a key frame's time is that key frame's value, before the first and after the last it is clamped, and in between it follows the declared interpolation and, for constant and linear interpolation, stays within the two neighbouring values.",
 ["histories", "inputs"], "all insertion orders of key frames over a small time grid (with repeats), for each interpolation, evaluated on a finer grid, live and after reopen",
 "Tests evaluate a few curves against reference renders.",
 [("key frame insertion and search", "misc.py:VaryingValue.add_keyframe, nearest_index"), ("evaluation", "misc.py:VaryingValue.value_at, interpolation.py")],
 ["misc.py", "interpolation.py"], ["pointlist", "value_at"])

prop("C23", "Imported essence is stored and exported byte for byte with a true description",
 "Importing audio or video essence stores exactly the media bytes of the source (with only the documented frame padding), describes it with the source's own format and true length, and links the created mobs to it; exporting it again yields media with the same format and the same samples, also after save and reopen and whatever the essence's length.",
 ["inputs", "configurations"], "all combinations of channel counts, sample widths, sample rates, odd/even and boundary lengths, header layouts, frame sizes and edit rates within a bound",
 "Tests import generated media of one or two formats and compare frame counts; boundary lengths and header layouts are not enumerated.",
 [("import", "mobs.py:SourceMob.import_audio_essence, import_dnxhd_essence, import_rawvideo_essence, MasterMob.import_*"), ("export", "mobs.py:SourceMob.export_audio"), ("wave reader", "audio.py:WaveReader")],
 ["mobs.py", "audio.py", "essence.py"], ["stream bytes", "descriptor values", "exported file"])

prop("C24", "Video streams are split into exactly the frames they contain",
 "For every supported compression id, size and interlacing, the frame header is decoded to its true values and the stream is split into whole frames whose concatenation is the input; a stream that is not valid, or ends within a frame, is reported or its incomplete tail is not presented as a whole frame.",
 ["inputs"], "every supported compression id and field value, every frame count up to a bound and every truncation class of the last frame",
 "Tests use a few generated streams and depend on an external encoder being installed.",
 [("frame header and size", "video.py:read_dnx_frame_header, dnx_frame_size"), ("frame iteration", "video.py:iter_dnx_stream")],
 ["video.py"], ["frames yielded", "header tuple"])

prop("C25", "Linked MXF media is described by what the MXF file says",
 "Parsing an MXF file yields the metadata sets it contains whatever the order and packing of its sets and the length encoding of its keys, and linking it into an AAF file creates mobs whose ids, slot ids, edit rates, lengths, chains and descriptor values equal those in the MXF metadata, exactly one mob per package, usable again when the same file is linked twice or after reopen.",
 ["inputs", "configurations"], "synthetic MXF files enumerated over descriptor kinds, package chains, set orders, length encodings and padding",
 "Tests need an external encoder to produce MXF files and sample one layout.",
 [("KLV and set parsing", "mxf.py:MXFFile, iter_kl, ber_length, read_set"), ("linking", "mxf.py:MXF*.link")],
 ["mxf.py", "content.py"], ["created mobs and descriptors"])

prop("C26", "Linked external media is described by its own header",
 "Linking an external media file creates a master, file and tape chain whose rates, lengths and format description equal those given by the file and its probe metadata, with the complete original format header carried along whatever chunks precede the audio data; unsupported input is refused.",
 ["inputs", "configurations"], "all bounded header layouts (chunk orders, sizes, padding) and metadata combinations (codecs, rates, stream counts)",
 "Tests link a few generated files.",
 [("media link creation", "ama.py:create_media_link, FormatInfo, StreamInfo"), ("chunk scanning", "ama.py:get_wave_fmt and RIFF helpers")],
 ["ama.py", "content.py"], ["created mobs and descriptors"])

prop("C27", "An input/output failure is reported and never turns into wrong data",
 "If any single read, write, seek, truncate or flush of the underlying file fails during any operation, the operation raises; it never reports success with missing or wrong data, a file being read keeps returning correct data afterwards, and the underlying file is closed when an AAF file's with-block is left by the error.",
 ["fault_sequences", "histories"], "one injected failure (nothing done, or half of a write done) at every underlying file operation of a set of histories",
 "Tests never inject failures.",
 [("container I/O", "cfb.py"), ("session end", "file.py:AAFFile.close, __exit__")],
 ["cfb.py", "file.py"], ["exceptions", "data read back"])

prop("C28", "Comments and tagged values behave like an ordered name-to-value map",
 "Setting, reading, testing, listing and overwriting a mob's comments (and tagged-value attributes) by name behaves like a map that keeps first-insertion order, returns each value with the type it was given, refuses values it cannot store without leaving a half-made entry, and survives save and reopen.",
 ["histories"], "all bounded histories of set/get/contains/items over a few names and value types (including unsupported ones), with reopen at every point",
 "Tests set a couple of comments once.",
 [("tagged value helper", "misc.py:TaggedValueHelper, TaggedValue"), ("indirect codec", "types.py:TypeDefIndirect")],
 ["misc.py", "types.py", "mobs.py"], ["comments items", "reopened file"])

prop("C29", "Dependency listing visits every reachable mob once, dependencies first",
 "For every pattern of references among the mobs of a file, listing the mobs a mob depends on terminates and yields every mob reachable from it exactly once, never itself, and, when the references have no cycle, never before a mob it depends on itself.",
 ["inputs"], "all reference graphs over a small number of mobs, including missing targets, self references, shared dependencies and cycles",
 "Tests use one chain.",
 [("dependency walk", "mobs.py:Mob.dependant_mobs"), ("source references", "components.py:SourceReference.mob")],
 ["mobs.py", "components.py"], ["listed mobs"])

prop("C30", "Damaged containers are rejected or read without hanging",
 "Opening and fully reading a container with any single damaged link (sector chain, table list, directory tree, stream start) or any truncation terminates, within a bound proportional to the file's size, either with an error or with the undamaged parts intact; it never loops, never consumes unbounded memory and never changes the file.",
 ["inputs"], "every single-link substitution by every interesting value, and every truncation point at sector granularity, of small files in both sector sizes",
 "Tests contain one hand-made cyclic chain.",
 [("cycle detection", "cfb.py:get_fat_chain, listdir_dict"), ("header/table reading", "cfb.py:read_header, read_fat, read_minifat")],
 ["cfb.py"], ["termination", "exceptions", "data read"])

prop("C31", "Opening for update and closing without edits changes nothing of substance",
 "Opening any readable file for update and closing it without edits, any number of times, in any mode variant, with or without built-in extensions, keeps every object, property value, reference, collection order and stream byte of the file; only missing standard definitions may be added (those of the extensions only when these are not turned off), and from the second time on nothing changes at all.",
 ["configurations", "inputs"], "every supported way of producing and opening a file (sector sizes, extension flags, buffering, mode spellings) and every sample file, over repeated open/close cycles",
 "Tests open sample files for update once and compare selected parts.",
 [("definition completion on open", "metadict.py:MetaDictionary.read_properties, register_extensions"), ("session", "file.py:AAFFile")],
 ["metadict.py", "file.py", "cfb.py"], ["object dump before and after", "stream bytes"])

prop("C32", "File sessions open, save and close as promised",
 "Each documented mode opens, creates or refuses as specified; what was saved before an exception inside a with-block is kept (as far as only property values were edited since), the exception propagates and the file is closed; after closing, saving is refused, and leaving the with-block or saving repeatedly at any point gives the same final contents as saving once at the end.",
 ["histories", "configurations"], "all bounded histories of open, edit, save, raise, close and reopen in every mode",
 "Tests cover one exception scenario and one mode per test.",
 [("session state", "file.py:AAFFile.__init__, save, close, __exit__")],
 ["file.py", "__init__.py"], ["exceptions", "reopened file"])

prop("C33", "Property storage names are legal and collision-free",
 "Every property that owns storage gets a name that fits the container format, never collides with another property or collection element of the same object, and is reproducible, for every class of the data model and any legal property name, whatever its length or characters.",
 ["inputs"], "every class and property of the base and extension models, and all bounded patterns of long and similar user-defined names, with every local number",
 "Tests use the built-in property names that happen to be short.",
 [("name mangling", "utils.py:mangle_name"), ("element naming", "properties.py:index_ref_name, setup_stream")],
 ["utils.py", "properties.py"], ["directory names on disk"])

prop("C34", "Definition lookup is consistent by id, name, short name and object",
 "Looking up a definition (data, container, codec, parameter, operation, interpolation, tagged value, class, type) by its id, by a standard UUID, by its full or short name (in any letter case; the names of classes and types are exact), or by the definition itself yields that same definition, unknown names are refused, unknown ids give nothing and are refused wherever a definition is to be set, and definitions registered or merged from another file are found the same way, immediately and after reopen.",
 ["inputs", "histories"], "every built-in definition by every form of key, and all bounded histories of registering and merging definitions",
 "Tests look up a few common names.",
 [("dictionary lookup", "dictionary.py:lookup_def, Dictionary.lookup_*"), ("merge", "dictionary.py:Dictionary.update, register_def"), ("metadictionary lookup", "metadict.py:lookup_classdef, lookup_typedef")],
 ["dictionary.py", "metadict.py"], ["lookup results"])

prop("C35", "Retime maps integrate speed curves consistently",
 "The source-offset map generated from a speed curve covers every requested frame once and in order, is zero-based at the curve's first key frame, its increments equal the curve's accumulated speed between the frames, and asking for any sub-range gives the same entries as the whole map.",
 ["inputs"], "all speed curves with up to a few key frames over a small grid of times and speeds (including negative and zero), for each interpolation, and all sub-ranges",
 "Tests compare a few sample curves with reference values.",
 [("integration", "interpolation.py:integrate, integrate_iter"), ("offset map", "misc.py:generate_offset_map")],
 ["interpolation.py", "misc.py"], ["offset map entries"])

prop("C36", "Attributes, constructors and queries are faithful views of what is stored",
 "Every convenience attribute of an object (name, length, start, origin, edit rate, ids, media kind, usage, segment, descriptor, operation and the like) reads exactly the stored property it stands for and, when set, changes that property to the value given and nothing else, whether the object is new, part of the file or read from it; objects made by a constructor or a slot factory store exactly the arguments given and the documented defaults for the others; and the content queries by kind of mob and usage yield exactly the matching mobs of the file, each once, after any history of adding, removing and changing mobs and of reopening.",
 ["histories", "inputs"], "every attribute of every class by every value of its domain and every ordered pair of assignments in each state of the object, every subset of the arguments of every constructor, and all bounded histories of mobs for the queries",
 "Tests set a few attributes on a few classes once.",
 [("component attributes", "components.py:Component, Transition, SourceReference, SourceClip, Timecode, OperationGroup"), ("mob and slot attributes and factories", "mobs.py:Mob, SourceMob; mobslots.py:MobSlot, TimelineMobSlot, EventMobSlot"), ("definitions, parameters, descriptors", "dictionary.py:DefinitionObject, OperationDef, ParameterDef; misc.py:Parameter, VaryingValue, ControlPoint, TaggedValue; essence.py:FileDescriptor, EssenceData"), ("queries", "content.py:ContentStorage.toplevel, mastermobs, compositionmobs, sourcemobs"), ("construction", "file.py:AAFFactory.from_name")],
 ["components.py", "mobs.py", "mobslots.py", "dictionary.py", "misc.py", "essence.py", "content.py", "file.py"], ["attributes", "stored properties", "reopened file", "query results"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
