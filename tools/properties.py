"""The one list the property file, the manifest and the design notes are made from."""
CFB = "src/aaf2/cfb.py"
PROP = "src/aaf2/properties.py"
CORE = "src/aaf2/core.py"
FILE = "src/aaf2/file.py"
META = "src/aaf2/metadict.py"
TYPES = "src/aaf2/types.py"
MON = "runtime monitoring: "

PROPS = [
 dict(id="C01", title="A stream reads back exactly the bytes written to it",
  statement="A stream inside an open file behaves like a byte array: after any history of writes, seeks, reads, truncations and reopenings every read, position and size equals that of the byte array, bytes never written read as zero, and other streams are never affected. The same bytes are there after closing and reopening the file.",
  over=["histories", "inputs"],
  quant="all histories of stream operations on several streams in one or more sessions, all sizes around sector, mini sector and mini stream cutoff limits, both sector sizes",
  why="The tests write a handful of sizes front to back; conversions between mini and regular chains, shrinking, growing by seek and interleaved streams in every order are never tried.",
  files=[CFB], mech=[("Stream.write/read/seek/truncate", CFB), ("mini stream to FAT chain conversion", CFB), ("fat_chain_append/free_fat_chain", CFB)],
  technique=MON + "byte-array reference model compared online with every stream operation, plus an independent compound-file parser as an offline oracle on the closed image",
  note="random operation histories, millions of bytes compared per run; bounded to one writing handle per stream"),
 dict(id="C02", title="The storage tree is exactly what the operations made of it",
  statement="Creating, moving, removing and overwriting directories and streams changes exactly the named entries: listing, existence, lookup by path (case-insensitive), class ids, state flags, times and walking always agree with a tree that went through the same operations, in the session and after reopening. A request that is refused leaves the tree unchanged.",
  over=["histories", "inputs"],
  quant="all histories of makedir, makedirs, touch, open, move, remove, rmtree, lookups and refused requests with any legal names, including directories wider and trees larger than the internal caches",
  why="The tests make a few fixed trees; deletion and move in every shape of the underlying red-black tree and cache staleness need long random histories.",
  files=[CFB], mech=[("DirEntry red-black tree add_child/pop", CFB), ("CompoundFileBinary.move/remove/rmtree/makedirs", CFB), ("dir entry caches", CFB)],
  technique=MON + "dictionary-tree reference model compared online and an independent parser on the closed image",
  note="random operation histories including wide directories"),
 dict(id="C03", title="Every file written is a structurally sound compound file",
  statement="After any history of edits and a close, the file is a valid structured-storage file: every sector is owned by exactly one chain or marked free, chain lengths match stream sizes, headers and allocation tables agree with the sector count, and the directory is an ordered, balanced (red-black) tree whose every entry is reachable.",
  over=["histories"],
  quant="all edit histories over any number of sessions, with either sector size, growing and shrinking",
  why="The tests read files back with the same library, which forgives what other readers reject, and only after a few simple edits.",
  files=[CFB], mech=[("write_header/write_fat/write_minifat/write_difat/write_modified_dir_entries", CFB), ("red-black insertion and removal", CFB), ("fat_chain_append/free_fat_chain", CFB)],
  technique=MON + "offline invariant checker: an independent compound-file parser judges every closed image against structural invariants and the model tree",
  note="images of random histories; red-black required only of files the library created"),
 dict(id="C04", title="Compound files of other writers read right and survive edits",
  statement="Any valid structured-storage file, however its sectors, mini sectors and sibling trees are laid out and in whichever of the two versions, is listed and read exactly, reading it never writes to it, and editing it in place keeps every untouched entry and byte and leaves a sound file.",
  over=["inputs", "histories"],
  quant="all valid layouts (scattered chains, holes, unbalanced sibling trees, spare directory slots, DIFAT chains, version 3 and 4) and edit histories on them",
  why="The test files come from a handful of producers with tidy layouts.",
  files=[CFB], mech=[("read_header/read_fat/read_minifat/read_dir_entry", CFB), ("DirEntry.pop on foreign trees", CFB)],
  technique=MON + "independent randomised writer makes the inputs; tree model and independent parser are the oracles; the file object counts writes",
  note="generated layouts, each accepted by the independent parser before use"),
 dict(id="C05", title="Space of removed data is reused; files do not leak",
  statement="Repeating the same cycle of creating and removing data does not make the file grow beyond what the first cycles needed, within a session and across sessions. A closed file contains no allocated space that nothing owns.",
  over=["histories"],
  quant="all cycles of creating and releasing streams and directories by removal, tree removal, truncation, overwriting or growth out of the mini stream, repeated any number of times",
  why="Leaks do not change what is read back, so tests that compare content cannot see them.",
  files=[CFB], mech=[("free sector lists, free_fat_chain", CFB), ("remove/rmtree freeing directory entries", CFB)],
  technique=MON + "high-water-mark monitor on the file object and ownership accounting by the independent parser",
  note="4-8 cycles per case"),
 dict(id="C06", title="Growth past the DIFAT and the 2 GiB range lock stays correct",
  statement="Files whose allocation table outgrows the header (more than 109 table sectors, one or more extra index sectors), or that grow across the 2 GiB range lock, keep every stream intact and stay sound, and the range lock sector is never used for data.",
  over=["histories", "inputs"],
  quant="all growth histories that cross the header index limit one or more times or the 2 GiB limit from any starting layout, with removals and reopenings between",
  why="One test crosses the range lock once in a fixed way, and the multi-sector DIFAT is only crossed by a single size.",
  files=[CFB], mech=[("DIFAT growth", CFB), ("range lock handling", CFB)],
  technique=MON + "stream model with marker comparison plus independent parser on sparse in-memory files",
  note="files above 2 GiB are sparse in memory"),
 dict(id="C07", title="Opening a file for reading never modifies it",
  statement="Whatever is done with a file opened for reading, including walking, dumping, reading streams and attempting any kind of modification, nothing is written to it; attempts to modify stored values or structure raise an error and do not change what the open file shows.",
  over=["histories", "inputs"],
  quant="all files (created by the library or found in the wild) and all histories of read accesses and attempted modifications of properties, reference collections, streams and mobs",
  why="Tests never watch the file object, and try almost no modifications of read-only files.",
  files=[FILE, PROP, CORE, CFB], mech=[("writeonly decorator", PROP), ("AAFObjectManager.add_modified", FILE), ("AAFFile.save/close guards", FILE)],
  technique=MON + "the file object handed to the library records every write, truncate and flush with data; object-graph snapshots are compared before and after each refused modification",
  note="mutation attempts drawn over every public mutating operation"),
 dict(id="C08", title="Damaged files fail cleanly: no hang, no runaway, no write",
  statement="Opening and fully reading a truncated or corrupted file either works or raises an ordinary exception: it terminates, uses bounded memory and never writes to the file.",
  over=["inputs"],
  quant="all byte-level corruptions (bit flips, overwritten fields of headers, tables, directory entries and property streams, truncations, cyclic chains and sibling links) of files of any content",
  why="The test suite contains no damaged file.",
  files=[CFB, CORE, PROP], mech=[("chain following in get_fat_chain", CFB), ("directory tree walking", CFB), ("read_properties", CORE)],
  technique=MON + "structure-aware fault injection into file images; monitors: CPU-time and memory limits, exception type, write log of the file object",
  note="termination judged by a CPU limit far above the typical time"),
 dict(id="C09", title="Saving and reopening reproduces the whole object graph",
  statement="After closing and reopening, every object reachable in the file has the same class, the same set of properties and the same values, references, order of vectors, keys of sets and stream bytes as before; objects that were removed are gone. This holds after any history of edits over any number of sessions, and objects not touched in a session are not changed by it.",
  over=["histories", "inputs"],
  quant="all object graphs made of any classes of the data model with any legal property values, and all edit histories over sessions",
  why="Tests check single properties of a few classes after one save.",
  files=[FILE, CORE, PROP], mech=[("AAFObjectManager.modified/write_objects", FILE), ("read_properties/write_properties", CORE), ("index streams of vectors and sets", PROP)],
  technique=MON + "specification-level object-graph model maintained along random edit histories; checked through the API after every reopening and offline on the closed image by an independent AAF parser",
  note="all concrete classes of the built-in model, random depth-limited graphs"),
 dict(id="C10", title="Typed values are stored by value in the specified encoding",
  statement="A property value of any supported type reads back equal to what was assigned, is stored in the little-endian encoding of its type, and does not change when the assigned object is changed later. Values that the type cannot represent are refused with an error instead of being stored differently.",
  over=["inputs"],
  quant="all types of the data model (integers, enumerations, extensible enumerations, strings, records, fixed and variable arrays, sets, renamed and indirect types) and all values of them, including limits, empty and non-ASCII ones",
  why="Tests try one or two values of a dozen types and decode with the code that encoded.",
  files=[TYPES, "src/aaf2/utils.py"], mech=[("TypeDef*.encode/decode", TYPES), ("Property.value", PROP)],
  technique=MON + "independent encoder compared with the stored bytes (in memory and in the file image) and value oracle on read back, over generated values",
  note="property data below the format's 64 KiB limit; timestamps in whole seconds"),
 dict(id="C11", title="Reference vectors behave like lists",
  statement="A vector of owned objects behaves like a Python list under append, extend, insert, pop, assignment of an item or of the whole value, clear, iteration and indexing (negative indices included): same order, length, identities and errors, attached or not, and the same order after saving and reopening.",
  over=["histories"],
  quant="all histories of list operations on vectors of attached and unattached owners, mixed with garbage collection, saves and reopenings",
  why="Tests append a few items and index them forwards.",
  files=[PROP], mech=[("StrongRefVectorProperty", PROP), ("object cache weak references", FILE)],
  technique=MON + "Python list as reference model, compared after each operation by object identity and after reopening by content; index streams judged offline",
  note="object caches are emptied at random points to force reloading"),
 dict(id="C12", title="Keyed collections behave like dictionaries, also when keys change",
  statement="A keyed set of owned objects (mobs, essence data, definitions, parameters) behaves like a dictionary from unique key to object under append, extend, pop, clear, assignment, lookup, containment and iteration; adding an object with a used key replaces and releases the old one. Changing the id of a contained mob or essence re-keys it without losing any other object, and changing it to a used id is refused without effect.",
  over=["histories"],
  quant="all histories of set operations and id changes, in and out of session, with objects loaded or not",
  why="Tests look mobs up by id but never replace, re-key onto used ids or pop under reloading.",
  files=[PROP], mech=[("StrongRefSetProperty.extend/pop/clear/swap_unique_key", PROP), ("Property.value unique key handling", PROP)],
  technique=MON + "Python dict as reference model compared online and after reopening; keys in index streams compared offline with the objects' own ids",
  note="ids drawn from a small pool to force collisions"),
 dict(id="C13", title="Every object has at most one owner; released objects can be reused",
  statement="Assigning an object that is already owned in the file, or an object of another file or of the wrong class, is refused without changing anything. An object removed from its owner (by pop, clear, replacement, assignment of nothing or deletion) keeps its contents including stream data, is no longer saved with the file, and can be attached elsewhere.",
  over=["histories"],
  quant="all histories of attaching, detaching, replacing, deleting, moving and refused assignments over single references, vectors and sets at any depth",
  why="Tests detach one mob; ownership errors after partial changes and reuse of released objects need adversarial sequences.",
  files=[PROP, CORE], mech=[("AAFObject.attach/detach", CORE), ("StrongRefProperty.value", PROP), ("StreamProperty.attach/detach", PROP)],
  technique=MON + "ownership model (forest of specification nodes) with snapshots compared before and after each refused operation and after each save and reopen",
  note="single thread"),
 dict(id="C14", title="Weak references resolve to the referenced object, always",
  statement="A weak reference, alone or in a vector or set, always yields the very object whose unique key it was set to, before and after saving, reopening and copying; stored references carry the right target table entry, key property and key. Assigning objects of a wrong class or another file is refused without effect.",
  over=["histories", "inputs"],
  quant="all weak reference properties of the data model and all histories of setting, extending, clearing, saving and reopening",
  why="Tests follow data definitions of a few components only.",
  files=[PROP, FILE, META], mech=[("WeakRefProperty, WeakRefArrayProperty", PROP), ("weakref_table, weakref_index, weakref_prop", FILE)],
  technique=MON + "identity oracle on resolved objects and offline checker that resolves every stored weak reference through the file's own reference table",
  note="targets are the dictionary's definition sets and the metadictionary"),
 dict(id="C15", title="Copies are complete and independent, within and across files",
  statement="Copying an object yields an object with equal contents (class, properties, values, owned objects, streams, references), copying into another file also brings along the definitions it needs, and later changes to either side never show on the other. The source is not changed by copying.",
  over=["inputs", "histories"],
  quant="all object graphs, copied in the same file or into a file with or without the definitions, extension classes and dynamic property ids, followed by edits of either side",
  why="Tests copy whole sample files and compare a dump once.",
  files=[CORE, PROP, META, TYPES], mech=[("AAFObject.copy", CORE), ("Property.copy of each kind", PROP), ("register_external_classdef/typedef", META)],
  technique=MON + "canonical structural comparison of source and copy, before and after edits of the other side and after reopening both; offline validation of both images",
  note="graphs generated from the data model including extensions"),
 dict(id="C16", title="The data model in the file describes everything the file stores",
  statement="Every written file carries class, property and type definitions for everything it stores, each property id unambiguous, so that a reader without built-in extensions reads the same values. Classes, properties, types and enumeration elements registered by the user or brought by another file survive saving and reopening and never disturb existing ones.",
  over=["histories", "configurations"],
  quant="all histories of registering classes, properties and enumeration elements in new and existing files, with and without extensions, with conflicting dynamic ids, and copies between such files",
  why="Tests register one class in a new file.",
  files=[META, TYPES], mech=[("MetaDictionary.read_properties merging", META), ("next_free_pid/local_pids", META), ("register_* functions", META)],
  technique=MON + "independent AAF parser decodes every stored property through the model found in the file itself; dictionary model of registered definitions",
  note="dynamic property ids range over 0x8000-0xFFFF"),
 dict(id="C17", title="A failing save is reported and incomplete objects are never written",
  statement="When writing fails (the file system refuses a write, seek, flush or truncation, or an object lacks required properties), the error reaches the caller and the save or close does not report success. Missing required properties are detected before an incomplete object is written, can be supplied and saved later, and saving repeatedly without changes does not alter the content.",
  over=["fault_sequences", "histories"],
  quant="all positions of an I/O error in the sequence of file operations of saves and closes, all required properties left out, and all numbers of repeated saves",
  why="No test injects an I/O error; required properties are tested for one class.",
  files=[FILE, CORE, CFB], mech=[("write_objects, save, close", FILE), ("AAFObject.validate", CORE)],
  technique=MON + "fault injection at the file object at every (quick: sampled) operation index, with the caller-visible outcome and the resulting image as the observed verdict",
  note="crash consistency of a torn file is not promised by the project and not claimed"),
 dict(id="C18", title="Identifiers and rationals convert without loss",
  statement="Mob ids and AUIDs survive every conversion they offer (bytes, integer, text, URN, dictionary, UUID), compare, order and hash consistently with their bytes, and new ids are unique. Rationals keep the given numerator and denominator, and one made from a float is a closest value whose parts fit 32 bits, within range and with positive denominator.",
  over=["inputs"],
  quant="all 16 and 32 byte values (excluding the URN forms that the format itself makes ambiguous), all 32 bit numerators and denominators, all finite floats and numeric strings",
  why="Tests convert a few constants.",
  files=["src/aaf2/auid.py", "src/aaf2/mobid.py", "src/aaf2/rational.py", "src/aaf2/utils.py"],
  mech=[("MobID.urn/int/from_dict", "src/aaf2/mobid.py"), ("AUID constructors", "src/aaf2/auid.py"), ("AAFRational.__new__", "src/aaf2/rational.py")],
  technique=MON + "differential oracle against the standard library (uuid, fractions, int.from_bytes) over generated values",
  note="pure functions: bounded by the number of generated values"),
 dict(id="C19", title="Timelines: slot ids, positions, lengths and source chains are right",
  statement="Slots get unique ids (the lowest free one by default); a sequence's component positions, the component at a time and slot lengths agree with summing component lengths where transitions overlap their neighbours. Source clips resolve to the mob and slot they name, walking a clip follows the chain to its end, and the dependants of a mob are all mobs reachable from it, each once, dependencies first, also with circular references.",
  over=["inputs", "histories"],
  quant="all sequences of clips, fillers and transitions with any lengths, all slot id patterns, all mob reference graphs including cycles and missing mobs",
  why="Tests use a few hand-made sequences without gaps in slot ids or cycles.",
  files=["src/aaf2/components.py", "src/aaf2/mobs.py", "src/aaf2/mobslots.py"],
  mech=[("Sequence.positions/index_at_time", "src/aaf2/components.py"), ("Mob.create_timeline_slot, dependant_mobs, create_source_clip", "src/aaf2/mobs.py"), ("TimelineMobSlot.length", "src/aaf2/mobslots.py")],
  technique=MON + "brute-force reference computations on the generated specification compared with the library's answers, in session and after reopening",
  note="reference graphs up to a few dozen mobs"),
 dict(id="C20", title="Keyframes stay ordered and interpolate to the specified curve",
  statement="Adding keyframes in any order yields a list sorted by time with one keyframe per time, the last value winning. Values at, between and outside the keyframes follow the interpolation (held constant outside, constant, linear, or a curve through the keyframes), retiming maps accumulate the speed curve, and none of this fails for any valid keyframes.",
  over=["inputs", "histories"],
  quant="all sets of keyframes and insertion orders, all times, constant, linear, bezier and cubic interpolation with any handles",
  why="Tests compare a few sample curves from reference files.",
  files=["src/aaf2/misc.py", "src/aaf2/interpolation.py"], mech=[("VaryingValue.add_keyframe/value_at/nearest_index", "src/aaf2/misc.py"), ("bezier_interpolate", "src/aaf2/interpolation.py"), ("generate_offset_map", "src/aaf2/misc.py")],
  technique=MON + "sorted-dictionary reference model and independent numeric curve evaluation (bisection) as oracles over generated curves",
  note="numeric tolerance 1e-2 relative to the curve's range for bezier curves, far tighter elsewhere"),
 dict(id="C21", title="Imported essence comes back byte for byte with true descriptions",
  statement="Importing audio or video stores every sample or frame byte-exactly in the file, with lengths, rates, dimensions and sizes that agree with the media, and mobs and clips that lead from the master mob to the essence. Exporting imported audio yields the same samples and format; the stored essence survives later edits and reopening.",
  over=["inputs"],
  quant="all 16 and 24 bit PCM WAV files (channels, rates, lengths, extra chunks), DNxHD and DNxHR streams of whole frames, raw video, with or without tape, edit rate, length and offline",
  why="Tests import a few generated media files of one length each and rely on external tools to make them.",
  files=["src/aaf2/mobs.py", "src/aaf2/audio.py", "src/aaf2/video.py", "src/aaf2/essence.py"],
  mech=[("import_audio_essence/export_audio/import_dnxhd_essence/import_rawvideo_essence", "src/aaf2/mobs.py"), ("iter_dnx_stream/read_dnx_frame_header", "src/aaf2/video.py"), ("WaveReader", "src/aaf2/audio.py")],
  technique=MON + "generated media with known content; conservation oracle on essence bytes and description oracle computed from the generator's parameters",
  note="media synthesised by the check, no external encoder"),
 dict(id="C22", title="Linked media files are described as they are",
  statement="Linking external media (OPAtom MXF, WAV, AIFF, or files described by probe metadata) creates master, file and tape mobs whose lengths, rates, formats, ids, timecode and locators equal those in the media file, for every legal arrangement of its chunks or packs. Linking leaves a file that saves and reopens to the same mobs.",
  over=["inputs"],
  quant="all WAV/AIFF/MXF headers with any chunk or pack order, padding, unknown chunks and sizes, and probe metadata with any rates and stream combinations",
  why="Tests need ffmpeg made files and check a single duration each.",
  files=["src/aaf2/mxf.py", "src/aaf2/ama.py", "src/aaf2/content.py"],
  mech=[("MXFFile", "src/aaf2/mxf.py"), ("create_media_link", "src/aaf2/ama.py")],
  technique=MON + "generated media headers with known parameters, description oracle on the created mobs, before and after reopening",
  note="headers only, essence is not decoded by the library"),
 dict(id="C23", title="Dictionary lookups find the right definition",
  statement="Looking up a definition by id, by name (short or full, any case) or by the object itself yields that definition and nothing else, and unknown ones are reported. Registered definitions are found by their ids and names from then on and after reopening, and merging dictionaries adds exactly the missing definitions and parameters without altering existing ones.",
  over=["inputs", "histories"],
  quant="all kinds of definitions, all names and ids, registered in any order, and merges of dictionaries with any overlap",
  why="Tests look up a few built-in names.",
  files=["src/aaf2/dictionary.py"], mech=[("lookup_def", "src/aaf2/dictionary.py"), ("register_def/update", "src/aaf2/dictionary.py")],
  technique=MON + "dictionary reference model (id to name and kind) queried after each registration or merge, in session and after reopening",
  note="names without collisions up to case within a kind unless stated"),
 dict(id="C24", title="Content queries and tagged values agree with the stored objects",
  statement="The mobs listed by kind are exactly the mobs of that kind in the file, top-level mobs exactly the compositions marked top-level, essence and mob find each other by id. User comments behave like an insertion-ordered mapping from names to values, keep their values over saving, and setting an existing name changes only that entry.",
  over=["histories", "inputs"],
  quant="all populations of mobs and essence of any kind and usage, and all histories of setting, reading and listing tagged values",
  why="Tests use sample files with fixed counts.",
  files=["src/aaf2/content.py", "src/aaf2/misc.py", "src/aaf2/essence.py"], mech=[("ContentStorage generators", "src/aaf2/content.py"), ("TaggedValueHelper", "src/aaf2/misc.py"), ("SourceMob.essence, EssenceData.mob", "src/aaf2/mobs.py")],
  technique=MON + "set and ordered-mapping reference models compared along random histories and after reopening",
  note="tag values are strings, 32 bit integers and rationals"),
 dict(id="C25", title="Inspecting a file shows everything in it and changes nothing",
  statement="Walking the references of any object visits that object and every object below it exactly once with exactly its streams, owners consistently before or consistently after what they own. Keys, membership, get and getvalue report exactly the properties present; absent properties read as None or empty and unknown names raise KeyError. Printing shows every property below an object. Types, classes and property definitions are found by id, id string and name, with their true ancestors. This holds for objects in the file, outside of it, and in files opened for reading, and no amount of looking changes what is stored.",
  over=["histories", "inputs"],
  quant="all editing histories, every class and property, objects attached, detached and read from files, at any moment between edits",
  why="Tests dump sample files and look at few objects; an object missed by a traversal or a read that leaves a trace shows only on particular graphs.",
  files=["src/aaf2/core.py", "src/aaf2/properties.py", "src/aaf2/metadict.py"], mech=[("AAFObject.walk_references, dump, keys, get", "src/aaf2/core.py"), ("MetaDictionary.lookup_*", "src/aaf2/metadict.py"), ("ClassDef.relatives, all_propertydefs", "src/aaf2/metadict.py")],
  technique=MON + "specification tree compared with traversals, key views, dumps and lookups at random moments of editing histories; offline comparison of the stored trees before and after sessions that only look",
  note="walk_references yields owners last with topdown=True, first otherwise, as the library always has"),
 dict(id="C26", title="Constructors and named attributes are the properties they stand for",
  statement="Creating an object through the factory gives an object of the class asked for, also when the arguments create objects themselves, whose stored properties are exactly the arguments given, by position or by name, and the documented defaults otherwise. Every named attribute of every class reads and sets the one property it stands for, and changes made through either are seen through both. The slot, tape, clip, parameter and definition helpers create objects with the ids, rates, kinds, lengths and names asked for, with new slot ids unused before. All of it is unchanged by saving and reopening.",
  over=["inputs", "histories"],
  quant="all classes with constructors or attributes, all combinations of arguments and values, and all interleavings of attribute and property changes",
  why="Tests use one or two argument combinations of a few classes and rarely look at the properties behind them.",
  files=["src/aaf2/file.py", "src/aaf2/components.py", "src/aaf2/mobs.py", "src/aaf2/mobslots.py", "src/aaf2/misc.py", "src/aaf2/dictionary.py", "src/aaf2/essence.py"],
  mech=[("AAFFactory", "src/aaf2/file.py"), ("Component and its subclasses", "src/aaf2/components.py"), ("Mob slot factories", "src/aaf2/mobs.py"), ("definition classes", "src/aaf2/dictionary.py")],
  technique=MON + "table of what every argument and attribute stands for, compared with the stored properties after construction, each change, saving and reopening",
  note="arguments of the types the AAF specification gives the properties"),
 dict(id="C27", title="Files open at the same time do not influence each other",
  statement="Any number of files can be open in one process and be created, edited, linked, imported into, copied from, saved and read in turns or by several threads, one file per thread, with every interleaving of their operations: each file ends up exactly as if it had been alone. Classes, types, definitions and enumeration members registered in one file are not known to others, files nobody touches stay as they are, and new files are the same whatever happened in the process before.",
  over=["schedules", "histories"],
  quant="all interleavings, down to single lines of the library, of all editing histories of all files, and all earlier histories of the process",
  why="Tests use one file at a time, or two in fixed order; state shared by accident shows only when particular operations of two files interleave.",
  files=["src/aaf2/file.py", "src/aaf2/metadict.py", "src/aaf2/cfb.py", "src/aaf2/core.py", "src/aaf2/properties.py", "src/aaf2/types.py", "src/aaf2/cache.py"],
  mech=[("AAFFile, AAFFactory, AAFObjectManager", "src/aaf2/file.py"), ("MetaDictionary", "src/aaf2/metadict.py"), ("CompoundFileBinary", "src/aaf2/cfb.py"), ("LRUCacheDict", "src/aaf2/cache.py")],
  technique=MON + "seeded thread scheduler handing over at single library lines; each thread keeps the reference model and oracle of its workload; descriptions of untouched and of new files against those recorded at start",
  note="no file, object or stream is shared by threads; the library makes no promise about that"),
 dict(id="C28", title="Names mean what the published object model says",
  statement="Every class, property, type, enumeration member, record field, media kind, container and codec name stands for the identification, local id, encoding and position which the published AAF object model gives it: what is set by name is stored where and how other applications look for it, what other applications stored is read under the right name, and every name, alias and id of the model looks up the same definition in new and reopened files of either sector size, with and without extensions. File signature, byte order and version are those of the specification.",
  over=["inputs", "histories"],
  quant="all classes, properties, types, enumeration members, definitions and aliases of the model, with all values and in all editing histories",
  why="The library writes its own model into each file and reads it back, so a wrong id, type, field order or member number is consistent with itself and breaks only other applications; tests name a small part of the model.",
  files=["src/aaf2/model/classdefs.py", "src/aaf2/model/typedefs.py", "src/aaf2/model/datadefs.py", "src/aaf2/model/ext/classdefs.py", "src/aaf2/model/ext/typedefs.py", "src/aaf2/metadict.py", "src/aaf2/types.py"],
  mech=[("model tables", "src/aaf2/model/classdefs.py"), ("type tables", "src/aaf2/model/typedefs.py"), ("definition tables", "src/aaf2/model/datadefs.py"), ("MetaDictionary", "src/aaf2/metadict.py"), ("setup_empty", "src/aaf2/cfb.py")],
  technique=MON + "object histories generated from a committed table of the published model and judged on the image by that table alone; lookups of the whole table; files of other applications read by name against an independent reader",
  note="the table was drawn up from the tree and agrees with the models stored by other applications in 15 files; additions to the model are accepted"),
]
