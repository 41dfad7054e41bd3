#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one JSON object per property)."""
import json, os
S = "src/opyenxes/"
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files], "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "XES round trip preserves the whole log",
     "Writing any log to the XES XML format and reading it back yields an equal log: the same traces and events in the same order; "
     "on the log and on every trace, event and nested attribute, at any depth, the same attribute keys, types and values; and the same list and container children, "
     "global trace and event attributes, classifiers (names and key lists) and registered extensions. "
     "Text comes back exactly for every character XML can carry, integers and floats exactly, identifiers and booleans exactly, and timestamps to the millisecond with the same UTC offset in whole minutes (a timestamp without an offset means UTC).",
     ["inputs"], "all logs whose keys are unique within an element, whose text is XML-representable, whose classifiers have non-blank names and at least one key, without outer blanks, a leading apostrophe or an apostrophe before a blank in the keys; a UTC offset that is not whole minutes becomes whole minutes, for the same instant",
     "The only round-trip tests need the network and use one tiny log with three attribute types; nothing samples nesting, lists, containers, escapes, offsets, globals with children or multi-key classifiers.",
     ["data_out/XesXmlSerializer.py", "data_in/XesXmlParser.py", "utils/XTokenHelper.py", "utils/XsDateTimeConversion.py", "model/XAttributeTimestamp.py", "model/XAttributeCollection.py"],
     [("attribute writer", S + "data_out/XesXmlSerializer.py add_attributes"), ("SAX handler with attribute stack", S + "data_in/XesXmlParser.py XesXmlHandler"), ("classifier key tokens", S + "utils/XTokenHelper.py")],
     ["log model before writing and after reading, through the public getters"])

prop("C02", "Written XES is a faithful, standard document and writing is pure",
     "For every log, the XES writer emits one well-formed XML document in the vocabulary and lexical forms of the XES standard, which any independent XML reader maps to exactly the content of the log: every extension, global scope, classifier (keys blank-separated, quoted when they contain blanks), attribute, trace and event, nothing more and nothing twice, with the log's version markers. "
     "Dates are valid xs:dateTime texts for the same instant, booleans are true/false, numbers and identifiers are plain literals. "
     "Writing never changes the log, and writing the same log again produces the same document whether to a text or a binary target. Text targets may encode in UTF-8, UTF-16 or anything that contains ASCII.",
     ["inputs"], "all logs as in C01 with finite numbers, repeated writes, text targets of various encodings and binary targets",
     "No test reads the produced XML with anything but the library's own parser, so compensating errors and dropped or repeated content in writer and reader cancel out.",
     ["data_out/XesXmlSerializer.py", "utils/XTokenHelper.py", "model/XAttributeTimestamp.py", "model/XAttributeBoolean.py"],
     [("document assembly", S + "data_out/XesXmlSerializer.py serialize"), ("lexical forms", "__str__ of the attribute classes")],
     ["bytes/text written to the target", "log model before and after writing"])

prop("C03", "Reading XES yields exactly the log the document denotes",
     "Any well-formed XES document is read into exactly the log it denotes, whatever its lexical layout (encoding, attribute order, quoting, character references, comments, whitespace, empty-element style, case of tag names, chunk boundaries): header version markers, extensions, globals per scope, classifiers, and all attributes attached to the element that directly encloses them, in document order. "
     "An attribute whose key prefix names a registered extension is associated with that extension and no other; a missing key reads as UNKNOWN and a missing string value as the empty text. "
     "A declared extension is the one its URI names, whatever prefix the declaration gives. A date attribute with an unreadable value, or an unknown extension, is skipped without disturbing anything else in the document.",
     ["inputs"], "all XES 1.0 documents built from log/extension/global/classifier/trace/event and the eight attribute tags nested to any depth, in any lexical layout",
     "The existing parser tests need the network, feed only the writer's own output for one log, and never vary layout, encoding, nesting or malformed dates.",
     ["data_in/XesXmlParser.py", "utils/XsDateTimeConversion.py", "utils/XTokenHelper.py", "extension/XExtensionManager.py", "id/XID.py"],
     [("element dispatch and stacks", S + "data_in/XesXmlParser.py startElement/endElement"), ("prefix lookup", S + "extension/XExtensionManager.py get_by_prefix")],
     ["parsed log model compared with the abstract document"])

prop("C04", "Timestamps denote one instant in every representation",
     "Every xs:dateTime text (any year 0001-9999, optional fraction, Z, any numeric offset, or none meaning UTC) is read as exactly the instant and offset it denotes (fractions beyond microseconds truncated), and text with missing, non-numeric or out-of-range date, time or offset fields is reported as unreadable rather than misread. "
     "A timestamp attribute prints a valid xs:dateTime for the same instant truncated to the millisecond, for naive (UTC), fixed-offset and named-zone values alike, so reading the print-out gives the same instant and offset (in whole minutes). "
     "Setting a timestamp from epoch milliseconds and reading it back in epoch milliseconds gives the same number independently of the host's time zone.",
     ["inputs", "configurations"], "all date-times, all offsets below 24 h, all epoch milliseconds representable as dates, any host time zone",
     "No test touches date parsing or printing; the defects hide in sign, half-hour, sub-second, pre-1970 and host time-zone corners.",
     ["utils/XsDateTimeConversion.py", "model/XAttributeTimestamp.py", "extension/std/XTimeExtension.py"],
     [("zone split and strptime", S + "utils/XsDateTimeConversion.py parse_date_time"), ("formatting and millis", S + "model/XAttributeTimestamp.py")],
     ["datetime returned by parsing", "text printed by the attribute", "epoch milliseconds getters"])

prop("C05", "Compression and parser selection are transparent",
     "A log written through the compressed XES or MXML writer is a gzip file whose content is byte-for-byte what the plain writer produces, and reading it yields the same log as reading the plain file. "
     "Every file name ending in a suffix that a registered writer advertises, in any letter case and with any base name or directory, is accepted by the universal reader, which reads it with the reader for that format (a plain .xml file with the MXML reader); names with no known suffix are refused, and a file whose content is of the other format is never read as a log. "
     "The order in which readers were registered does not matter, and a registered reader that accepts a name but refuses that file before reading from it does not keep another registered reader from reading it.",
     ["inputs", "configurations"], "all logs, all advertised suffixes, base names and letter cases, text or binary handles",
     "No test opens a compressed file, uses the universal reader or varies a file name.",
     ["data_in/XUniversalParser.py", "data_in/XParserRegistry.py", "data_in/XesXmlGZIPParser.py", "data_in/XMxmlGZIPParser.py", "data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_out/XesXmlGZIPSerializer.py", "data_out/XMxmlGZIPSerializer.py", "data_out/XSerializerRegistry.py"],
     [("suffix tests", "can_parse / ends_with_ignore_case of the parsers"), ("gzip wrappers", "XesXmlGZIPParser, XMxmlGZIPParser and the GZIP serializers")],
     ["files on disk in a scratch directory", "logs returned by the universal parser"])

prop("C06", "MXML round trip keeps the standard perspectives",
     "Writing a log as MXML (plain, in any encoding that contains ASCII or UTF-16, or compressed) and reading it back gives one log with the same process name and the same non-empty process instances in the same order with the same names, and in each the same entries in the same order with the same activity name, originator (resource, else role, else group), timestamp instant to the millisecond and lifecycle transition (complete when absent; standard transitions in lower case, non-standard ones verbatim). "
     "Model references on the log, traces, events and event types survive. "
     "Every other non-blank top-level attribute of the log, a trace or an event reads back as a text attribute of the same element with its printed text. Nothing is moved to another element, and the written log itself is left unchanged.",
     ["inputs"], "all logs whose names, resources and transitions are non-blank text without outer whitespace or control characters",
     "There is no MXML test at all.",
     ["data_out/XMxmlSerializer.py", "data_in/XMxmlParser.py", "extension/std/XLifecycleExtension.py"],
     [("MXML writer", S + "data_out/XMxmlSerializer.py serialize"), ("MXML SAX handler", S + "data_in/XMxmlParser.py MxmlHandler")],
     ["log model before writing and after reading"])

prop("C07", "Reading MXML yields exactly the logs the document denotes",
     "Any well-formed MXML document yields one log per process in document order, each with its source, name, description, standard lifecycle model, the standard MXML extensions, classifiers and global attributes, one trace per process instance that has entries, and one event per audit trail entry in document order. "
     "Each data attribute becomes a text attribute of exactly the element that encloses it (source, process, instance or entry), and activity, event type (including unknown types), timestamp, originator and model references become the corresponding standard attributes of their own entry only. "
     "Absent or blank fields produce no attribute, and nothing carries over from one entry, instance or process to the next.",
     ["inputs"], "all MXML documents with any number of processes, instances and entries and any presence/absence and order of their optional parts",
     "There is no MXML test; carry-over and attachment faults need particular sequences of present and absent fields.",
     ["data_in/XMxmlParser.py", "utils/XsDateTimeConversion.py"],
     [("MXML SAX handler state", S + "data_in/XMxmlParser.py startElement/endElement/characters")],
     ["parsed log models compared with the abstract document"])

prop("C08", "Incomplete or damaged input is never taken for a log",
     "If a plain or compressed XES or MXML file is cut at any point before its end, or is damaged so that it is no longer well-formed or no longer decompresses, reading it raises an error; no partial log is ever returned. "
     "A failed read leaves the library fully usable: the next read of a good file by the same or another reader returns exactly the same log as it would have without the failure. "
     "Writing that fails half-way likewise leaves the log and later writes unaffected.",
     ["crash_points", "inputs", "histories"], "every cut position of every written file, bit damage in the compressed stream, tag-level damage, failures at any write call",
     "No test feeds a damaged file or continues after a failure.",
     ["data_in/XesXmlParser.py", "data_in/XesXmlGZIPParser.py", "data_in/XMxmlParser.py", "data_in/XMxmlGZIPParser.py", "data_in/XUniversalParser.py", "data_out/XesXmlSerializer.py"],
     [("SAX parsing to completion", "parse of the XES/MXML parsers"), ("single write at the end", S + "data_out/XesXmlSerializer.py serialize")],
     ["exception or returned log per damaged file", "log returned by the following good read"])

prop("C09", "Reads and writes are independent of each other",
     "The result of reading or writing one log depends only on that input: any sequence, interleaving or concurrent execution of reads, writes, copies and summaries of different logs, with reused or fresh readers and writers, gives each the same result as running it alone. "
     "Logs obtained from separate reads share no mutable state: changing an attribute, trace, extension set or global list of one is never visible in another, nor in later reads, nor in the attribute definitions of the registered extensions.",
     ["histories", "schedules"], "all operation sequences over several documents and all thread schedules of independent operations",
     "Each existing test performs one operation in one thread on one document.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py", "extension/XExtension.py", "model/XElement.py", "model/XAttributable.py", "utils/SingletonClassGenerator.py"],
     [("per-parse handler objects", "XesXmlHandler / MxmlHandler created in parse"), ("fresh containers per element", S + "model/XAttributable.py")],
     ["result snapshots per operation compared with the solo run", "registered extension definitions before and after"])

prop("C10", "A clone is equal and fully independent",
     "Cloning a log, trace, event, attribute map, identifier or attribute of any type gives an object with equal content: the same attributes with all nested attributes and list or container children, extension associations, globals, classifiers, features, extensions, and the same traces and events in order; cloned events get new identifiers, distinct from all others. "
     "Afterwards no change made through either the original or the clone, at any depth, is visible through the other (shared definitions, that is extensions and classifier objects, aside). "
     "Cloning does not change the original.",
     ["inputs", "histories"], "all logs, traces, events and attributes and all sequences of later edits on either side",
     "No test clones anything.",
     ["model/XLog.py", "model/XTrace.py", "model/XEvent.py", "model/XAttributeMap.py", "model/XAttribute.py", "model/XAttributeCollection.py", "model/XAttributeLiteral.py", "id/XID.py", "extension/std/XExtendedEvent.py"],
     [("clone methods", "clone of XLog, XTrace, XEvent, XAttributeMap and the attribute classes")],
     ["snapshots of original and clone around random edits"])

prop("C11", "Event classes partition the events by classifier",
     "Under any classifier two events are in the same class exactly when, for every key the classifier defines, the texts of their values are equal (a missing attribute counts as empty text); a conjunction of classifiers distinguishes exactly what any of its members distinguishes. "
     "Deriving event classes from a log gives one class per distinct identity, sizes that count its events exactly, indices 0..n-1 in alphabetical order of identities, and lookups by event, identity and index that all return the same class or nothing. "
     "Registering logs, traces, events or identity texts one by one, in any order, and then harmonising gives the same classes.",
     ["inputs", "histories"], "all classifiers with any number of keys, all logs whose attribute texts do not contain the separator character '&', all registration orders",
     "No test exercises classifiers or event classes; three-key classifiers with missing attributes and repeated harmonisation are outside any sample.",
     ["classification/XEventAttributeClassifier.py", "classification/XEventAndClassifier.py", "classification/XEventClasses.py", "classification/XEventClass.py", "classification/XEventNameClassifier.py", "classification/XEventResourceClassifier.py", "classification/XEventLifeTransClassifier.py"],
     [("identity string", S + "classification/XEventAttributeClassifier.py get_class_identity"), ("class map and indices", S + "classification/XEventClasses.py")],
     ["class identities, class sizes, indices and lookups compared with a reference partition"])

prop("C12", "The log summary agrees with the log",
     "For any log and any default and additional classifiers, the summary reports exactly the number of traces and events, the event classes of every covered classifier (the given ones plus name, resource and transition), and as time bounds the earliest and latest event timestamp of the log and of each trace (undefined without timestamps). "
     "A bounds object contains exactly the dates between its ends inclusive, and registering dates, events or other bounds in any order gives their hull. "
     "Requesting a summary through the factory always answers for the requested classifier and the log it is asked for, reusing the cached one only for an equal classifier on the same log, and creating a summary does not change the log.",
     ["inputs", "histories"], "all logs with homogeneous timestamps, all classifier sets, all request sequences",
     "No test builds a summary; it needs whole logs with missing timestamps, empty and equal traces, and request sequences.",
     ["info/XLogInfo.py", "info/XLogInfoFactory.py", "info/XTimeBounds.py", "model/XLog.py", "model/XTrace.py", "classification/XEventClasses.py"],
     [("single pass over the log", S + "info/XLogInfo.py setup"), ("bounds", S + "info/XTimeBounds.py register"), ("cache", S + "model/XLog.py get_info/set_info")],
     ["summary getters compared with a recomputation"])

prop("C13", "Equality, order and hash obey their laws",
     "On attributes, identifiers, event classes and classifiers, equality is reflexive, symmetric and transitive and equal objects have equal hashes; on values of one kind the comparison operators and the compare function define one total order (by key, then value; identifiers by value; classes by identity; classifiers by name, number of keys, then keys), agree with each other, and report zero exactly for equal objects. "
     "Attributes of different kinds are never equal, and sorting any collection is independent of its initial order. "
     "Events and extended events are equal exactly when their identifiers are equal, traces exactly when they hold equal events in order, extensions exactly when their URIs are equal, and hashes do not change over time while the object is unchanged.",
     ["inputs"], "all pairs and triples of attributes (without NaN, one zone style per comparison), ids, classes, classifiers, events, traces and extensions",
     "Laws over pairs and triples cannot be settled by samples, and no test compares anything but extension attributes.",
     ["model/XAttribute.py", "model/XAttributeBoolean.py", "model/XAttributeContinuous.py", "model/XAttributeDiscrete.py", "model/XAttributeID.py", "model/XAttributeLiteral.py", "model/XAttributeTimestamp.py", "model/XAttributeCollection.py", "model/XEvent.py", "model/XTrace.py", "id/XID.py", "classification/XEventClass.py", "classification/XEventAttributeClassifier.py", "extension/XExtension.py", "utils/CompareUtils.py"],
     [("compare_to and rich comparisons", "attribute classes, XID, XEventClass, XEventAttributeClassifier"), ("comparison helpers", S + "utils/CompareUtils.py")],
     ["results of ==, !=, <, <=, >, >=, compare_to, hash and sorted on pools of objects"])

prop("C14", "Ordered insertion keeps traces chronological and stable",
     "Inserting an event in order into a trace puts exactly that event in at the returned index and keeps all other events in their relative order. "
     "Into a trace whose events are all timestamped and chronological, an event with a timestamp goes after every event that is not later and before every event that is later, so any sequence of such insertions yields a stable chronological trace. "
     "An event without a timestamp, or one whose place cannot be found before an event without a timestamp is met from the end, is appended at the end.",
     ["inputs", "histories"], "all traces, all sequences of ordered insertions with ties, gaps and mixed UTC offsets",
     "No test calls ordered insertion; ties, untimed events and offset-different equal instants need sequences.",
     ["model/XTrace.py"],
     [("backward scan", S + "model/XTrace.py insert_ordered")],
     ["trace contents and returned index after each insertion compared with a reference list"])

prop("C15", "Standard extension accessors store and return what they name",
     "For every accessor pair of the standard extensions (concept, organisational, lifecycle, time, identity, semantic, micro, cost) and of the extended event view, reading after assigning a valid value returns that value, and the value is stored under the attribute key, type and extension that the XES standard names for it. "
     "Assigning changes that one attribute only, not other attributes, other elements or the extension's own definitions; a missing or blank value assigns nothing; reading an absent attribute gives the documented 'not set' result and removing it makes it absent. "
     "Standard lifecycle transitions decode case-insensitively and everything else decodes to unknown; values read from an assigned attribute do not depend on the host time zone.",
     ["inputs", "histories"], "all accessors, valid and blank values, all elements, all sequences of assign/read/remove",
     "One test instantiates one extension; no accessor is called.",
     ["extension/std/XConceptExtension.py", "extension/std/XOrganizationalExtension.py", "extension/std/XLifecycleExtension.py", "extension/std/XTimeExtension.py", "extension/std/XIdentityExtension.py", "extension/std/XSemanticExtension.py", "extension/std/XMicroExtension.py", "extension/std/XCostExtension.py", "extension/std/XExtendedEvent.py"],
     [("assign_*/extract_*/remove_* accessors", S + "extension/std/")],
     ["attribute map of the element and accessor results after each step compared with a reference dictionary"])

prop("C16", "Nested cost values form a faithful tree",
     "Assigning cost amounts, drivers or types to nested key paths of a trace or event creates exactly the missing attributes along each path and stores each value at the end of its path; extracting nested values returns exactly the assigned path-to-value map, and extracting child values returns exactly the length-one paths. "
     "Amounts, drivers and types do not disturb one another or other attributes, existing attributes on a path keep their type, value and other children, and extraction changes nothing. "
     "The same holds for values present in a document that was read.",
     ["inputs", "histories"], "all finite maps from key paths to positive amounts or non-blank texts, all sequences of assignments on one element, for all three value kinds",
     "No test touches nested values, which need trees of depth two and more.",
     ["extension/std/XAbstractNestedAttributeSupport.py", "extension/std/XCostExtension.py"],
     [("recursive assign/extract", S + "extension/std/XAbstractNestedAttributeSupport.py")],
     ["attribute tree and extracted maps compared with a reference map"])

prop("C17", "Extension lookups are consistent under any registration history",
     "The extension manager always knows the eight standard extensions; after any sequence of registrations every registered extension is found by its URI, and lookups by URI, index, name and prefix agree: each finds the latest registration of a URI and never one it replaced, indices are stable, dense and unique per URI, the index of a registered extension leads back to it, and unknown URIs, names, prefixes, indices and extensions give the documented 'not found' result. "
     "Among several matches of a name or prefix the one with the lowest index, that is the earliest registered URI, is returned. "
     "Documents read later associate attributes and declared extensions according to these registrations. "
     "Registrations made by several threads at once end in such a state too, each URI registered exactly once.",
     ["histories", "schedules"], "all registration sequences with fresh, repeated and clashing URIs, names and prefixes",
     "Tests look up the eight standard extensions only; no test registers an extension offline.",
     ["extension/XExtensionManager.py", "extension/XExtension.py", "data_in/XesXmlParser.py"],
     [("map and list", S + "extension/XExtensionManager.py register/get_by_*")],
     ["lookup results after each registration compared with a reference registry", "extension association of parsed attributes"])

prop("C18", "Extension definitions are read completely and at the right level",
     "Reading an extension definition from a file or URL gives an extension with its name, prefix and URI, and each attribute it defines, under prefix:key with the declared type and belonging to that extension, at exactly the level (log, trace, event or meta) under which it is declared; the defined attributes are the union of the levels. "
     "Each alias is registered for that attribute in the language it names. "
     "The result depends on the definition only, not on network reachability, earlier reads or the way the definition is laid out.",
     ["inputs", "configurations"], "all extension definitions over the four levels, six attribute types and any aliases, in any lexical layout",
     "The only test instantiates the parser; definitions with several levels are never read offline.",
     ["extension/XExtensionParser.py", "extension/XExtension.py", "info/XGlobalAttributeNameMap.py"],
     [("definition SAX handler", S + "extension/XExtensionParser.py XExtensionHandler")],
     ["extension getters and alias map compared with the abstract definition"])

prop("C19", "Attribute name mapping always gives a usable name",
     "Mapping an attribute or key to a name in a given language returns the alias most recently registered for that key in that language, else the one in the standard (English) mapping, else the key itself; it is never empty-handed, also for languages nobody has registered. "
     "Mappings of different languages and keys never influence each other, asking for a language makes it available and always yields the same mapping object, and asking by attribute or by key is equivalent. "
     "The standard extensions' names are available in the languages they declare.",
     ["histories", "inputs"], "all sequences of registrations and lookups over languages, keys and attributes",
     "No test uses name mappings.",
     ["info/XGlobalAttributeNameMap.py", "info/XAttributeNameMap.py"],
     [("fallback chain", S + "info/XGlobalAttributeNameMap.py map_safely"), ("per-language map", S + "info/XAttributeNameMap.py")],
     ["names returned after each step compared with a reference dictionary"])

prop("C20", "Models are built by the configured factory and registries",
     "Whatever factory is the current default of the factory registry at the time, or is given to a reader explicitly, builds every log, trace and event and every attribute that this reader creates (copies of attributes defined by an extension aside), and nothing else does. "
     "A registry contains exactly the instances registered or made default, each once; its default is the first one registered until another is made default, and a default is always a registered instance. "
     "The standard factory returns new elements holding exactly the given key, value, extension, attributes and identity, never sharing state with any other element it made.",
     ["configurations", "histories", "inputs"], "all factories, readers, documents and registry histories, all factory methods and arguments",
     "No test replaces a factory or uses a registry.",
     ["factory/XFactory.py", "factory/XFactoryRegistry.py", "utils/XRegistry.py", "data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "model/XElement.py", "model/XAttributable.py", "model/XEvent.py"],
     [("registry", S + "utils/XRegistry.py"), ("factory indirection", "XesXmlParser().factory / XMxmlParser().factory"), ("element construction", S + "factory/XFactory.py")],
     ["calls recorded by substitute factories versus elements of the parsed log", "registry getters versus a reference registry"])

prop("C21", "System-wide services are unique, identifiers never repeat",
     "Every system-wide service (registries, extension manager, name mapping, id factory, standard extensions, extension parser) has exactly one instance per process: every request from every thread, including simultaneous first requests, gets the same fully initialised instance, and different services never get each other's instance. "
     "Identifiers created anywhere in the process, by any thread, in new events, clones or attributes, never repeat. "
     "An identifier's text form reads back to an equal identifier, in either letter case.",
     ["schedules", "inputs"], "all thread schedules of first and later requests in a fresh process, all identifier creations, all 128-bit identifiers",
     "Tests are single-threaded and run after everything has been initialised.",
     ["utils/SingletonClassGenerator.py", "id/XIDFactory.py", "id/XID.py", "model/XEvent.py", "factory/XFactoryRegistry.py", "extension/XExtensionManager.py"],
     [("singleton metaclasses", S + "utils/SingletonClassGenerator.py"), ("uuid4", S + "id/XID.py")],
     ["identities of instances returned to barrier-started threads in fresh processes", "set of all ids created"])

prop("C22", "The extension cache serves what was fetched and nothing stale",
     "Caching an extension from its URI stores its definition, byte for byte, in the per-user cache folder, creating the folder when missing; loading the cache registers every cached definition whose URI is not already registered and leaves registered ones untouched. "
     "Cached files older than thirty days are removed and not loaded, newer ones are kept; files that are not extension definitions are neither loaded nor removed, and a damaged definition does not keep the others from loading. "
     "A failed download raises no error, stores no definition and leaves an earlier copy intact, and repeating any of these operations is harmless.",
     ["fault_sequences", "histories"], "all sequences of cache, load, expiry, corruption and download failure",
     "No test touches the cache; it needs files with ages, a server and failures.",
     ["extension/XExtensionManager.py", "utils/XRuntimeUtils.py", "extension/XExtensionParser.py"],
     [("download to cache", S + "extension/XExtensionManager.py cache_extension"), ("cache scan", S + "extension/XExtensionManager.py load_extension_cache"), ("folder location", S + "utils/XRuntimeUtils.py")],
     ["files in a scratch home directory", "extension manager lookups", "requests received by a loopback server"])

prop("C23", "Attribute statistics count every attribute exactly",
     "For any log the attribute information at the log, trace, event and meta (attributes of attributes, at any depth) level lists exactly the keys that occur there, each once, with frequencies that count every occurrence and relative frequencies that are those counts over the total. "
     "Each key has a prototype with the key, type and extension of its first occurrence and a neutral default value, and the listings by type, by extension and without extension partition exactly these keys. "
     "Collecting statistics, or altering a prototype, never changes an attribute of the log.",
     ["inputs"], "all logs with all attribute types, nesting, repeated keys and extensions",
     "No test collects statistics.",
     ["info/XAttributeInfo.py", "utils/XAttributeUtils.py", "info/XLogInfo.py"],
     [("registration", S + "info/XAttributeInfo.py register"), ("prototype derivation", S + "utils/XAttributeUtils.py derive_prototype")],
     ["statistics getters compared with a recount"])

prop("C24", "Elements report exactly the extensions they use",
     "For every trace, event, attribute and extended event view the reported extension set is exactly the set of extensions with which its current attributes are associated, each once, after any sequence of adding, replacing and removing attributes and for elements that were built, cloned or read alike. "
     "A log reports exactly the extensions declared by its document or added to it, a set of its own that is unaffected by other logs. Asking never changes anything.",
     ["inputs", "histories"], "all elements with any mix of attributes with and without extensions, all edit sequences",
     "No test asks an element for its extensions.",
     ["model/XAttributable.py", "model/XLog.py", "extension/std/XExtendedEvent.py", "data_in/XesXmlParser.py"],
     [("extension collection", S + "model/XAttributable.py get_extensions"), ("declared extensions", S + "model/XLog.py get_extensions")],
     ["extension sets returned after each edit compared with a recount"])

prop("C25", "Timers report the time that passed",
     "A timer's duration is, in milliseconds, the time that passed from its latest start (or its creation) to its latest stop since, or until now while it is running, for any number of timers in use at once and however often they are started and stopped. "
     "The text of a duration names days, hours, minutes, seconds and milliseconds that add up to exactly that duration, whole numbers of every unit but the last and none exceeding the next larger unit.",
     ["histories", "inputs"], "all histories of creating, starting, stopping and asking timers under any clock, all non-negative durations",
     "No test uses the timer; its behaviour depends on the clock.",
     ["utils/XTimer.py"],
     [("clock readings", S + "utils/XTimer.py start, stop, get_duration"), ("text", S + "utils/XTimer.py format_duration")],
     ["durations under a controlled clock compared with a model", "sum of the parts named in a text"])

prop("C26", "Finished operations hold on to nothing and leave the process as it was",
     "Importing the library, in any order of its modules, and reading, writing, cloning, summarising, comparing or editing logs, reading extension definitions and using the extension cache, successfully or not, leave nothing behind but their results: every file the library opened is closed, no file or folder exists that was not asked for (the cache folder aside), and process-wide settings (working folder, environment, recursion limit, random generator, locale, default timeouts, warning filters, threads, standard streams) are as before. "
     "Once the user drops a log, trace, event, attribute, summary or unregistered extension definition, it is released, while clones, readers, writers, registries and other logs stay alive; what a failed operation had built is released too, and so is an element taken out of a log that lives on. "
     "Repeating an operation does not make the library's own state grow.",
     ["histories", "configurations", "fault_sequences"], "all histories of operations, successful or failing, with long-lived and new readers and writers",
     "No test looks at open files, settings or object lifetimes, and growth only shows over many operations.",
     ["data_in/XesXmlParser.py", "data_in/XMxmlParser.py", "data_in/XUniversalParser.py", "data_out/XesXmlSerializer.py", "data_out/XMxmlSerializer.py", "extension/XExtensionManager.py", "extension/XExtensionParser.py", "info/XLogInfoFactory.py", "model/XLog.py"],
     [("per-read handlers", S + "data_in/XesXmlParser.py, XMxmlParser.py parse"), ("files opened by the library", "gzip readers and writers, XExtensionParser.parse, XExtensionManager.cache_extension"), ("cached summaries belong to their log", S + "model/XLog.py set_info")],
     ["weak references to every element made or given", "open files, folders and process-wide settings around every operation", "live objects and container entries over repetitions"])
prop("C27", "Messages reach whom they are meant for and never decide an outcome",
     "Every message given to a logger is delivered exactly once, at once and unchanged, with the importance given (DEBUG when none is given), to the listener that logger has at that moment: its own, whatever other loggers listen to; a new logger prints message and importance to the standard output, and one whose listener is None is silent. "
     "What the library reports on the side (unreadable dates and unknown extensions, which it names, readers that could not read a file, failed downloads, progress of writers) never changes the outcome: "
     "results and errors are the same whichever characters the standard output can show, and also when there is none; what it cannot show is printed in escaped form.",
     ["histories", "configurations", "inputs"], "all histories of loggers, listeners and messages (nested and from several threads), all documents and files with something to report, consoles of any encoding or none",
     "The log package has no test, and tests run on one console that shows everything.",
     ["log/XLogging.py", "log/XStdoutLoggingListener.py", "data_in/XesXmlParser.py", "data_in/XUniversalParser.py", "extension/XExtensionManager.py", "utils/XsDateTimeConversion.py"],
     [("delivery", S + "log/XLogging.py log, set_listener"), ("printing", S + "log/XStdoutLoggingListener.py"), ("reports", "calls of XLogging().log and show in data_in, data_out, extension and utils")],
     ["messages received by recording listeners", "text on the standard output", "results and errors of reads, writes and downloads under each console"])

prop("C28", "Log elements hold exactly what was put into them",
     "After any history of additions, replacements, moves and removals, through whichever list, map or method, a log holds exactly its traces, a trace exactly its events and a list or container attribute exactly its children, as the same objects and in the order given, repeats included, however many there are; "
     "every log, trace, event and attribute has exactly its current attributes under their keys in order of insertion, and a log exactly its current classifiers, global attributes, features, extensions and the summary cached last for its classifier. "
     "An attribute keeps its key and extension and returns the value it was last given unchanged; its text is the plain form of that value (true or false for booleans, upper case for identifiers, key:text in brackets for collections). "
     "Asking never changes anything, a change of the list of children that was returned changes nothing, and no element ever shows a change made to another one.",
     ["histories", "inputs"], "all edit histories over logs, traces, events, attribute maps and attributes of all types, of any size",
     "Tests build a few elements and look at them once; none edits, repeats or removes members and attributes.",
     ["model/XLog.py", "model/XTrace.py", "model/XEvent.py", "model/XAttributable.py", "model/XAttributeMap.py", "model/XAttributeCollection.py", "model/XAttribute.py", "factory/XFactory.py"],
     [("members", S + "model/XLog.py and XTrace.py as lists"), ("attributes", S + "model/XAttributable.py, XAttributeMap.py"), ("values and children", S + "model/XAttribute*.py get_value, set_value, __str__, add_to_collection, get_collection")],
     ["every element of a family of elements after each edit, object by object, against plain lists and maps"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
