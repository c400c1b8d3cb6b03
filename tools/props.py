# The property texts; mkmanifest.py writes properties.jsonl from them.
PROPS = []
def P(id, title, statement, over, text, why, files, mech):
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}})
P("C01", "Identifiers survive every text and binary form",
  "Any 128-bit identifier written as text (with or without braces, or through the GDTF/MVR converters) reads back to the same 128 bits, the text is the canonical upper-case 8-4-4-4-12 form, and the four-number, byte-array and interface-id forms agree with it. Text in upper or lower case hex is decoded alike. Text that is not such a canonical form is rejected, never silently taken as some identifier.",
  ["inputs"], "all 2^128 identifiers; all texts of the canonical length with arbitrary characters", "The tests use a handful of literal identifiers; 2^128 values and all malformed texts cannot be listed.",
  ["src/UUID.cpp", "src/UUID.h", "src/XmlFileHelper.cpp"], [("VWUUID::FromString / ToString / operator TXString", "src/UUID.cpp"), ("GdtfConverter::ConvertUUID", "src/XmlFileHelper.cpp")])
P("C02", "Scalar values survive their XML text form",
  "Every integer (32-bit signed and unsigned, size values, 8-bit), real number (to six decimals), 2D point, bool, yes/no flag, DMX break (0 is \"Overwrite\"), optional integer (\"None\"), hex value (saturated to 0xFFFF), integer or real array and channel offset list that the GDTF/MVR writer turns into attribute text is read back as the same value. Decimal and hex text in range is read as exactly the number it denotes; hex text above 0xFFFF is refused and saturates. No short text, however malformed, crashes the numeric readers or makes them throw.",
  ["inputs"], "all values of the stated types; decimal text of up to 9 digits, hex text of up to 18 digits, arbitrary printable text of up to 3 characters", "The tests write and read a few literal values per type; boundary values, signs and digit counts are not sampled.",
  ["src/XmlFileHelper.cpp", "src/GSString.cpp"], [("GdtfConverter::ConvertInteger / ConvertDouble / ConvertHexValue / ConvertBool / ConvertDmxBreak / ConvertDmxOffset / Convert*Array / Convert2DPoint", "src/XmlFileHelper.cpp"), ("TXString::atoi, atoi64, atof, itoa", "src/GSString.cpp")])
P("C03", "DMX values keep their meaning across byte counts",
  "A DMX value written for a channel of 1 to 4 bytes reads back as the same value without an error, and \"None\" stays the none marker. A value given at another byte count is scaled proportionally to the channel's range and rounded to the nearest step (0 stays 0, full stays full); with the shift suffix it is moved by whole bytes instead. Values above the channel's range at its own byte count and text without the value/bytes form are reported as errors and are never accepted as some other value in range.",
  ["inputs"], "all values of 1 to 4 byte channels, all pairs of byte counts, short arbitrary text", "The tests convert about a dozen literal texts; rounding, shifting and range limits depend on every value and pair of byte counts.",
  ["src/XmlFileHelper.cpp"], [("GdtfConverter::ConvertDMXValue (both directions, with and without None)", "src/XmlFileHelper.cpp"), ("GdtfConverter::GetChannelMaxDmx", "src/XmlFileHelper.cpp")])
P("C04", "DMX addresses keep their meaning as text",
  "Every absolute DMX address written as text reads back as the same address. \"universe.address\" text is accepted exactly for universes from 1 and addresses 1 to 512 whose absolute address fits, and means (universe-1)*512+address; plain text is accepted exactly for representable positive numbers. Everything else is refused and reported as an error.",
  ["inputs"], "all addresses, all universe/address pairs, short arbitrary text", "The tests use a few literal addresses.",
  ["src/XmlFileHelper.cpp"], [("GdtfConverter::ConvertDMXAdress (both directions)", "src/XmlFileHelper.cpp")])
P("C05", "Keyword attributes map one to one between value and text",
  "For each of the 23 keyword sets (model primitives, special attributes, physical units, beam, lamp, snap, master, relation, colour space and sample, interpolation, source, scale handling, component and wiring kinds and so on) every value is written as its GDTF/MVR keyword and that keyword reads back as exactly that value, without an error. A missing keyword means the set's default. Text that is not a keyword never silently becomes another value: the default is used, and sets that have a parsing error for it report exactly one.",
  ["inputs"], "all values of all sets, all texts of up to 3 characters, all one-character alterations of each keyword", "The fixture files used by the tests contain a fraction of the keywords and no near misses.",
  ["src/XmlFileHelper.cpp", "src/Include/GDTFPrefix.h"], [("GdtfConverter::Convert*Enum and the other keyword converters, both directions", "src/XmlFileHelper.cpp")])
P("C06", "Points, matrices, rotations and colours survive their text form",
  "A 3D point, a transform matrix (GDTF four-column and MVR three-column layout), a rotation, a CIE colour and a list of colours written as attribute text read back with the same components in the same places, to six decimals and without an error. A missing point, matrix or colour is the origin, the identity or white. Text with the wrong number of entries or rows or without its outer braces is reported as an error, and no short text makes these readers crash or throw.",
  ["inputs"], "all finite component values; all entry and row counts up to 6 and 5; short arbitrary text", "The tests compare a few literal matrices; swapped or dropped components only show for asymmetric values in each position.",
  ["src/XmlFileHelper.cpp"], [("GdtfConverter::ConvertVector3 / ConvertMatrix / ConvertRotation / ConvertColor / ConvertColorArray", "src/XmlFileHelper.cpp")])
P("C07", "Dates survive their text form",
  "A date written as yyyy-mm-ddThh:mm:ss reads back with the same year, month, day, hour, minute and second, its two-digit fields are zero padded, and a missing date is the zero date. Every text of that form is read as the fields it shows. Short malformed date text, and a date with separators missing or replaced, is refused and reported as an error exactly once.",
  ["inputs"], "all values of each date field, short arbitrary text", "The tests use two or three literal dates.",
  ["src/XmlFileHelper.cpp"], [("GdtfConverter::ConvertDate / DeserializeUTC_Date / IntToString2Digits", "src/XmlFileHelper.cpp")])
P("C08", "Text search and editing do what they say on every text",
  "Searching a text for another text, a character or a set of characters (first or last, from a position, with or without regard to ASCII letter case) gives the position the definition gives or -1, for every text and position. Inserting, deleting, truncating, replacing all occurrences, trimming blanks and tabs, splitting at a separator, changing case, reversing and joining give exactly the text the definition gives, and positions outside the text read as 0 and change nothing. Cutting out the left, middle or right part never leaves half of a surrogate pair at its ends.",
  ["inputs"], "all texts of up to 4 UTF-16 units, all needles of up to 2, all positions and lengths", "The tests use a few dozen literal calls; positions at the ends, overlapping and empty needles and surrogates are not enumerated.",
  ["src/GSString.cpp", "src/GSString.h"], [("TXString::Find / ReverseFind / FindOneOf / Insert / Delete / Replace / Trim / Split / Mid / Left / Right", "src/GSString.cpp")])
P("C09", "Text converts between UTF-8 and UTF-16 without loss",
  "Every sequence of Unicode code points (without the null character) given as UTF-8 is held as its UTF-16 form and written again as the same UTF-8, by every way of constructing, assigning and appending it. Copying text into a fixed buffer writes the leading bytes that fit, a terminator, and nothing beyond the buffer. Bytes that are not UTF-8 and unpaired surrogates never crash or throw, and ASCII text is kept unchanged.",
  ["inputs"], "all code points in sequences of up to 2, all byte strings of up to 4 bytes, all unit strings of up to 3", "The tests convert a few literal strings; 1.1 million code points and all malformed byte strings cannot be listed.",
  ["src/GSString.cpp"], [("TXString::SetStdUStrFromCharBuffer / PrepareCharBuffer / utf8BufferToTXCharBuffer / CopyInto", "src/GSString.cpp")])
P("C10", "Text comparison, ordering and hashing agree with each other",
  "Two texts are equal exactly when they agree in every character without regard to ASCII letter case; the case-sensitive comparison says equal exactly when they are identical. For every two texts exactly one of less, equal and greater holds, consistently with the other operators and with dictionary order, and the order is transitive, so sorted containers work. Texts that are equal as keys of the library's hash containers have equal hashes.",
  ["inputs"], "all pairs (for transitivity triples) of short texts", "Laws over all pairs and triples cannot be sampled; the hash laws only fail for specific characters.",
  ["src/GSString.cpp", "src/GSString.h", "src/GDTFManager.h"], [("TXString::Compare / CompareNoCase / operators", "src/GSString.cpp"), ("TXStringNoCaseHash", "src/GDTFManager.h"), ("std::hash<TXString>", "src/GSString.h")])
P("C11", "XML documents keep values and structure, malformed ones are refused",
  "Every attribute value and element text of printable characters, tabs and newlines set on an XML node is read back unchanged after the document was written to a buffer and parsed again, and entities and character references mean the character they denote. The tree (names, parent, order of children and siblings, first and last child, child by name) is the same after writing and parsing. Cut off or malformed documents never crash or throw; each refused one is reported as exactly one parsing error.",
  ["inputs"], "short arbitrary values, all trees of up to 5 elements, arbitrary bytes at 15 places of a document, all prefixes", "The tests write a few fixed documents without special characters and never parse damaged ones systematically.",
  ["src/rapidxmlsupport/XMLFileImpl.cpp", "src/rapidxmlsupport/XMLFileNodeImpl.cpp", "src/rapidxmlsupport/tinyxml2.cpp", "src/XmlFileHelper.cpp"], [("CXMLFileImpl::ReadBuffer / WriteBuffer", "src/rapidxmlsupport/XMLFileImpl.cpp"), ("CXMLFileNodeImpl navigation and attributes", "src/rapidxmlsupport/XMLFileNodeImpl.cpp"), ("XMLDocument::Parse, XMLPrinter", "src/rapidxmlsupport/tinyxml2.cpp")])
P("C12", "Header, revisions and attribute definitions survive a GDTF write and read",
  "A fixture type's name, manufacturer, descriptions, ids, thumbnail values, revisions, activation groups, feature groups, features and attributes (with units, colours, sub-physical units and the links between them) are reported exactly as they were set, and unchanged again (numbers within six decimals) after the description was written and read back, and after a second write and read. Reading a description the library has written reports no error.",
  ["inputs"], "all doubles in all fields, one arbitrary integer or text field at a time, all enumeration values, both states of every optional link", "The tests write one fixture with one fixed value per field; a value that is lost, swapped or misread for other values, or a link that resolves wrongly, goes unseen.",
  ["src/GDTFManager.cpp", "src/Implementation/CGdtfFixture.cpp", "src/Implementation/CGdtfAttribute.cpp", "src/Implementation/CGdtfRevision.cpp"], [("GdtfFixture::OnPrintToFile / OnReadFromNode and those of attributes, features, revisions", "src/GDTFManager.cpp"), ("CGdtfFixtureImpl setters and getters", "src/Implementation/CGdtfFixture.cpp")])
P("C13", "Wheels, models and physical descriptions survive a GDTF write and read",
  "Wheels with their slots, prism facets and animation systems, 3D models, emitters, filters with their measurements, colour spaces, gamuts, DMX profiles, colour rendering indexes, connectors and the overall physical properties are reported exactly as they were set, and unchanged again (numbers within six decimals) after the description was written and read back, and after a second write and read. Links between them (slot to filter, gamut to colour spaces) lead to the same elements. Reading a description the library has written reports no error.",
  ["inputs"], "all doubles in all fields, one arbitrary integer or text field at a time, all enumeration values", "The tests cover one fixed value per field.",
  ["src/GDTFManager.cpp", "src/Implementation/CGdtfWheelSlot.cpp", "src/Implementation/CGdtfModel.cpp", "src/Implementation/CGdtfPhysicalEmitter.cpp", "src/Implementation/CGdtfMeasurement.cpp"], [("OnPrintToFile / OnReadFromNode of wheels, models, emitters, filters, colour spaces, gamuts, profiles, CRIs, connectors", "src/GDTFManager.cpp")])
P("C14", "The geometry tree survives a GDTF write and read",
  "Every geometry of a fixture type, of each of the 18 kinds and at any place of the tree, keeps its kind, name, parent, position among its siblings, transformation, model and all values particular to its kind when the description is written and read back, and again after a second write and read. Geometry references keep their target and their list of breaks with offsets, pin patches their pins and target, structures their linked geometry, lamps and lasers their emitter, and lasers their protocols. Reading a description the library has written reports no error.",
  ["inputs"], "every kind at every place of a three-level tree, all doubles in all fields, one arbitrary integer or text field at a time", "The tests use one fixed tree with fixed values.",
  ["src/GDTFManager.cpp", "src/Implementation/CGdtfGeometry.cpp"], [("GdtfGeometry and subclasses: OnPrintToFile / OnReadFromNode", "src/GDTFManager.cpp"), ("GdtfFixture reference resolution", "src/GDTFManager.cpp"), ("CGdtfGeometryImpl", "src/Implementation/CGdtfGeometry.cpp")])
P("C15", "DMX modes survive a GDTF write and read",
  "DMX modes with their channels (geometry, break, addresses, highlight, initial function), logical channels, channel functions (attribute, default, start, physical range, links to wheel, emitter, filter, colour space, gamut, profile, mode master), channel sets, sub channel sets, relations and macros are reported exactly as they were set, and unchanged again (numbers within six decimals) after the description was written and read back without reported errors, and after a second write and read. Channel sets are written so that they cover the range of their function in ascending order without gap or overlap, the sets that were given keeping exactly their range and the gaps becoming unnamed sets.",
  ["inputs"], "all doubles in all fields, one arbitrary DMX value or text at a time, all resolutions, arbitrary bounds of channel sets", "The tests write one mode with fixed values.",
  ["src/GDTFManager.cpp", "src/Implementation/CGdtfDmxMode.cpp", "src/Implementation/CGdtfDmxChannel.cpp", "src/Implementation/CGdtfDmxChannelFunction.cpp", "src/Implementation/CGdtfDmxChannelSet.cpp", "src/Implementation/CGdtfMacro.cpp"], [("GdtfDmxMode, GdtfDmxChannel, GdtfDmxLogicalChannel, GdtfDmxChannelFunction, GdtfDmxChannelSet: OnPrintToFile / OnReadFromNode", "src/GDTFManager.cpp"), ("GdtfFixture::ResolveDmx... references", "src/GDTFManager.cpp")])
P("C16", "Protocol descriptions survive a GDTF write and read",
  "The RDM section (manufacturer, device model, software versions and their personalities with the mode they belong to, numbers up to 65535) and the Art-Net and sACN maps of a fixture type are reported exactly as they were set, and unchanged again after the description was written and read back without reported errors, and after a second write and read; protocols that were not created are absent.",
  ["inputs"], "one arbitrary number at a time, each protocol present or absent", "The tests write one fixed set of numbers.",
  ["src/GDTFManager.cpp", "src/Implementation/CGdtfFTRDM.cpp", "src/Implementation/CGdtfMap.cpp"], [("GdtfProtocols, GdtfFTRDM, GdtfSoftwareVersionID, GdtfDMXPersonality, GdtfMap", "src/GDTFManager.cpp")])
P("C17", "DMX breaks, footprints and function ranges follow their definition",
  "The breaks of a DMX mode are exactly those its channels use, in ascending order, where overwritten breaks are those of the geometry references. The footprint of a break is the span of all addresses of its non-virtual channels, counted directly in the geometry tree of the mode and once per geometry reference at the offset that reference gives for that break; it is 0 for breaks without addresses and never fails for references with missing breaks or circular links. A channel function ends one below the start of the next function when that starts higher, otherwise at the highest value of its channel, and the last channel set ends with its function.",
  ["inputs"], "arbitrary addresses, geometries, breaks and resolutions of up to 3 channels with up to 2 references", "The tests check the footprint of three fixed fixtures.",
  ["src/GDTFManager.cpp", "src/Implementation/CGdtfDmxMode.cpp"], [("GdtfDmxMode::GetBreakArray", "src/GDTFManager.cpp"), ("GdtfDmxMode::GetFootPrintForBreak", "src/GDTFManager.cpp"), ("GdtfDmxChannelFunction::GetEndAdress", "src/GDTFManager.cpp")])
P("C18", "The object tree of a scene file survives writing and reading",
  "Layers, groups, fixtures, scene objects, focus points, trusses, video screens, projectors and supports put into a scene are found again in the same order, at the same place of the tree, with the same kind, identifier, name and transformation, both in the scene under construction and after it was written to a scene file and read back (numbers within six decimals; groups without children are not written). The number of scene objects and the file version are reported correctly, and duplicated identifiers are reported exactly when two objects share one.",
  ["inputs"], "every kind at every place of a four-level tree; one arbitrary value in any object at a time", "The tests write one fixed scene; a kind that loses its transformation or its children, or an identifier or name that is misread for other values, goes unseen.",
  ["src/SceneDataExchange.cpp", "src/Implementation/CMediaRessourceVectorImpl.cpp", "src/Implementation/CSceneObjImpl.cpp", "src/Wrapper/ZIPFileImpl.cpp"], [("SceneDataExchange::WriteToFile / ReadFromFile / ReadChildObjs", "src/SceneDataExchange.cpp"), ("CMediaRessourceVectorImpl::GetFirstChild / GetNextObject / Create...", "src/Implementation/CMediaRessourceVectorImpl.cpp")])
P("C19", "The values of scene objects survive writing and reading a scene file",
  "The fixture file, mode, ids, unit and custom numbers, colour, gobo, function and pan/tilt flags, DMX addresses with their breaks and protocols of a fixture, the sources and scale handling of video screens and projectors, and the custom commands, alignments, overwrites and connections of every object are reported exactly as they were set, and unchanged again (numbers within six decimals) after the scene was written to a file and read back. The lists have exactly the entries added, and asking for an address or protocol behind the last one fails.",
  ["inputs"], "all doubles in all fields, one arbitrary integer or text at a time, lists of 0 to 2 entries", "The tests use one fixed value per field and never read several of the lists back.",
  ["src/SceneDataExchange.cpp", "src/Implementation/CSceneObjImpl.cpp"], [("SceneDataFixtureObj, SceneDataObjWithMatrix, SceneDataVideoScreenObj, SceneDataProjectorObj: OnPrintToFile / OnReadFromNode", "src/SceneDataExchange.cpp"), ("CSceneObjImpl setters and getters", "src/Implementation/CSceneObjImpl.cpp")])
P("C20", "Shared definitions of a scene file and the references to them survive",
  "Positions, classes, symbol definitions with their geometries and nested symbols, mapping definitions and data providers with their entries keep identifiers, names, values and order when a scene is written to a file and read back. References from objects to positions, focus points, classes, symbols and mapping definitions lead to the same definition again, whether that is the first or a later one, and symbols and files keep their transformation.",
  ["inputs"], "one arbitrary identifier byte, name character or number at a time; references to the first and second definition of each kind", "The tests write classes and nested symbols but never check that they arrive, and use one definition of each kind.",
  ["src/SceneDataExchange.cpp", "src/Implementation/CMediaRessourceVectorImpl.cpp", "src/Implementation/CSceneObjImpl.cpp"], [("SceneDataExchange::WriteToFile, ReadFromGeneralSceneDescription reference resolution", "src/SceneDataExchange.cpp"), ("SceneDataSymDefObj, SceneDataMappingDefinitionObj, SceneDataProviderObj", "src/SceneDataExchange.cpp")])
P("C21", "Archives give back the files that were put in",
  "Every file added to an archive, with or without compression, is listed once, in the order added, under its name (backslashes becoming slashes) and gives back exactly the bytes and size that were put in, whether the archive is read from the file or from the buffer it was exported to; empty files are kept. Adding a second file with the same name fails and changes nothing, and asking for a file that is not there fails.",
  ["inputs"], "arbitrary short contents and names, 1 to 3 files", "The tests never read an archive back on its own; contents that contain archive signatures, empty files and repeated names are not tried.",
  ["src/Wrapper/ZIPFileImpl.cpp", "src/Wrapper/FileIdentifier.cpp", "src/Wrapper/ZIPFileBuffer.cpp"], [("CZIPFileImpl::OpenNewWrite / AddFile / GetNextFile / GetFile / ToBuffer", "src/Wrapper/ZIPFileImpl.cpp")])
P("C22", "Damaged archives are read without harm",
  "Opening, listing and reading an archive of which any bytes are altered, missing or cut off never reads or writes outside the memory of the archive and its results, never throws, and ends. When the directory of the archive is intact, all its names are still listed, and every file whose own bytes are not damaged still gives back its exact content.",
  ["inputs"], "arbitrary bytes at every place, every cut, every short gap in an archive of two files", "The tests only open sound archives.",
  ["src/Wrapper/ZIPFileImpl.cpp", "src/Wrapper/ZIPFileBuffer.cpp"], [("CZIPFileImpl::OpenRead / GetNextFile / GetFile / GetFileInfo", "src/Wrapper/ZIPFileImpl.cpp"), ("unzOpen2 and directory parsing", "src/Wrapper/ZIPFileImpl.cpp")])
P("C23", "Opening an untrusted archive touches only the working folder",
  "Whatever names the files in a scene or fixture archive have (with parent folder steps, leading separators, either kind of slash or escape codes, read from a file or from memory), opening, using and closing it writes, creates and deletes only files and folders below the working folder of the library for that archive; the other files of the archive are still read. The fixture file a scene object refers to is read only from inside the scene file's working folder, whatever name the reference gives.",
  ["inputs"], "entry names made of the parts that matter for paths and arbitrary characters; every file operation is checked", "The tests only open archives with harmless names.",
  ["src/SceneDataExchange.cpp", "src/GDTFManager.cpp", "src/Utility.cpp", "src/Implementation/CSceneObjImpl.cpp", "src/Wrapper/FileIdentifier.cpp", "src/Wrapper/FolderIdentifier.cpp"], [("SceneDataExchange::ReadFromFile", "src/SceneDataExchange.cpp"), ("GdtfFixture::ImportFromZip / PrepareWorkingFolder", "src/GDTFManager.cpp"), ("CSceneObjImpl::GetGdtfFixture", "src/Implementation/CSceneObjImpl.cpp")])
P("C24", "Messages between stations arrive as they were sent",
  "Every MVR-xchange message of the eight kinds, encoded for the wire and decoded by the other side, arrives with the same kind and the same values: texts, version numbers, file sizes, identifiers, lists and the result flag and text of answers. Its header carries the package flag, version 1, number 0, count 1, the package type and the exact length of the body, in network byte order. A requested file, given as buffer or as path (the buffer wins), arrives byte for byte; texts that are not valid UTF-8 do not keep a message from being sent.",
  ["inputs"], "all message kinds with an arbitrary value in every field", "The tests send one fixed message of some kinds; they never look at the header and send no files.",
  ["src/mvrxchange/mvrxchange_message.cpp", "src/mvrxchange/mvrxchange_dynamic_buffer.cpp", "src/Include/IMediaRessourceVectorInterface.h"], [("MVRxchangePacket::FromExternalMessage / ToExternalMessage / EncodeHeader / DecodeHeader", "src/mvrxchange/mvrxchange_message.cpp"), ("MVR_COMMIT_ToJson / MVR_COMMIT_FromJson", "src/mvrxchange/mvrxchange_message.cpp")])
P("C25", "Hostile messages from other stations are refused safely",
  "Whatever header and body another station sends, decoding them never throws, never reads or writes outside the packet's memory and the fields of the result, and leaves every text terminated. A header with a wrong flag or a length for which there is no room is refused and nothing more is expected; every accepted header leaves room for the body it announces. A body that is not a JSON object with a known type, that misses a field of its type or has a number, list or object where a text or identifier belongs is reported as failed.",
  ["inputs"], "arbitrary headers, fields of the wrong kind, altered and cut messages", "The tests only decode well-formed messages.",
  ["src/mvrxchange/mvrxchange_message.cpp", "src/mvrxchange/mvrxchange_dynamic_buffer.cpp", "src/mvrxchange/json.h"], [("MVRxchangePacket::DecodeHeader / ToExternalMessage / Internal_ToExternalMessage", "src/mvrxchange/mvrxchange_message.cpp"), ("MVRxchangeDynamicBuffer::GrowTo", "src/mvrxchange/mvrxchange_dynamic_buffer.cpp")])
P("C26", "Announced stations are listed as they announced themselves",
  "After a query for local MVR-xchange stations, every found record of the service with an IPv4 address is listed once, in order, with its host name, port, address, station name and station identifier, wherever these two stand among the entries of its text record; records of other services, without address or repeating the address and port of an earlier one are left out. Whatever bytes a text record has, the query ends without harm and the other stations are listed correctly; asking for a station behind the last fails.",
  ["inputs"], "text records of arbitrary entries and bytes, lists of records of every kind", "The tests never query for stations.",
  ["src/mvrxchange/CMVRxchangeService.cpp"], [("CMVRxchangeServiceImpl::QueryLocalServices / GetLocalServiceAt", "src/mvrxchange/CMVRxchangeService.cpp"), ("mDNS_Client_Task / mDNS_Filter_Queries", "src/mvrxchange/CMVRxchangeService.cpp")])
P("C27", "A service announced on the network is found as announced",
  "When a running service receives a query for it, it answers exactly once, and whoever receives the answer to its query lists the service exactly once with its host name, service name, port, IPv4 address (and IPv6 address, if the computer has one) and text record, as long as the host name is at most 63 characters and the answer fits into 512 bytes. Stations with similar names, also on the same computer, are each listed once with their own port and text, in the order in which they answered. Names and texts that are too long never do harm.",
  ["inputs"], "names, ports, addresses and texts with arbitrary bytes, several stations in any order", "The tests have no network and never announce or query.",
  ["mdns_cpp/src/mdns.cpp", "mdns_cpp/src/mdns.h", "mdns_cpp/src/utils.cpp"], [("mDNS::executeQuery2 / query_callback / service_callback", "mdns_cpp/src/mdns.cpp"), ("mdns_query_answer / mdns_query_send / mdns_string_make", "mdns_cpp/src/mdns.h")])
P("C28", "Packets from the network do no harm to queries and services",
  "Whatever packet arrives while querying for services, discovering services or running a service (cut off, altered, with references that lead anywhere, longer than the receive buffer), it is processed in finite time, nothing outside the received bytes is read and what is found or answered does not depend on what was in memory behind them. Other stations' answers are still listed correctly, and proper queries are still answered.",
  ["inputs"], "cut and altered answers and queries, short arbitrary packets, packets that fill the receive buffer", "The tests never receive packets.",
  ["mdns_cpp/src/mdns.h", "mdns_cpp/src/mdns.cpp"], [("mdns_query_recv / mdns_socket_listen / mdns_discovery_recv / mdns_records_parse", "mdns_cpp/src/mdns.h"), ("mdns_get_next_substring / mdns_string_extract / mdns_string_skip / mdns_string_equal", "mdns_cpp/src/mdns.h")])
P("C29", "A damaged or foreign fixture description can be read and examined safely",
  "A fixture description in which an attribute or an element is missing, repeated, emptied, misnamed or has an unexpected value is read in finite time; every value the fixture then reports was set and depends on the file alone, a reference that names nothing leads to no other object, every object within a list can be obtained and one behind its end is refused, and writing the fixture works. When nothing was reported while reading, the written description reads back with the same objects, references and values.",
  ["inputs"], "descriptions of every kind of element altered at any one place, and every object and list of the fixture read from them", "The tests read well-formed files and a handful of broken values.",
  ["src/GDTFManager.cpp", "src/GDTFManager.h", "src/Implementation/CGdtfFixture.cpp"], [("GdtfFixture::OnReadFromNode / ResolveAllReferences and the OnReadFromNode of every object", "src/GDTFManager.cpp"), ("CGdtfGeometryImpl and the other list accessors", "src/Implementation/CGdtfGeometry.cpp")])
P("C30", "A damaged or foreign scene can be read and examined safely",
  "A scene file in which an attribute or an element is missing, repeated, emptied, misnamed or has an unexpected value is read in finite time; every value its objects then report was set and depends on the file alone, no object is handed out without content, every object within a list can be obtained and one behind its end is refused. The damage stays where it is: an altered value (other than an identifier) or missing detail leaves all objects in place and the values of all other objects as they were, a missing object does not change the order of the remaining ones, and a repeated one hides none.",
  ["inputs"], "scenes with every kind of object altered at any one place, and every object and list read from them", "The tests read well-formed scenes.",
  ["src/SceneDataExchange.cpp", "src/Implementation/CSceneObjImpl.cpp", "src/Implementation/CMediaRessourceVectorImpl.cpp"], [("SceneDataExchange::ReadFromGeneralSceneDescription and the OnReadFromNode of every object", "src/SceneDataExchange.cpp"), ("CSceneObjImpl and the other list accessors", "src/Implementation/CSceneObjImpl.cpp")])
