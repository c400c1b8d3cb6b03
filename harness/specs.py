COMMON_ASSUMPTIONS = ["heap allocation never fails below 64 MiB", "single thread", "C/C++ library replaced by the bitcode model in /verif/rt (C locale); sampled paths are replayed on the native build and compared", "code compiled by clang 18 at -O1; the replayed counterexamples run on the native ASan build"]
def J(name, h, part=None, time=60, **kw):
    p = dict(kw.pop("params", {}));
    if part is not None: p["part"] = part
    d = {"name": name, "h": h, "params": p, "time": time}; d.update(kw); return d
PROPS = {
 "C01": {"bounds": "16 arbitrary identifier bytes when printing; parsing with 4 arbitrary bytes  (4 arbitrary hex digits of either case) at each position group, the others fixed; one arbitrary printable character at every position for malformed text",
  "jobs": [J("print-parse", "uuid.cpp", 0, reach=["roundtrip"]), J("parse", "uuid.cpp", 1, reach=["decode"], time=90), J("converter", "uuid.cpp", 2, reach=["converter"]), J("numbers", "uuid.cpp", 3, reach=["numbers"]), J("malformed", "uuid.cpp", 4, reach=["malformed"])]},
 "C02": {"bounds": "all values of each type when printing and reading back; decimal text of up to 9 arbitrary digits; hex text of up to 5 arbitrary digits and of 17-18 digits with arbitrary first digit; arrays of up to 4 reals / 3 integers in [-100,100]; arbitrary printable text of up to 2 (thorough 3) characters; printed reals are compared after the same six-decimal rounding (uninterpreted function)",
  "jobs": [J("int32", "scalars.cpp", 0, reach=["int32"]), J("sizes", "scalars.cpp", 1, reach=["size", "uint32"]), J("decimal", "scalars.cpp", 2, reach=["decimal"]), J("reals", "scalars.cpp", 3, reach=["double"]), J("hex", "scalars.cpp", 4, reach=["hex", "hex-parse", "hex-long"]), J("flags", "scalars.cpp", 5, reach=["break"]), J("arrays", "scalars.cpp", 6, reach=["array"]), J("offsets", "scalars.cpp", 7, reach=["offsets"]), J("anytext", "scalars.cpp", 8, reach=["anytext"], params={"maxlen": 2}, tparams={"maxlen": 3})]},
 "C03": {"bounds": "all values of 1-4 bytes for round trip and shifting; scaling with one arbitrary byte at every byte position and three patterns in the other bytes; out-of-range values up to 10^18 symbolically and 19-22 digit values; arbitrary printable text of up to 2 (thorough 3) characters alone, after '5/' and before '/1'",
  "jobs": [J("roundtrip", "dmxvalue.cpp", 0, reach=["roundtrip"]), J("scale", "dmxvalue.cpp", 1, reach=["scale"]), J("shift", "dmxvalue.cpp", 2, reach=["shift"]), J("range", "dmxvalue.cpp", 3, reach=["range"]), J("text", "dmxvalue.cpp", 4, reach=["text"], params={"maxlen": 2}, tparams={"maxlen": 3})]},
 "C04": {"bounds": "all 16-bit addresses, universes and in-universe addresses; absolute values below 2*10^9; arbitrary printable text of up to 3 (thorough 4) characters",
  "jobs": [J("address", "dmxvalue.cpp", 5, reach=["address", "universe", "absolute"]), J("text", "dmxvalue.cpp", 6, reach=["text"], params={"maxlen": 3}, tparams={"maxlen": 4})]},
 "C05": {"bounds": "every value of the 23 keyword sets; arbitrary printable text of 1-3 (thorough 4) characters; every keyword with any one character replaced by, or extended with, an arbitrary printable character",
  "jobs": [J("values", "enums.cpp", 0, reach=["values"]), J("anytext", "enums.cpp", 1, reach=["anytext"], params={"maxlen": 3}, tparams={"maxlen": 4}), J("altered", "enums.cpp", 2, reach=["altered"])]},
 "C06": {"bounds": "all finite doubles in every component, compared after the same six-decimal rounding (uninterpreted function); colour lists of up to 3; texts of 1-6 entries in 1-5 rows with any of the outer braces missing; arbitrary printable text of up to 2 (thorough 3) characters alone and inside a longer text",
  "jobs": [J("vectors", "geomtext.cpp", 0, reach=["vector"]), J("matrix", "geomtext.cpp", 1, reach=["matrix"]), J("rotation", "geomtext.cpp", 2, reach=["rotation"]), J("colours", "geomtext.cpp", 3, reach=["colours"]), J("structure", "geomtext.cpp", 5, reach=["structure"]), J("anytext", "geomtext.cpp", 6, reach=["anytext"], params={"maxlen": 2}, tparams={"maxlen": 3})]},
 "C07": {"bounds": "one date field arbitrary (year 0-65535, others 0-99) at a time with three patterns of the others; four arbitrary year digits; arbitrary printable text of up to 2 (thorough 3) characters; each separator of one date removed or replaced, alone or together with the other of its kind, by any printable character",
  "jobs": [J("dates", "geomtext.cpp", 4, reach=["dates", "date-text"]), J("anytext", "geomtext.cpp", 6, reach=["anytext"], params={"maxlen": 2}, tparams={"maxlen": 3}), J("disturbed", "geomtext.cpp", 7, reach=["disturbed"])]},
 "C08": {"bounds": "texts of up to 4 (thorough 5) arbitrary 16-bit units, needles/separators/sets of up to 2, replacements of up to 3, every position and length up to two past the end",
  "jobs": [J("find", "txstring.cpp", 0, reach=["find"], tparams={"len": 5}), J("char", "txstring.cpp", 1, reach=["char", "set"], tparams={"len": 5}), J("edit", "txstring.cpp", 2, reach=["edit"], tparams={"len": 5}), J("parts", "txstring.cpp", 3, reach=["parts"], tparams={"len": 6}), J("split", "txstring.cpp", 4, reach=["split", "trim"], tparams={"len": 6}), J("replace", "txstring.cpp", 5, reach=["replace"], tparams={"len": 6})]},
 "C09": {"bounds": "up to 2 (thorough 3) arbitrary code points of every encoded length; any 1-4 (thorough 6) non-zero bytes; any 1-3 (thorough 4) UTF-16 units; copy buffers of 1-10 bytes",
  "jobs": [J("valid", "txstring.cpp", 6, reach=["utf"], tparams={"codes": 3}), J("bytes", "txstring.cpp", 7, reach=["bytes"], tparams={"bytes": 6}), J("units", "txstring.cpp", 8, reach=["units"], tparams={"units": 4})]},
 "C10": {"bounds": "two texts of up to 3 (thorough 4) arbitrary 16-bit units, three texts of up to 2 for transitivity; the standard library's byte hash is an arbitrary (uninterpreted) function of the bytes",
  "jobs": [J("compare", "txstring.cpp", 9, reach=["compare"], params={"len": 3}, tparams={"len": 4}), J("hash", "txstring.cpp", 10, reach=["hash"], params={"len": 3, "realhash": 2}, tparams={"len": 5}), J("order", "txstring.cpp", 11, reach=["transitive", "transitive-eq"])]},
 "C11": {"bounds": "attribute values and texts of up to 3 (thorough 4) arbitrary printable, tab or newline characters plus a two-byte character; trees of up to 5 (thorough 6) elements with two names; character references of up to 3 (thorough 4) arbitrary hex and 3 decimal digits; 15 document beginnings followed by up to 3 (thorough 4) arbitrary bytes, with and without an end; every prefix of a document",
  "jobs": [J("attributes", "xmldoc.cpp", 0, reach=["attributes"], params={"len": 3}, tparams={"len": 4}), J("text", "xmldoc.cpp", 1, reach=["text"], params={"len": 3}, tparams={"len": 4}), J("structure", "xmldoc.cpp", 2, reach=["structure"], params={"nodes": 5}, tparams={"nodes": 6}), J("references", "xmldoc.cpp", 3, reach=["reference"], tparams={"hex": 4}), J("malformed", "xmldoc.cpp", 4, reach=["malformed"], params={"free": 3}, tparams={"free": 4}), J("cut", "xmldoc.cpp", 5, reach=["cut"])]},
 "C12": {"bounds": "one description with every field; doubles: all finite values in every field at once (reading compared after the same six-decimal rounding, an uninterpreted function); one integer or text field arbitrary at a time (32-bit integers within 2000 of 0, 64-bit below 10^6, one arbitrary printable character per text), the others fixed and distinct; enumerations rotated through all their values; 2 revisions, 2 activation groups, 2x2 features, 3 attributes with sub-physical units; three more variants with extreme values everywhere (smallest and largest numbers, empty, 300-character and special-character texts)",
  "jobs": [J("header", "gdtf1.cpp", 0, reach=["header"]), J("attributes", "gdtf1.cpp", 1, reach=["attributes"])]},
 "C13": {"bounds": "as for the header: doubles arbitrary everywhere, one integer or text arbitrary at a time, enumerations rotated through all values; 2-3 elements of each kind; three more variants with extreme values everywhere (smallest and largest numbers, empty, 300-character and special-character texts)",
  "jobs": [J("wheels", "gdtf1.cpp", 2, reach=["wheels"]), J("models", "gdtf1.cpp", 3, reach=["models"]), J("emitters", "gdtf1.cpp", 4, reach=["emitters"]), J("physical", "gdtf1.cpp", 5, reach=["physical"])]},
 "C14": {"bounds": "trees of 7 geometries and 3 levels in which every one of the 18 kinds stands at every place; doubles arbitrary everywhere, one integer or text arbitrary at a time, enumerations rotated; three more variants with extreme values everywhere (smallest and largest numbers, empty, 300-character and special-character texts)",
  "jobs": [J("tree", "gdtf2.cpp", 0, reach=["kinds"]), J("values", "gdtf2.cpp", 1, reach=["values"]), J("links", "gdtf2.cpp", 2, reach=["links"])]},
 "C15": {"bounds": "modes with 2-3 channels of 0-4 bytes, 2-3 logical channels, up to 4 functions, 3 channel sets, 2 sub channel sets, mode masters of both kinds, 3 relations, 2 macros with 2x2 steps and values; doubles arbitrary everywhere, one DMX value (lowest byte), integer or text arbitrary at a time, enumerations rotated; covering: up to 2 (thorough 3) channel sets with arbitrary bounds in a channel of 1-2 (thorough 3) bytes; three more variants with extreme values everywhere (smallest and largest numbers, empty, 300-character and special-character texts)",
  "jobs": [J("channels", "gdtf3.cpp", 0, reach=["channels"]), J("sets", "gdtf3.cpp", 1, reach=["sets"]), J("cover", "gdtf3.cpp", 2, reach=["cover"], params={"sets": 2, "bytes": 2}, tparams={"sets": 3, "bytes": 3}, ttime=600), J("macros", "gdtf3.cpp", 3, reach=["macros"])]},
 "C16": {"bounds": "0-1 RDM section with 2 versions of 2 personalities, 0-1 Art-Net and sACN maps of 2 entries; one integer arbitrary at a time (hexadecimal numbers: all values of one of their digits, 32-bit within 2000 of 0), and variants with extreme numbers",
  "jobs": [J("protocols", "gdtf4.cpp", 0, reach=["protocols"])]},
 "C17": {"bounds": "3 channels of which one is arbitrary in geometry (5), bytes (0-4, not next to each other), break (2 and overwrite) and, for up to 2 bytes and breaks per reference, address (1-600) and one in geometry (2) and break (3); 0-2 references with 0-3 breaks each, also with a reference to a geometry around itself; function ranges: up to 4 (thorough 5) functions with arbitrary 32-bit start addresses in channels of 0-4 bytes",
  "jobs": [J("footprint", "gdtf4.cpp", 1, reach=["footprint"], time=120), J("loop", "gdtf4.cpp", 1, reach=["footprint"], params={"loop": 1}, time=120), J("ranges", "gdtf4.cpp", 2, reach=["ranges"])]},
 "C18": {"bounds": "a scene of 10 objects on 4 levels in which each of the 8 kinds stands at every place, also with groups in groups; one identifier byte, name character or matrix entry (any finite double) of any object arbitrary; three objects whose identifiers differ in one arbitrary byte of any of the four parts; deflate and checksum of the archive replaced by stored blocks",
  "jobs": [J("tree", "mvr1.cpp", 0, reach=["tree"], time=120), J("duplicates", "mvr1.cpp", 1, reach=["duplicates"])]},
 "C19": {"bounds": "two objects per scene of all 7 kinds; doubles arbitrary everywhere, one integer (64-bit below 10^6, 32-bit within 2000 of 0, 8-bit all) or text (one arbitrary printable character) arbitrary at a time, enumerations rotated; 0-2 addresses, protocols, commands, alignments, overwrites, connections; function names of custom commands without comma; three more variants with extreme values everywhere (smallest and largest numbers, empty, 300-character and special-character texts)",
  "jobs": [J("values", "mvr2.cpp", 0, reach=["set up"], time=90), J("lists", "mvr2.cpp", 1, reach=["set up"], time=90)]},
 "C20": {"bounds": "two positions, classes, symbol definitions and mapping definitions with one arbitrary character or identifier byte at a time, references from two objects to either of them, 1-2 symbols and files, two data providers with 0-3 entries; three more variants with extreme values everywhere (smallest and largest numbers, empty, 300-character and special-character texts)",
  "jobs": [J("definitions", "mvr2.cpp", 2, reach=["set up"], time=90), J("providers", "mvr2.cpp", 3, reach=["set up"], time=60)]},
 "C21": {"bounds": "archives of 1-3 files in a file and in a buffer, with and without compression; one name with an arbitrary printable character and contents of 0-3 (thorough 0-8) arbitrary bytes; deflate and checksum replaced by a stored-block model during symbolic execution",
  "jobs": [J("roundtrip", "zip.cpp", 0, reach=["written", "roundtrip"], tparams={"maxsize": 9})]},
 "C22": {"bounds": "an archive of two small files with 1 (thorough 2) consecutive arbitrary bytes at every place of the file parts, directory entries and end record, cut at every length, or with 1-4 bytes missing at every place; checksums are not verified in the model",
  "jobs": [J("damaged", "zip.cpp", 1, reach=["damaged", "intact"], tparams={"width": 2}, ttime=600)]},
 "C23": {"bounds": "an archive with a good file and one whose name is one of 8 beginnings ('', 'a/', 'a\\\\', './', '..', '/', '..%2F', 'a/b/c/'), 2 (thorough 3) arbitrary printable characters and one of 4 endings ('', 'x', '/x', '/../x'); scene and fixture files, from file and from memory; fixture references of 5 beginnings with 2 (thorough 3) arbitrary characters",
  "jobs": [J("scene", "contain.cpp", 0, reach=["read", "closed"], tparams={"chars": 3}, ttime=400), J("fixture", "contain.cpp", 1, reach=["read", "closed"], tparams={"chars": 3}, ttime=700), J("reference", "contain.cpp", 2, reach=["fixture read", "closed"], tparams={"chars": 3}, ttime=400)]},
 "C24": {"bounds": "all eight message types; one arbitrary value per path: texts empty, with one or two arbitrary characters (ASCII, special characters, 2, 3 and 4 byte characters with arbitrary last byte), 1022 and 1023 bytes long; numbers 0 to 109 and around 2^24, 2^31, 2^32, 2^53, 2^63, 2^64; identifiers zero or with one arbitrary digit anywhere; lists of 0 to 2; texts that are not valid UTF-8 with an arbitrary byte or cut at the buffer end (only: sent and understood); files of 1 to 5000 bytes with three arbitrary bytes, from memory, from a file and with both given",
  "jobs": [J("message", "xchange.cpp", 0, reach=["done", "text", "number", "uuid", "count", "flag"]), J("illformed", "xchange.cpp", 1, reach=["done", "text"]), J("file", "xchange.cpp", 2, reach=["done"])]},
 "C25": {"bounds": "headers with every field arbitrary except the body length (0 to 39, 30 MB - 30 to 30 MB + 16, 2^32, 2^62, 2^63, the last 64 before 2^64); JSON objects of all eight types in which one field, the type or one field inside a list is missing or one of 14 other values (null, flags, numbers, texts up to 2024 bytes, lists, objects, nested); three messages with one arbitrary byte anywhere or cut anywhere; bodies of up to 3 (thorough 4) arbitrary bytes",
  "jobs": [J("header", "xchange.cpp", 3, reach=["accepted", "refused"]), J("fields", "xchange.cpp", 4, reach=["done", "accepted", "refused"]), J("mutated", "xchange.cpp", 5, reach=["done"]), J("bytes", "xchange.cpp", 6, reach=["done"], tparams={"length": 4})]},
 "C26": {"bounds": "station names short with an arbitrary character, with a two byte character, with '=', 243 bytes long; identifiers with an arbitrary digit; any port; both orders of the entries, with an empty entry, an entry without value or with an arbitrary key before, between or after; arbitrary text records of up to 2 entries of up to 2 bytes (quick: the second 1) with fitting or wrong lengths and 4 endings; up to 3 records of 8 kinds. The network is a stand-in that hands out the records",
  "jobs": [J("announced", "mdns.cpp", 0, reach=["done"]), J("anything", "mdns.cpp", 1, reach=["done"], tparams={"more": 1}, ttime=700), J("filtered", "mdns.cpp", 2, reach=["done"])]},
 "C27": {"bounds": "host names of 1 to 63 characters, one of them with an arbitrary byte; three service names; any port; addresses with one arbitrary byte; text records of 0, 1, 20, 200 and 255 bytes with one arbitrary; with and without a second (IPv6) address; queries answered to the asker or to all, other packets before, answers received twice; 2 or 3 stations on one or several computers with similar names in every order; host names up to 460 and service names up to 140 characters (answers have room for 512 bytes); sockets and threads are stand-ins, the service runs until nothing is left to receive",
  "jobs": [J("answered", "packets.cpp", 0, reach=["done"], time=90), J("several", "packets.cpp", 1, reach=["done"]), J("big", "packets.cpp", 8, reach=["done"])]},
 "C28": {"bounds": "answers, queries and discovery replies cut at every length, or with one arbitrary byte at every place, or with a reference to an arbitrary place at every place; headers of five kinds with a record of five types and up to 3 (thorough 4) bytes of which one is arbitrary and the others from 6 values, also after a service they can belong to; packets of 2046 to 2048 bytes; what lies behind the packet in the receive buffer is one of four patterns, and the outcome is compared between two of them",
  "jobs": [J("cut", "packets.cpp", 2, reach=["done"]), J("changed", "packets.cpp", 3, reach=["done"], time=90), J("refs", "packets.cpp", 3, reach=["done"], params={"ref": 1}), J("short", "packets.cpp", 4, reach=["done"], time=120, tparams={"bytes": 5}, ttime=800), J("full", "packets.cpp", 5, reach=["done"]), J("asked", "packets.cpp", 6, reach=["done"]), J("askedcut", "packets.cpp", 7, reach=["done"]), J("discovery", "packets.cpp", 9, reach=["done"])]},
 "C29": {"bounds": "12 documents written by the library (1 to 5 KB, together with every kind of element), as written and altered in one place (the first or last of each kind, thorough: any): an attribute removed or its value one arbitrary printable character or one of 4 (thorough 8) unexpected texts; an element removed, repeated, emptied or renamed",
  "jobs": [J("doc%d%s" % (k, "abcd"[h] if n > 1 else ""), "foreign.cpp", k, reach=["read", "again", "same"], time=240, ttime=800, params={"nth": h, "of": n}, tparams={"all": 1}) for k, n in ((8, 4), (9, 3), (10, 3), (6, 2), (2, 2), (5, 2), (0, 1), (1, 1), (3, 1), (4, 1), (7, 1), (11, 1)) for h in range(n)]},
 "C30": {"bounds": "three scenes (2 to 4 KB, together with every kind of object and element this library reads), as written and altered in one place: an attribute or the text of an element removed or one arbitrary printable character or one of 8 unexpected texts; an element removed, repeated, emptied or renamed",
  "jobs": [J("scene%d%s" % (k, "abc"[h]), "scenes.cpp", k, reach=["read", "examined", "closed"], time=200, params={"all": 1, "nth": h, "of": n}) for k, n in ((1, 3), (2, 2), (0, 1)) for h in range(n)]},
}
NOT_APPLICABLE = {}
