P("P01", "A byte buffer is a bounded cursor over its octets",
  "Every read, write and repositioning of a byte buffer acts on exactly the window it names: it returns or replaces those octets, moves the position by the number of octets transferred (not at all for operations at an explicit position), and leaves every other octet alone. An operation whose window does not lie wholly inside the buffer, or that writes to a read-only buffer, is refused and changes neither content nor position; every position from the start to the end of the buffer can be selected. A frozen copy is read-only and keeps the content it was made from.",
  "histories inputs", "all histories of reads, writes, positional accesses, seeks, slices and freezes on buffers of 0..4 octets, writable and read-only, at and beyond both ends; all histories of up to 2 operations at start, middle and end of buffers of 8 sizes to 600 octets, and of 65540",
  "The tests write a few values into a roomy buffer and print it; nothing checks the edges, explicit positions, or that a refused call leaves the cursor alone.",
  "types/byte_buffer.py", [("space check before each access, cursor advanced after it", S + "types/byte_buffer.py: ByteBuffer")],
  "States merge on (content, position).", ["read/write/seek results, position, whole content"])
P("P02", "The buffer PDU codec writes exactly what it reads",
  "Putting any value of the buffer-based PDU codec (integers, booleans, octet strings, optionals, sequences, arrays, data choices) at any position writes exactly its standard tag, length and content octets there, as many as it announces as its size, and moves the position past them; getting it back gives an equal value of the same kind and tag. Integers compare by their numeric value, whatever their kinds, out-of-range integers and fixed-size octet strings of another size are refused, and an input that ends before the value does is refused.",
  "inputs", "element lengths 0..699 and around every power of two to 2^64; all 8-bit integers and power-of-two neighbours of wider ones; data trees of depth 2 over every tag; sequences of up to 3 fields; every proper prefix",
  "Tests encode a handful of small values and mostly print the result; lengths of 128 and more, values at a non-zero position and tags sharing a representation are never read back.",
  "types/cosem_pdu.py", [("length octets", S + "types/cosem_pdu.py: put_len, get_length, encode_length, decide_len"), ("tag lookup", S + "types/cosem_pdu.py: Choice")],
  "The reference is an independent encoder.", ["buffer content and position", "decoded values"])
P("P03", "Service types decode what they encode",
  "Each service-level type (integers, octet/visible/UTF-8 strings, bit strings, booleans, optionals, sequences, data choices, attribute and method descriptors, object names, invoke-id-and-priority) encodes its value to the standard octets, and decoding those octets, whatever follows them, gives the same value and tag back. Inputs that end early, fixed-size strings of another size, integers outside their range, unknown tags and unreadable texts are refused; integers compare by value, whatever their kinds, and object names convert to and from dotted text without loss.",
  "inputs", "all 8-bit integers, power-of-two neighbours of wider ones, all bit strings up to 11 bits, string lengths around 0, 128, 256 and 65536, all 256 octets of invoke-id-and-priority, every data alternative, all sequences of up to 3 fields over 6 kinds and one nesting, every early cut",
  "Tests build a few values and look at one or two encodings; decoding with a tail, lengths above 127 and truncation are not tried.",
  "types/useful_types.py", [("from_contents / contents pairs", S + "types/useful_types.py"), ("length octets", S + "types/useful_types.py: encode_length, get_length_and_pdu")],
  "One recorded finding (priority bit), pinned by a stable test.", ["contents, decoded values, text"])
P("P04", "COSEM data survive the wire unchanged",
  "Decoding any well-formed COSEM data value (every simple type, arrays, structures, nested) and encoding it again gives the octets received - length octets in shortest form, booleans as 0 or 1 - and the value stands for the same built-in Python value; whatever follows the value on the wire is returned untouched, even when the received length octets are longer than necessary. A copy is equal to, hashes like and encodes like the original. A value made from a value of another type is well-formed data of its own type, holding the same number or the same octets, or is refused.",
  "inputs", "every simple tag with boundary contents, all 8-bit and 16-bit integers, string and bit-string lengths 0..69 and around powers of two to 65536, all trees of arrays and structures to depth 3 over 8 kinds of leaf, each followed by several tails, every length written in 1..5 octets; 105 values made into each of 24 types",
  "Tests decode single hand-written PDUs; they never vary tails, length forms or nesting, and mostly check the text.",
  "types/common_data_types.py", [("tag dispatch", S + "types/common_data_types.py: get_instance_and_pdu_from_value"), ("length octets", S + "types/common_data_types.py: encode_length, get_length_and_pdu")],
  "The oracle is an independent wire parser (mc/ref.py).", ["encoding, decode(), rest of the input"])
P("P05", "Octets that are not COSEM data are refused",
  "An octet string is accepted as COSEM data exactly when it begins with one complete, well-formed value of a known tag: values cut short, wrong or unknown tags, arrays of mixed element types, impossible dates and times, and fixed-size contents of another size are refused with an exception, never read as some other value and never by reading on into what follows; no input makes decoding loop.",
  "inputs", "all octet strings up to 2 octets, most of 3 octets, all of 4-6 octets over an 8-letter alphabet starting with array/structure, all prefixes, single-octet substitutions, drops and doublings of 43 encodings, strings, bit strings, arrays and structures of 22 sizes with something missing, raw contents of 0..16 octets for each type, nesting to 60",
  "Tests contain a handful of invalid inputs; acceptance of malformed input is a statement about all the others.",
  "types/common_data_types.py", [("length and tag checks in the constructors", S + "types/common_data_types.py: Digital, Float, _String, __DateTime, Array, Structure, BitString")],
  "Differential against mc/ref.py; acceptance and value must both agree.", ["exception or value"])
P("P06", "Setting a value is all or nothing",
  "set() on any COSEM data value, simple or composite, either gives it exactly the new value or raises and leaves value and elements as they were, whatever was wrong with the argument and also when the before-change callback, its own or that of any element, refuses. An array without a declared element type takes it from the first elements it keeps. The before-change callback runs while the old value is still in place, the after-change callback exactly once after the new one is, and never after a refusal. Copies are independent of their original and do not trigger its callbacks.",
  "histories inputs", "all histories of up to 4 (thorough 6) set/refused set/set to itself or its own elements/callback registration/veto/copy operations on 18 kinds of simple and composite values; strings, bit strings and arrays from every to every other of 20 sizes; structures of 1..12 elements refused by each of them",
  "Tests set a value once; a refusal after callbacks, nested partial updates and sequences of operations are not sampled.",
  "types/common_data_types.py", [("set and callbacks", S + "types/common_data_types.py: SimpleDataType.set, Array.set, Structure.set, BitString.set")],
  "For a structure set() is carried out on its elements, whose own callbacks run.", ["encoding after each operation", "callback log"])
P("P07", "Integers keep range, text, scale and order",
  "Each of the eight integer types holds exactly the integers of its range (narrowed by min/max or a constant where a subclass declares one) and refuses all others from every source: number, text, contents or encoding. With a scaler and unit, the shown number is raw x 10^(scaler - unit prefix), text and report print exactly its digits, and giving back that text or number restores the raw value; a scaler and unit once given stays, in copies too. Values compare numerically within and across types; shifts act on the bit pattern within the width.",
  "inputs", "all 8-bit (thorough: 16-bit) values, powers of 2 and 10 with neighbours for wider types, scalers -8..8 x 3 units, whole numbers to 2^64 at 3 scales, all decimals of up to 4 digits at 4 scales, all pairs of 40 values compared, all 8-bit values against min/max/constant subclasses",
  "Tests use two or three values per type; rounding of scaled decimals and the far ends of the ranges are statements about all values.",
  "types/common_data_types.py", [("scaling", S + "types/common_data_types.py: Digital.from_int, Digital.decode, Digital.__str__"), ("limits", S + "types/common_data_types.py: Digital.validate")],
  "Scaled round trips are claimed for |raw| < 2^49 (results are doubles).", ["encoding, decode(), str(), report"])
P("P08", "Dates and times are valid and convert without loss",
  "A date, time or date-time value (also in its octet-string form) exists exactly for contents that name one: fields in range or not specified, an existing day of month, and a day of week that agrees with a fully specified date. Its fields, its text, its built-in Python value and its time zone say what the contents say; text and Python values convert back to the same contents; every field setter changes that field only, or raises and changes nothing; clear gives the default value.",
  "inputs", "14 years x 13 months x 15 days x 11 weekdays, 8x7x7x9 times and all single octets, date x time pairings, all deviations -720..720, all clock statuses, several thousand texts in every accepted layout, every value of each setter",
  "Tests look at a dozen dates; validity rules and conversions have to hold for every combination of specified and unspecified fields.",
  "types/common_data_types.py types/cosem_service_types.py", [("validity", S + "types/common_data_types.py: check_date, check_time"), ("text", S + "types/common_data_types.py: strpdate, strptime, strfdate, strftime")],
  "29 February of no particular year has no built-in value and is left out there.", ["contents, fields, str, decode()"])
P("P09", "The nearest earlier moment of a pattern is the latest one",
  "For a date-time or time whose fields may be unspecified, the search to the left of a given point returns the latest moment that carries every specified field and is not after the point, and None when there is none; the pattern is unchanged. (A date search compares the earliest moment of the day that the pattern names.)",
  "inputs", "all combinations of specified/unspecified year, month, day, weekday and 6-9 times of day, from 6-7 points around month, leap-year and year ends, 3 zones; 29 February and days 29..31 by day of week in 76 years around 1900 and 2100; 320 time patterns from 54-81 points of the day",
  "No test calls the search; month ends, leap years and weekday patterns need the whole calendar as oracle.",
  "types/common_data_types.py", [("search", S + "types/common_data_types.py: get_left_nearest_date, get_left_nearest_datetime, get_left_nearest_time")],
  "Brute force over all days of 40 years is the oracle; points are whole hundredths in the zone of the pattern.", ["returned moment"])
P("P10", "Floating-point values are IEEE 754 numbers",
  "The 32- and 64-bit floating-point types store numbers as big-endian IEEE 754 single and double precision: every finite bit pattern decodes to its exact number (signed zero and subnormals included), a number, integer or decimal or hexadecimal text is stored as the nearest representable number, ties to even, number and text read back give the same octets, a number of one width taken over into the other is rounded likewise, and infinite, not-a-number and too large values are refused.",
  "inputs", "32 bit: all exponents x 55 fractions x signs; 64 bit: 60+ exponents x 110 fractions x signs; 9 positions between neighbouring patterns at every 3rd exponent; 2340 decimal texts",
  "Tests check one or two numbers; exponent bias, rounding and subnormals need the whole exponent range.",
  "types/common_data_types.py", [("conversion", S + "types/common_data_types.py: Float.from_float, Float.decode")],
  "Oracle in exact rational arithmetic, independent of struct.", ["contents, decode()"])
P("P11", "Arrays behave as typed lists",
  "An array holds the elements appended, inserted, removed, popped and set, in order, like a Python list that admits one element type: iteration, length, indexing (negative too), encoding and built-in value always agree; elements of another type, duplicates in an array of unique elements, and indexes out of range are refused without effect; changing the element type empties the array; copies are independent.",
  "histories inputs", "all histories over typed, unique, structured, untyped and parametrised arrays of up to 3 (thorough 4) elements to the fixpoint of reachable contents; arrays of 0..300 elements built from six kinds of source",
  "Tests append a few elements; the equivalence with a list is a statement about every history.",
  "types/common_data_types.py", [("list operations", S + "types/common_data_types.py: __Array, Array")],
  "Removing an element that is absent, and inserting a foreign type, may raise or be ignored, but must leave the array alone.", ["elements after each operation"])
P("P12", "Bit strings, enumerations, booleans and strings keep their meaning",
  "Bit strings keep their bits in order through octets, text (of 0 and 1 only), lists, single-bit assignment, inversion, rotation and clearing; conformance and security-policy flags name the standard bit positions. Enumerations accept exactly the codes the standard assigns, from any source, and convert to and from text and number. Booleans follow the octet (zero is false) and the accepted words; octet, visible and UTF-8 strings keep all their characters and octets, fixed-size ones their size.",
  "histories inputs", "all bit strings of up to 12 bits and all histories of bit operations on 0..5 bits to the fixpoint; all 256 codes of 31 enumerations from four kinds of source; all single octets and characters, string lengths to 300; all word prefixes",
  "Tests touch a few codes and one or two bits.",
  "types/common_data_types.py types/implementations/bitstrings.py types/implementations/enums.py", [("bit access", S + "types/common_data_types.py: BitString"), ("codes", S + "types/common_data_types.py: Enum.__init_subclass__")],
  "Assigned codes are listed in the check, independent of the code.", ["contents, text, decode()"])
P("P13", "An HDLC frame carries exactly what was put in it",
  "For every destination and source address (1, 2 or 4 octets, chosen as the shortest that fits or forced), every control octet, segmentation bit and information field, the octets written are those of ISO/IEC 13239 frame format type 3 - flags, 11-bit length, addresses, header checksum exactly when there is information, frame checksum - and receiving them gives the same addresses, control, information and segmentation, and recognises exactly the station addressed (the same address written in another size is another address). Address parts outside 0..16383, addresses that do not fit a forced size and frames longer than 2047 octets are refused.",
  "inputs", "all 1- and 2-octet addresses, 4-octet addresses over 17 edge values per part, each forced size; 100 address pairs; all 256 control octets; all information lengths 0..2059",
  "The tests look at five address encodings; no frame is ever written or read back.",
  "hdlc/frame.py", [("address and format packing", S + "hdlc/frame.py: Address, Format"), ("checksums", S + "hdlc/frame.py: CRC, Frame.content")],
  "The reference encoder (mc/hd.py) computes its own CRC table.", ["Frame.content, get_header, control, info, is_segmentation, is_for_me"])
P("P14", "A damaged HDLC frame is never delivered as another one",
  "When up to three bits, or one burst of up to 16 bits, or one octet of a frame between its flags is changed, or the frame is cut short at either end, or an octet of it is dropped or repeated, or two neighbouring octets change places, or its header or frame checksum has any other value, or it is of another format type, a receiver given the result delivers nothing rather than a frame with other contents, and never fails with an error.",
  "inputs", "seven frames of every shape: all errors of 1-2 bits (3 in the shorter frames; 3 everywhere in thorough), all bursts up to 9 bits (16 in thorough), all octet values, all cuts, all 65536 checksums",
  "No test damages a frame; detection is a statement about every error pattern.",
  "hdlc/frame.py", [("checksum comparison on reception", S + "hdlc/frame.py: CRC.from_frame, Frame.__init__, Frame.try_from")],
  "Bit errors inside the 11-bit length field are covered octet by octet, not in combination.", ["frames returned by try_from"])
P("P15", "A receiver finds every frame in a stream",
  "A receiver that appends arriving octets to a buffer and takes frames from it until the buffer no longer changes delivers every intact frame exactly once and in order, however the stream is cut into pieces, whether neighbouring frames share a flag or not, and whatever noise without frame headers, stray flags, damaged frames, frames of another format or frames too short for their fields come before, between or after them; it delivers nothing else and never fails with an error. An incomplete frame stays in the buffer until the rest arrives.",
  "schedules histories", "all scripts of up to 4 (thorough 5) of 9 pieces, flags shared or not, whole, octet by octet, and with one or two cuts anywhere; all strings of up to 5 octets over 7 letters; all short frames; up to 600 frames at once behind up to 9000 octets of noise; headers followed by every sequence of up to 3 (thorough 5) octets, some from its checksum",
  "The tests never receive a frame, let alone from pieces or after noise.",
  "hdlc/frame.py", [("flag search, length check, what is consumed when", S + "hdlc/frame.py: Frame.try_from, Frame.__init__")],
  "A false header announcing more octets than follow makes the receiver wait; streams containing one are outside the property.", ["frames returned, octets left in the buffer"])
P("P16", "Segments of an answer are joined in the order of their send numbers",
  "Joining received frames starts with the first information frame and, while the last segment taken announces more, adds the next information frame whose send number follows (modulo 8, the poll/final bit and where the numbering starts do not matter), skipping repeated, out-of-order and non-information frames; it gives exactly the concatenation of the segments taken, leaves frames after the last segment in the queue, and is refused when the last segment is missing.",
  "histories", "all sequences of up to 5 frames over 3 send numbers (thorough 6 over 4), with and without segmentation bit, and frames without information; runs of 1..20 segments from every start, poll style and receive number; one repeated, lost, inserted or swapped segment at every place",
  "No test joins segments; loss, repetition and wrap-around are properties of all sequences.",
  "hdlc/frame.py", [("walk over the queue", S + "hdlc/frame.py: Frame.join_info, Frame.is_next_send")],
  "Frames of one answer have the same receive number.", ["joined octets, frames left"])
P("P17", "HDLC control octets have one kind and number modulo 8",
  "Each of the 256 control octets is exactly one of information, supervisory or unnumbered, with the supervisory function, poll/final bit (information and supervisory) and wire octet of ISO/IEC 13239, and the named controls have their standard values. The next send number of an information frame and the next receive number of an information or receive-ready frame increase by one modulo 8 and leave the other number alone; a frame is recognised as the next one exactly when its numbers follow.",
  "inputs", "all 256 octets; all named information, supervisory and 16 unnumbered controls; all 16384 pairs of information frames",
  "No test touches control octets.",
  "hdlc/frame.py", [("bit masks and number arithmetic", S + "hdlc/frame.py: Control, Frame.is_next, Frame.is_next_send")],
  "The poll bit of unnumbered octets and the numbering of unnumbered frames are not stated.", ["predicates, next_send_sequence, next_receiver_sequence"])
P("P18", "Both ends of an HDLC link agree on the negotiated parameters",
  "The information field requesting link parameters states each parameter that differs from its default, in standard form, and is empty when none does; taking the peer's answer sets what we send to what it can receive and the reverse, and parameters not mentioned to their defaults. The request always reflects the current parameters, whatever assignments and answers came before. Answers with a wrong header or group length, an unknown, cut or out-of-range parameter are refused and change nothing.",
  "inputs histories", "13x13 information sizes x 7x7 windows, all sizes 32..2030 one at a time; all histories of up to 4 (thorough 6) of 15 assignments, good and bad answers; every cut of an answer",
  "The tests negotiate three parameter sets with default windows and one good answer.",
  "hdlc/negotiation.py", [("request packing and answer parsing", S + "hdlc/negotiation.py: Negotiation.SNRM, Negotiation.set_from_UA")],
  "Parameters are within the protocol's limits when a request is made.", ["SNRM, info, content, parameters"])
P("P19", "The LLC header is checked and removed, or put in front",
  "An octet string is accepted as an LLC unit exactly when it begins with a station or broadcast destination, a command or response source and zero quality; its information is exactly what follows, and its content and length are those received. A command built from any message is that message behind E6 E6 00. Shorter inputs are refused.",
  "inputs", "each octet in each of the three header places with five values in the others; every header shorter than three octets; messages of 0..300 and up to 70000 octets and of nested headers",
  "No test covers the LLC layer.",
  "hdlc/sub_layer.py", [("header parsing", S + "hdlc/sub_layer.py: LLC")],
  "", ["info, content, len"])
P("P20", "Versions are totally ordered and pick the right meter template",
  "A version text is read into major, minor, optional patch number and trailing text (no version gives 0.0), and its own text reads back to the same numbers. Versions are totally ordered by these numbers, one without a patch number before those with it; equality also takes the trailing text into account and equal versions hash equal. The nearest version among variants is the greatest one of the same major and minor number that is not above, or none. The template library gives the file of exactly the version asked for, else of the nearest one, and refuses unknown manufacturers, meter types and versions without a nearest one.",
  "inputs", "all pairs of 112 versions, all triples of 12, all subsets of up to 3 of 14 variants x 16 versions, all texts of up to 6 characters over 5 letters, all libraries of up to 3 of 9 files x 13 versions x 5 meters",
  "The tests compare four versions and search among three.",
  "version.py cosem_interface_classes/collection.py", [("comparison and search", S + "version.py: AppVersion"), ("template lookup", S + "cosem_interface_classes/collection.py: get_manufactures_container, get_dir_entry")],
  "Libraries are directories in a scratch folder.", ["comparison results, selected version, selected file"])
P("P21", "Firmware images come out of their container intact or not at all",
  "Decrypting an encrypted firmware image with the same key gives the image back, for any length, and for any order of several images handled with one cipher; a ciphertext changed anywhere, cut short, or decrypted with another key is refused. A container file gives exactly the firmware and boot images stored for the manufacturer asked for, whichever way its key is written in the configuration, and nothing for an unknown manufacturer; a damaged, cut or foreign container or an unknown key notation is refused.",
  "inputs", "lengths 0..300 and around 1024, 4096 and 65536 with three key sizes; sequences of three; single-bit and whole-octet changes (thorough: all values) of every octet of six ciphertexts, all cuts, all one-bit key changes; containers with up to 2+2 images, some with up to 40, and every cut of one",
  "The one test needs a file that does not exist.",
  "firmwares.py", [("hash check after decryption", S + "firmwares.py: encrypt, decrypt"), ("container reading", S + "firmwares.py: get_firmware")],
  "Trusts AES and SHA-256; the random initial vector is not controlled and does not influence the observations.", ["returned images or exception"])
P("P22", "Configuration and message templates resolve as written, with safe fallbacks",
  "Looking up a path of keys in the configuration gives the value stored there, or nothing when any key is absent. In a message template each $key$ is replaced by its configured translation, or by the key itself when there is none, $$ by one dollar sign, and every other character is kept, whatever the template contains. The package can be imported from any working directory: a config.toml there is used, otherwise the packaged one, and translations may be missing.",
  "inputs", "all texts of up to 7 characters over 4 letters; every key in 49 contexts; all pairs of 6 keys; all configuration paths of up to 3 keys; three start-up configurations in new processes",
  "The tests translate three templates from one directory.",
  "config_parser.py", [("path walk and template scanner", S + "config_parser.py: get_values, get_message"), ("choice of file", S + "config_parser.py: path")],
  "The configuration is the fixed mc/config.toml, except in the import unit.", ["returned values and text, import result"])
P("P23", "Class, version and logical name decide what an object is",
  "For each class identifier, version and logical name, the kind of object created is the one the COSEM class list and its reserved logical names give: the class and version asked for, with value types and fixed variants where the standard (or the national profile) reserves the name, and a refusal with an exception where the class does not exist, does not have that version or may not carry that name. The result depends on nothing else: not on other collections, earlier look-ups or the order of creation. An object added without a version gets that of the first object of its class in the collection, and is refused if there is none.",
  "inputs", "every known class and version and unknown neighbours, all 256 values of group C, all values of E for every reserved row, B, F and the manufacturer ranges, directly and through a collection",
  "Tests create a few well-known objects; the reserved names are ranges over five value groups.",
  "cosem_interface_classes/collection.py", [("lookup tables", S + "cosem_interface_classes/collection.py: get_interface_class, get_type, func_maps"), ("ranges of value groups", S + "cosem_interface_classes/collection.py: get_func_map")],
  "Oracle: mc/ref23.py, the tables written out again by value group.", ["class, version, value type of the created object, or exception"])
P("P24", "A collection is a map from logical names to objects",
  "A collection holds exactly one object per logical name, in order of addition: adding under a present name replaces it, adding only if missing leaves it, removing takes exactly that object away (the logical device name stays). Looking up by any value that names an object (octets, text, name, attribute or method descriptor, capture object, value definition, action item) finds that object, or refuses when it is absent; iteration, length, queries by class, version, name list and the named accessors always reflect the objects now present. Identification values (country, manufacturer, server type and version, specification) once given are kept, and a different second value is refused. Copying values from another collection gives every object present the values the other has, and tells whether all its objects were present. Objects may be added and removed while the values are walked through.",
  "histories inputs", "all histories of up to 3 (thorough 4) of 31 operations over 7 names; in every state 9 kinds of keys x 8 names and all queries, also with every question asked before each operation; 5 names with every name that differs in one group, in both orders; the phases of all pairs of electricity objects; 26 named accessors; values copied between collections of all orders of up to 3 of 5 objects, and onto values of 12 types; all histories of 3 (thorough 5) of 27 identification assignments",
  "Tests add a few objects and look one up; staleness and replacement are statements about histories.",
  "cosem_interface_classes/collection.py", [("container operations and accessors", S + "cosem_interface_classes/collection.py: Collection")],
  "", ["objects by identity, order, exceptions"])
P("P25", "Access rights are answered as the object list says",
  "An association answers whether an attribute may be read or written and a method called exactly as the access mode in its object list says: no access, read, write, both, and the authenticated variants only when the security policy authenticates (for methods with authenticated access the mechanism in force decides). Objects, attributes and methods not listed are refused with an exception. The answer follows the object list of the association asked, at the moment of asking: after a list is replaced, or when another collection holds an equal association with other rights, no earlier answer is given again.",
  "inputs histories", "every access mode of both versions x every security policy (4 + 256) x both ways of asking; attribute and method indices over the signed octet; names that differ in one group; histories of list replacements over two collections and two associations",
  "The tests never ask about access rights; caching makes answers depend on history.",
  "cosem_interface_classes/association_ln/ver0.py cosem_interface_classes/association_ln/ver1.py cosem_interface_classes/collection.py",
  [("access decisions", S + "cosem_interface_classes/association_ln/ver0.py: ObjectListType, AssociationLN.is_readable"), ("questions to a collection", S + "cosem_interface_classes/collection.py: Collection.is_readable")],
  "", ["booleans answered, exceptions"])
P("P26", "COSEM objects have the attributes and methods of their class",
  "Every object has exactly the attributes and methods its class and version define, under the right number and name, and its attribute and method descriptors name class, object and number. A value of the attribute's data type is stored octet for octet and changes no other attribute (but those the class ties to it: thresholds to the monitored value, permission bits to the actions, the secret to the mechanism); anything else is refused and nothing changes; an attribute with a choice of types keeps its type until cleared. The value of a register always carries the scaler and unit of that register, and a text typed for it is in this unit. Numbers that do not exist are refused. A new object starts with the values its class gives it, all else empty. Copies share nothing with their source. The list of objects of an association can be asked for whole, by classes, by objects or for one object, and only the descriptor of that attribute carries the selection in force.",
  "inputs histories", "36 class versions: all pairs of sample values of every attribute, all foreign data types, all numbers -20..23; histories of assignments, refusals, clearing and resetting of depth 2 to 4 by size of the class (thorough 3 to 5), of scaler and value up to 5 (6); copies changed attribute by attribute on either side; selectors -1 to 300 with lists of up to 3 classes or objects",
  "Tests set a few attributes of a few classes.",
  "cosem_interface_classes/cosem_interface_class.py cosem_interface_classes/register.py cosem_interface_classes/limiter.py types/choices.py",
  [("attribute container", S + "cosem_interface_classes/cosem_interface_class.py: COSEMInterfaceClasses"), ("scaler and unit", S + "cosem_interface_classes/register.py, demand_register/ver0.py"), ("dependent values", S + "types/choices.py: StructureMixin")],
  "Oracle: mc/ref26.py, the class tables written from the Blue Book. Profile buffers and capture objects have their own property.", ["encodings of all attributes, descriptors, exceptions"])
P("P28", "Every logical name belongs to the group the OBIS tables give",
  "The medium of a logical name is what value group A says (heat and cooling are one medium, cold and hot water are one; unnamed values are reserved, and compare by number). The group of a logical name is the one whose row in the OBIS tables contains its value groups B to F, whatever the order of questions and also after a name object was changed; a name of a known medium that is in no row belongs to the medium as such, and all other media give the one group of other media. No logical name makes the question fail.",
  "inputs", "all A; 8 media x all C in the tables and 0..127 x all D x boundary values (thorough: all) of E and boundary values of F in the rows of that C; all combinations of the boundary values of A, C, D, E, F of the whole medium",
  "No test asks for a group; the tables span six value groups with nested ranges.",
  "cosem_interface_classes/collection.py obis/media_id.py", [("nested range conditions", S + "cosem_interface_classes/collection.py: get_relation_group"), ("equality and hash of media", S + "obis/media_id.py: MediaId")],
  "Oracle: mc/ref28.py, the tables written out row by row; cells the tables leave open are not judged.", ["group and medium, equality, hash"])
P("P27", "Queries over many objects lose, invent and confuse none",
  "Sorting objects by logical name, name, class or several of these gives every object once, in that order, ties as they were. Grouping gives nested branches whose leaves hold each object exactly once, under its own medium, group and class, in the given order. Filtering keeps exactly the objects that match each kind of key given (class, medium, group, pattern; one of several of a kind), in order; a pattern matches exactly the logical names it describes, and a wrong pattern is refused. The objects of an association are those in its object list, in order; the tree of attributes has exactly the attributes left by the filters on name, reading and writing, and no empty branches; the writable attributes are those some list gives write access to. The given lists are not changed.",
  "inputs", "all orders of up to 5 of 9 objects x 11 sortings; all sets of up to 5 of 14 objects x 13 groupings; all sequences of up to 3 of 20 filter keys over 16 objects; 13 pattern elements in every group and pair of groups x all values; object lists of up to 3 of 6 objects x 9 access patterns x 1 344 tree, sort, filter and attribute modes; all pairs of 15 associations",
  "Tests print a few trees without looking at them.",
  "cosem_interface_classes/collection.py", [("grouping, sorting, filtering", S + "cosem_interface_classes/collection.py: get_object_tree, get_sorted, get_filtered, LNPattern"), ("attributes of an association", S + "cosem_interface_classes/collection.py: Collection.get_attr_tree, get_writable_attr")],
  "Grouping puts the last letter of the mode outermost, as the library does.", ["the returned lists and trees, exceptions"])
P("P30", "Profile buffers have exactly the columns captured and selected",
  "After its sort object is known, a profile takes a list of capture objects, adds those missing to the collection, and from then on its buffer accepts exactly rows with one value for each captured attribute or part of a structure, in order and of its type, restricted to the columns selected by entry or by range (a range has values of the type of the sort object, whichever column that is); stored rows are octet for octet those given. A refused row or list changes nothing; a new list empties the buffer. The descriptor with selection encodes the selection in force; buffer objects, names and scalers (own, or from the scaler profile of the national standard) are those of the columns, in order. A display readout profile does the same with one Boolean per column.",
  "histories inputs", "all histories of up to 4 (thorough 6) of about 30 operations: sort object, 8 capture lists, 7 selections, fixing a column's type, 9 kinds of buffer; every attribute of 36 class versions and each part of its structures as a column; nested profiles; 40 column lists x 8 selections x scalers",
  "The tests fill one profile once; types of rows depend on the history of capture lists, selections and other objects.",
  "cosem_interface_classes/profile_generic/ver1.py cosem_interface_classes/implementations/profile_generic.py cosem_interface_classes/collection.py types/useful_types.py",
  [("row type from capture objects", S + "cosem_interface_classes/profile_generic/ver1.py: ProfileGeneric.__create_buffer_struct_type"), ("types and names of columns", S + "cosem_interface_classes/collection.py: Collection.get_name_and_type"), ("scalers", S + "cosem_interface_classes/profile_generic/ver1.py: get_scaler_units_profile")],
  "Null-data in place of a value is not stated, nor a second assignment of the sort object. A refused list may leave objects it names in the collection.", ["encodings, descriptors, objects, names, scalers, exceptions"])
P("P29", "Type files and copies give back the same meter",
  "Saving a collection as a type file and opening it again gives the same identification (country, manufacturer, server type, versions, specification) and the same objects, classes and versions; each static attribute that an association (other than the current one) lets be read but not written comes back octet for octet, whatever its value. Attributes given later, values measured and secrets are not part of the file, and a choice keeps its type only. A copy of a collection equals it - objects of the association with the longest list, classes, attribute values - and sharing nothing: a change on one side is never seen on the other. The collection of a meter taken from the library is such a copy of the type of its version, or of the nearest one. An older (3.x) document is read attribute by attribute whatever their order; a type an attribute's class does not allow is taken only where the document insists on it, and then with its value by default; a document of another kind or version is refused.",
  "inputs histories", "every sample value of every attribute of 36 class versions alone and with access rights of one to three associations; sets of object lists over four associations; rights of one attribute given by any two or three associations; limiters and registers waiting for each other in every order; all pairs of identification values; every pair of dependent attributes in both orders; histories of up to 3 changes of source and copy; histories of up to 3 (thorough 4) steps of taking collections out of a library of 7 types and changing them; values of up to 260 elements in types and copies; wrong roots and versions",
  "The tests save one type and never compare; what is kept depends on the rights given by every association.",
  "cosem_interface_classes/collection.py cosem_interface_classes/cosem_interface_class.py",
  [("what is saved", S + "cosem_interface_classes/collection.py: Collection.save_type"), ("reading a type", S + "cosem_interface_classes/collection.py: Collection.from_xml"), ("copying", S + "cosem_interface_classes/collection.py: Collection.copy")],
  "Conditions: every association lists itself and its list can be read; the file is in a scratch folder.", ["identification, classes, encodings of all attributes"])
P("P31", "Templates and settings bring values back to meters of their type",
  "A template written from collections of several types and versions holds, for each used attribute, the value set, and reading it gives collections of exactly those types with these values (and every other attribute as in the type), the same used attributes and the verified mark; the arguments are not changed. Writing is refused, and leaves no file, when a used attribute has no value anywhere. Saving settings writes just the static attributes the association may write and that differ from the type (an empty list is no setting), says whether there are any, and reading them into a new collection of the type gives these values and no others. Any text - markup characters, spaces, other alphabets, empty - comes back unchanged. Types in the library are never changed by any of this.",
  "inputs", "every pair of a value in the type and a value written for every attribute whose type the class decides, of 33 class versions; all texts of up to 3 (thorough 4) of 11 pieces; up to 3 collections of 3 types in 3 versions x 23 sets of used attributes x missing values; 16 tables of rights x 2 associations x all sets of 5 changes; settings named and read per server version; lists of 0 to 400 elements and nested shapes",
  "The tests write one template; what is kept depends on value, type, rights and the other collections.",
  "cosem_interface_classes/collection.py types/common_data_types.py",
  [("templates", S + "cosem_interface_classes/collection.py: to_xml4, from_xml4"), ("settings", S + "cosem_interface_classes/collection.py: Collection.to_xml2, Collection.from_xml2"), ("values as text", S + "types/common_data_types.py: ToString, from_text")],
  "Texts do not keep the clock status, control characters, nor the member types of values whose type the class leaves open; these are not judged.", ["encodings of all attributes, used attributes, file present or not"])
P("P32", "The calendar in force follows from seasons, weeks, days and special days",
  "At any moment the current season of an activity calendar is the one whose most recent start is latest (starts without deviation are local time), the current week is the week profile it names, the current day is the day id of the special day matching the date (exact, yearly, by weekday, last or second last day of the month), else that of the week for the weekday, the current action is the one with the latest start not after the time, and the current rate is its script selector; where nothing qualifies an exception says so. Validation accepts a calendar, active or passive, exactly if names and ids are unique and every reference exists. New seasons, weeks, days and special days get a free name, id or index and existing references; duplicate special-day indexes are refused; deletion accepts only present indexes. A clock's current time is the shown time plus the time elapsed; one look at the clock is enough for one answer.",
  "inputs histories", "seasons of up to 3 starts from 14 patterns (wildcards, deviations) x 40 moments; all weekdays x weeks; special days of 12 date patterns x dates over leap and common years; actions of up to 3 starts x times; all calendars of small tables with names and ids from 3 values; histories of additions to depth 4",
  "Which season or day is in force depends on wildcards, leap years, zones and absent references in combination; the tests do not evaluate calendars at all.",
  "cosem_interface_classes/activity_calendar.py cosem_interface_classes/special_days_table.py cosem_interface_classes/clock.py cosem_interface_classes/schedule.py",
  [("choice of season and day", S + "cosem_interface_classes/activity_calendar.py: get_current_season, get_current_day, get_current_action"), ("validation", S + "cosem_interface_classes/activity_calendar.py: validate"), ("new elements", S + "cosem_interface_classes/activity_calendar.py: new_element")],
  "Ties between equal starts and starts outside years 1 to 9999 are not judged.", ["get_current_* results, exceptions, validate(), tables after new_element"])
P("P33", "What is shown of a meter's values is those values",
  "In whatever order value and scaler_unit of a register are read, its value is shown as the exact decimal raw x 10^(scaler - unit prefix) followed by the unit, copies show the same, and encoding the shown text gives back the value, leaving the object unchanged. Event objects of the national standard show the text of their own journal for the code, with the code, and never such a text for unlisted codes; network quality words show exactly one condition per set bit. Seal states, signal quality in dBm, and channel and interface of the port are shown for every octet; setting a channel or interface changes only its own bits. A report of chosen attributes of any object lists every value in them, once and in order, each element under its name and indented under what contains it.",
  "inputs histories", "7 values x scalers -6..5 x 6 units x 4 reading orders, histories of reading and clearing to depth 4 (thorough 6); 9 journals x 2 tables x all codes below 2048 (thorough 65536); both 16-bit quality words; all 256 seal, signal and port octets x all channels and interfaces set; every attribute of every class, also with arrays of 40 elements; all ordered selections of 3 attributes",
  "Reports are built from shared tables, bit masks and units that arrive before or after the value; no test reads a report.",
  "types/common_data_types.py cosem_interface_classes/register.py cosem_interface_classes/events.py cosem_interface_classes/implementations/data.py cosem_interface_classes/gsm_diagnostic/ver0.py cosem_interface_classes/reports.py",
  [("scaled text", S + "types/common_data_types.py: Digital.__str__, Digital.copy"), ("event tables", S + "cosem_interface_classes/events.py"), ("report traversal", S + "cosem_interface_classes/reports.py: get_obj_report")],
  "Whether a cleared scaler_unit is forgotten at once and element names of an attribute that is itself a structure are not judged. Texts are those of config.toml and Values.", ["report, get_report(), get_obj_report(), encode()"])
P("P34", "The display name of an object follows from its logical name alone",
  "Every logical name has a display name, never an exception: groups A, C, D and E select the name by the national table of objects (for electricity: phase, quantity, processing, tariff or harmonic), a non-zero channel in group B or instance in group E is shown with its number (for objects named per channel or instance), group F takes no part, and a name or part of it that is not in the tables is shown as unknown. Asking again, in any order, or after a logical name was changed gives the name of the present logical name. An object as text is its logical name and its display name.",
  "inputs", "group A 0: every table row and its neighbours x all E of the row x 11 channels, all 256 C; group A 1: all C to 99 with all D (others with 12 D), all E for the main quantities and processings, 20 E for the rest; other media: all C x 5 D x 3 E; repeated and changed questions",
  "One test asks for one name; ranges of groups, tariffs, harmonics and phases are statements about all of them.",
  "relation_to_OBIS.py cosem_interface_classes/cosem_interface_class.py", [("tables", S + "relation_to_OBIS.py: get_name, get_processing_names, get_obj_names"), ("ranges of B and E", S + "relation_to_OBIS.py: handle_B, handle_E, get_rate, get_harmonics_name")],
  "Blanks and punctuation are not judged, nor is how tariffs 64 to 127 (reserved by the Blue Book) are called.", ["get_name(), str(object)"])
P("P35", "The blocks of an image sent to the meter are the image, in order",
  "After an image is set, the parameter of the initiation carries its identifier and its exact size, and the parameters of the block transfers, from the first to the last, carry the numbers 0, 1, 2 ... and the octets of the image cut by the block size, the last possibly shorter; behind the last block there is no next one. Asking for a block gives that block; a number outside the image is refused and changes nothing. Setting an image under a new identifier starts at block 0; under the same identifier it goes on at the current block or the one before it, or at 0 if there is no such block; what is to be sent is always a block of the image set last. Count of blocks, current block and part sent agree. Clearing forgets the blocks. A block size of 0 is refused.",
  "histories inputs", "images of 17 lengths (thorough: all to 299) x 10 block sizes x 4 identifiers to the end, and images of equal or repeating blocks, every block asked for; images set again at every block; images of 65536 and 65539 blocks; all histories of 4 images under 2 identifiers, next, chosen blocks, clearing and two block sizes to depth 5 (thorough 8)",
  "Not tested at all; resuming depends on the history of images, identifiers and blocks.",
  "cosem_interface_classes/image_transfer/ver0.py", [("cutting and resuming", S + "cosem_interface_classes/image_transfer/ver0.py: set_image_for_update"), ("next block", S + "cosem_interface_classes/image_transfer/ver0.py: set_next_block, set_block_for_transfer")],
  "An empty image is not judged.", ["encodings of the method parameters, counts, exceptions"])
P("P36", "Negotiated HDLC parameters are taken over whole or not at all",
  "After an answer to the connection request, the HDLC setup object holds the window sizes and information field lengths the answer names, in whatever order and width; those it does not name stay as they are; an answer without any parameter sets the standard defaults (window 1, length 128). A parameter is offered in the next request exactly when it differs from the default. An answer with a wrong header or length, an unknown parameter, a cut or a too large value is refused, and then no parameter has changed. No other attribute is touched.",
  "inputs histories", "every order and subset of the four parameters with 4 to 7 values in 1, 2 or 4 octets; information lengths 32..2030; pairs of answers; the answer without parameters from 900 states; four answers cut at each octet, extended, with foreign identifiers, headers, lengths and values; all device addresses (quick: each 13th)",
  "Not tested; whole or not at all is a statement about every malformed answer.",
  "cosem_interface_classes/iec_hdlc_setup/ver1.py", [("parameters of the answer", S + "cosem_interface_classes/iec_hdlc_setup/ver1.py: set_from_info"), ("defaults", S + "cosem_interface_classes/iec_hdlc_setup/ver1.py: A_ELEMENTS")],
  "", ["encodings of all attributes, window_*, max_info_*, exceptions"])
P("P37", "Scripts, actions and versions lead to what they name",
  "The names of a script selector are those of the actions of the first script with that selector in its table, in order; a selector, table, object, class, attribute, method or parameter that does not exist is refused. Whenever the actions of an arbitrator are set, every permission row gets as many bits as there are actions, rows of that length keep their bits. Reading a firmware version asks for an update exactly when it is newer than the newest one known for its type and channel. A measurement period is one of 1, 2, 3, 5, 10, 15, 20, 30, 60 minutes. The version of the national specification is two numbers, not both 0; the manufacturer is the first three octets of the device name, and a device of another manufacturer than the one already known is refused. What is refused changes nothing.",
  "inputs", "tables of up to 3 scripts (equal identifiers too) with up to 3 of 16 actions, 9 of them wrong, and of up to 33 scripts and 127 actions; histories of arbitrator tables to depth 4 (thorough 7); versions around every known one on each channel; all period values; specification texts of up to 4 (thorough 5) of 6 pieces; pairs of 5 device names",
  "A selector is resolved through table, collection and class descriptions; the tests never do.",
  "cosem_interface_classes/arbitrator.py cosem_interface_classes/collection.py cosem_interface_classes/implementations/data.py",
  [("names of scripts", S + "cosem_interface_classes/collection.py: Collection.get_script_names"), ("permission rows", S + "cosem_interface_classes/arbitrator.py"), ("versions and periods", S + "cosem_interface_classes/implementations/data.py")],
  "", ["names, tables, exceptions, identification of the collection"])
P("P38", "Text typed for a value is judged without changing the value",
  "Judging a text while it is typed never changes the value being edited. A text that denotes a value is accepted with the cursor anywhere in it, the text given back denotes the same value, and the cursor given back lies inside it. Digits typed over the placeholders of a date or time are kept, in order and with no open place inside a number. The text given back for a logical name itself names something. Any value of an integer, floating point, octet string, bit string, Boolean, enumeration, date, time or logical name type can be typed character by character from its text.",
  "inputs", "26 kinds of values: all texts of up to 5 (thorough 6) of 6 to 10 characters, the cursor at the end (texts up to 3: anywhere); the texts of 72 values typed character by character and with one character more or less, the cursor at the change; dates, times and their combination with each field left a '_' placeholder or each separator missing, the cursor at every place; numbers with a scaler at every limit",
  "Not tested; acceptance of a prefix depends on every character before and after the cursor.",
  "types/common_data_types.py types/cosem_service_types.py types/implementations/bitstrings.py",
  [("judging text", S + "types/common_data_types.py: validate_from")],
  "A separator typed without the weekday is not completed by the code; those texts are judged only for not changing the value.", ["result of validate_from, encoding before and after"])
P("P39", "Documents of every version give each attribute its value",
  "Reading settings of document version 2.0-2.2, 3.1, 3.2 or 4.0 gives each listed attribute of an object exactly the value listed, in whatever order attributes and objects come, including objects whose types depend on others (2.x); every other attribute and object stays as it was, and reading again changes nothing. An attribute with a wrong number, value, type or text is left out and harms no other. An object the collection lacks is added with its class and version (2.x; without a version, that of another object of the class), passed over (3.x) or makes the document refused (4.0). In a 2.x document an attribute of which only the type is given gets the type where the class leaves it open. A template for one type gives a collection of this type with these values, from octets or from text, and the attributes used; the type itself stays as it is. A document with another root or version or a wrong attribute index is refused. The head of a document gives the collection exactly the protocol version, country with its specification, manufacturer, server type and version it names; a part not given stays unset, one that contradicts the collection makes the document refused.",
  "inputs", "every sample value of every attribute of 36 class versions x 6 document versions x object present or not x value or type; all orders of up to 3 (thorough 4) of 4 good and 11 wrong attributes, under either element name; values kept where only a type is given; any of 5 objects present, any sequence of up to 3 (thorough 5) of them listed; all orders of up to 4 (thorough 5) objects that refer to each other; templates with good and wrong attributes of two objects; 14 versions x 4 roots; 729 heads x 5 forms of document",
  "Tests read one file per version at most and do not look at what came out.",
  "cosem_interface_classes/collection.py",
  [("settings", S + "cosem_interface_classes/collection.py: Collection.from_xml2"), ("templates of one type", S + "cosem_interface_classes/collection.py: Collection.from_xml3"), ("saving all values", S + "cosem_interface_classes/collection.py: Collection.to_xml")],
  "Texts of dates without clock status, of the clock status and of the output state are not judged.", ["encodings of all attributes, classes, used attributes, exceptions"])
P("P40", "Associations name, address and keep their secrets as the standard says",
  "The application context and the authentication mechanism of an association keep the seven arcs they are given, as a structure or as the octets of the object identifier (X.690: first two arcs in one octet, base 128, most significant first), and are encoded in the same form; the name sent for a mechanism is 2.16.756.5.8.c.a. An identifier cut short or with arcs too many is refused. Mechanism constants cannot be changed. An association e has client address 16*e (1 to 4; 16 beyond) until another is set; the link address of a client is twice its address plus one. The secret exists once the mechanism is known and then has 16 octets for a high one (a secret cleared by hand is open again). A secret is shown as hexadecimal or as text and typing what is shown gives it back; hidden, only stars of the same extent are shown. The first protocol version read becomes the collection's, another one is refused. Parameters of methods belong to one association.",
  "inputs histories", "object identifiers: each arc and each pair of arcs at the boundaries of one, two and three octets (thorough: 71,000 more), every cut; 80 mechanism names; secrets of 0 to 33 octets for 8 mechanisms; 13 secrets under all sequences of up to 3 representations; histories of up to 4 (thorough 5) protocol versions over three associations, of up to 3 method parameters over two",
  "Tests construct one name with the usual arcs; larger arcs, cuts and histories do not occur.",
  "cosem_interface_classes/association_ln/ver0.py cosem_interface_classes/association_ln/ver1.py cosem_interface_classes/association_ln/authentication_mechanism_name.py cosem_interface_classes/association_ln/mechanism_id.py types/common_data_types.py",
  [("object identifiers", S + "types/common_data_types.py: AXDR, Structure.get_a_xdr"), ("secrets", S + "cosem_interface_classes/association_ln/ver0.py: LLCSecret"), ("protocol version", S + "cosem_interface_classes/collection.py: Collection.set_dlms_ver")],
  "First arc 0 to 2, second below 40; secrets in ASCII where text is compared.", ["values, encodings, texts, exceptions"])
P("P41", "Schedule indexes, clock status and disconnect transitions are told rightly",
  "After any history of setting, emptying, extending and shortening the table of a schedule, the table, each of its entries and each parameter of its methods know exactly the indexes now in the table; an index is free for insertion exactly if it is 1 to 9999 and not among them; an entry already present, and a table with one entry twice, is refused; a second schedule has indexes of its own. Entries and ranges to delete have indexes 1 to 9999; a range to enable or disable may also name the indexes above, for no entry. The clock status names exactly the conditions whose bit is set (0 invalid, 1 doubtful, 2 other clock base, 3 invalid status, 7 daylight saving). Each control mode of a disconnect control has the transitions of the standard (and always the remote disconnections), no other mode exists but the known proprietary ones; control states are 0 to 2; an output is off exactly if its octet is 0.",
  "histories inputs", "all histories of up to 4 (thorough 6) of some 20 operations on the table, alone and beside a second schedule; all 65536 indexes; all 256 states, modes, states of the clock and of the control",
  "Tests never change the table of a schedule, nor read one mode or status.",
  "cosem_interface_classes/schedule.py cosem_interface_classes/clock.py cosem_interface_classes/disconnect_control.py",
  [("indexes offered", S + "cosem_interface_classes/schedule.py: Schedule"), ("clock status", S + "cosem_interface_classes/clock.py: ClockStatus"), ("transitions", S + "cosem_interface_classes/disconnect_control.py: ControlMode.get_letters")],
  "Entries are told apart by encoding; two different entries with one index are not asked about.", ["indexes", "texts", "letters", "exceptions"])
P("P42", "Codes, conformance bits and error names are those of the standard",
  "Each code of the application layer's enumerations (APDU tags with their ciphered forms, request and response choices, results, errors, diagnostics, access modes, security policies) has the name of the standard and no other code has one. Each of the 24 conformance bits has its place in the block, in the enumeration and in the bit string of an association: a set of them gives the octets of the standard and is read back from them; another number of bits is refused. Interfaces, channels and contexts are found by exactly their names; an address length is automatic, 1, 2 or 4 and its text gives it back. Errors have texts of their own, and only OK is no error; a result or version error carries its cause.",
  "inputs", "all 256 codes of 20 enumerations; all sets of up to 3 (thorough 4) and all but up to 3 of 24 conformance bits; names of 3 enumerations and texts near them; lengths -2 to 300, all texts of up to 3 of 10 characters; all errors",
  "Tests use a handful of these codes and no conformance block.",
  "pdu_enums.py enums.py exceptions.py hdlc/frame.py types/implementations/bitstrings.py version.py",
  [("codes", S + "pdu_enums.py"), ("conformance", S + "enums.py: Conformance"), ("texts", S + "hdlc/frame.py: AddressLength")],
  "The tables of the standard are written in the check, in the spelling of the package.", ["codes", "octets", "names", "exceptions"])
P("P43", "Attributes, methods and elements are reached by their names",
  "Each attribute and method of each class version and implementation reached by its name is the one at the index the standard gives it, before and after any other attribute has been given a value (which may change types) and after it was cleared; listings give every attribute and method once with its index; no element exists beyond the last. Each element of each structure reached by its name is the one at the place the standard gives it, whether the structure was made from nothing, from octets, from elements or from another structure; a structure's octets are those of its elements in this order, and changing one element through its name changes the octets of that element only.",
  "inputs", "all classes and implementations x every attribute x every sample value; all structures x four ways to make them x every element",
  "Tests use a few names; a name at the wrong index gives a value that looks right.",
  "cosem_interface_classes/cosem_interface_class.py cosem_interface_classes types/common_data_types.py",
  [("names of attributes", S + "cosem_interface_classes/cosem_interface_class.py: COSEMInterfaceClasses"), ("elements of structures", S + "types/common_data_types.py: Structure")],
  "Order of elements after the Blue Book, written in the check for the structures listed there.", ["identity of values, encodings, indexes"])
P("P44", "Data of a chosen type have exactly the type chosen",
  "A choice of attribute types knows exactly its tags: by tag it gives the type of that tag with its value by default, by encoding the same type with those octets; any other tag, alone or leading octets, is refused unless the user forces it, and then the type of the tag is given. An octet string offered as a date is a date and time, a date or a time by its length and nothing else. In a structure whose first element chooses the type of the second (restrictions of a push object, key information of its protection, identification of a certificate) the two agree after every history of assignments and copies: the octets are those assigned, the type is never changed alone, a value of another type, a type that does not exist and a wrong number of elements are refused, a copy shares nothing.",
  "histories inputs", "8 choices x 256 tags, by tag and by encoding, forced and not; octet strings of 0 to 15 octets; all histories of up to 3 (thorough 5) assignments and copies of three structures, every encoding cut short",
  "Tests read two of these types; what happens on the second assignment, or for a tag outside the choice, is not asked.",
  "types/choices.py types/useful_types.py cosem_interface_classes/push_setup/ver2.py cosem_interface_classes/security_setup/ver1.py",
  [("choices", S + "types/useful_types.py: CHOICE"), ("key information", S + "cosem_interface_classes/push_setup/ver2.py: KeyInfoElement"), ("certificates", S + "cosem_interface_classes/security_setup/ver1.py: CertificateIdentification")],
  "Structures and compact arrays have no default value: only their encodings are read.", ["types", "encodings", "exceptions"])
P("P45", "Looking at a meter changes nothing, and meters share nothing",
  "Questions put to an object or a collection - attributes, methods, elements, descriptors, named accessors, lists by class, client and association, rights, trees, sorting, filters, names, reports, texts, built-in values, copies - leave every value, object and identification as they were, and each answer is what it would be had no other question been asked before. Whatever is done to one meter (attributes set, cleared, extended or altered inside, methods' parameters set, objects added and removed, versions given, a copy made and changed), another meter, one made afterwards, the tables of attributes and the values a type has by default stay what they are. Lists, dictionaries and values handed out may be emptied or altered by their holder, and the meter they came from does not notice; nor does a value made from another notice changes to that one.",
  "histories inputs", "all sequences of up to 3 (thorough 4) operations on an object of each of 30 classes and on a collection of 35 objects, with a second and a third meter watched; every ordered pair of about 60 questions per object x 5 states and of 77 per collection",
  "Tests use one meter each and ask each thing once; a shared list or an answer remembered is seen only by the second meter or the second question.",
  "cosem_interface_classes/collection.py cosem_interface_classes/cosem_interface_class.py cosem_interface_classes types/common_data_types.py",
  [("objects", S + "cosem_interface_classes/cosem_interface_class.py: COSEMInterfaceClasses"), ("collections", S + "cosem_interface_classes/collection.py: Collection"), ("values", S + "types/common_data_types.py: Structure, Array")],
  "Time of day and the iterator over methods are not asked. An object of a list is the object itself, not a copy. A setup of push objects (class 40) is not among the classes.", ["answers", "encodings of all attributes", "identification"])
