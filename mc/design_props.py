"""method of each check, for DESIGN.md"""
D = {
"P01": "`bfs` over ByteBuffer histories; the reference is (list of octets, position, read-only). Every operation is tried in every reachable state, also with positions -1, 0, inside, at the end and behind it; after each, result, position and the whole content are compared.",
"P02": "`all`: values are put at several positions of a larger buffer filled with a pattern; the reference encoder (in the check) gives the octets, everything outside the window must keep the pattern; then get() must give the value, kind, tag and position back. Every proper prefix must be refused.",
"P03": "`all` over values of each type; the oracle is an independent A-XDR encoder; decoding is repeated with tails and every cut.",
"P04": "`all` over trees of values built by the reference encoder `mc/ref.py`, decoded by the code, compared as octets, as Python value and in what is left over; length octets in all longer forms.",
"P05": "`all`: differential acceptance - the independent parser of `mc/ref.py` and the code must agree on accept/refuse and on the value for every octet string of the space.",
"P06": "`bfs` over set / refused set / veto / callback registration / copy histories; the reference keeps value and the expected callback log.",
"P07": "`all` over values x scalers x units; the oracle computes in Python integers and `decimal`/`Fraction`.",
"P08": "`all` over field combinations; the validity oracle uses `datetime.date` and the Blue Book's field ranges; conversions are compared with values built from the fields.",
"P09": "`all` over patterns and points; `mc/refdate.py` looks at every day of 40 years (brute force).",
"P10": "`all` over bit patterns and neighbours; the oracle rounds exact rationals (`fractions`), independent of `struct`.",
"P11": "`bfs` against a Python list to the fixpoint of contents (element count bounded); element type changes are operations.",
"P12": "`bfs` over bit operations to the fixpoint, `all` over codes, characters and words; assigned codes are written out in the check.",
"P13": "`all` over addresses and controls; the oracle `mc/hd.py` is an independent ISO 13239 encoder with its own CRC table; the frame is also received back.",
"P14": "`all` over error patterns applied to seven frames: the receiver may deliver nothing, or - where the damage happens to be outside what carries information - the same contents, never other contents.",
"P15": "`all` over scripts of stream pieces x chunkings (the schedules): after each arrival the receiver takes frames until the buffer no longer changes; delivered frames and rest must be those of the script.",
"P16": "`all` over sequences of received frames; the reference walks the queue by send number.",
"P17": "`all` 256 control octets and all pairs of information frames; arithmetic modulo 8 in the check.",
"P18": "`bfs` over assignments and good/bad answers; independent reader/writer of the information field.",
"P19": "`all` headers with each octet in each place.",
"P20": "`all` pairs and triples of versions, all small sets of variants, libraries made as scratch directories.",
"P21": "`all` lengths, changes and cuts; the container is built by the check.",
"P22": "`all` short texts over the alphabet that matters ($, key letters), all key paths; imports in new processes with three configurations.",
"P23": "`all` logical names of the row ranges; `mc/ref23.py` writes the tables out again by value group.",
"P24": "`bfs` over histories of add / add-if-missing / remove / identification; in every state every kind of key x name and every query is asked.",
"P25": "`all` modes x policies, `bfs` over replacements of object lists in two collections (stale answers).",
"P26": "`all` over the table of classes (`mc/ref26.py`, by hand from the Blue Book), values of every attribute and method, `bfs` over set / clear / copy / link histories.",
"P27": "`all` orders, subsets and filter keys; oracles are `sorted`, set partitions and an own pattern matcher.",
"P28": "`all` value groups A, C, D, E with boundary B and F; `mc/ref28.py` one row per table, first row wins.",
"P29": "`all` attributes and rights, orders of objects; `bfs` over changes on either side of a copy. The file written is read by the code and compared with what was set.",
"P30": "`bfs` over sort object / capture list / selection / buffer histories; the reference computes the row type from the columns.",
"P31": "`all` pairs of (value in the type, value written), texts, collections, rights tables; libraries of type files are built in scratch.",
"P32": "`all` seasons, days, actions against tables read directly; `bfs` over new elements; day patterns checked against `datetime` over leap and common years.",
"P33": "`all` values x scalers x units x orders, all codes, all flags; `bfs` over reading and clearing.",
"P34": "`all` logical names; `mc/ref34.py` the naming tables.",
"P35": "`bfs` over image histories; `all` lengths x block sizes to the end.",
"P36": "`all` orders and subsets of parameters; refused answers compared before/after.",
"P37": "`all` tables of scripts and versions; `bfs` over arbitrator tables.",
"P38": "`all` texts up to a length x cursor; the meaning of a text is what set() of a copy makes of it.",
"P39": "`all` documents: attributes x versions x form, orders of good and wrong attributes, orders of dependent objects, presence of objects; templates written by the code as octets and as text.",
"P40": "`all` object identifiers around the boundaries of base 128 against an encoder of eight lines; histories of representation, mechanism and protocol version.",
"P41": "`bfs` histories over the table of entries against a list of indexes; `all` indexes, states and modes.",
"P42": "`all` codes against tables of the standard; sets of conformance bits against a sum of powers of two.",
"P43": "`all` classes x attributes x values, structures x elements: the name and the index give the identical value.",
"P44": "`all` choices x tags against tables of the Blue Book; `bfs` histories of assignments to the led structures against (type, octets).",
"P45": "`bfs` over operations on one of two meters with the other, a third and a fresh one compared in every state; `all` ordered pairs of questions against the answer of a meter that was asked nothing else.",
}
