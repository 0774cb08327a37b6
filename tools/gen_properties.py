#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth, easier to edit than JSON lines)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
R = "src/rdata/"
P = []

def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["public API"], "hook_needed": None}})

p("C01", "No input makes decoding crash, hang or exhaust memory",
  "For every byte string, decoding a message from it, or decoding a single question, record, name, header or record data value of any supported type starting at any position, ends with a value or an error: it never panics, never loops forever and never uses memory out of proportion to the input. Everything a caller can do with a value that was accepted (read its fields, print, clone and compare it, ask for its size, serialise it with or without compression) does not panic either.",
  ["inputs"], "all byte strings (random, mutated valid messages, hostile pointer graphs, lying length fields), all entry points, all start positions, with overflow checks on",
  "Tests decode a dozen well-formed samples; no test feeds a malformed or truncated message, a pointer loop or a lying length field.",
  ["src/buffer.rs", "src/packet.rs", "src/header.rs", "src/question.rs", "src/resource.rs", "src/rdata/"],
  [("bounds-checked cursor", "src/buffer.rs DnsBuffer"), ("name decompression bounds", "src/buffer.rs extract_fqdn"), ("RDLENGTH sub buffer", "src/resource.rs TryFrom<&mut DnsBuffer>")])

p("C02", "Plain serialisation round-trips",
  "Every message that can be assembled from valid values (any header flags, questions, and records of every supported type in any section) serialises without compression to bytes that decode to an equal message: same header, same questions, same records with the same data, in the same sections and the same order. The same holds for each question, record, name and record data value on its own.",
  ["inputs"], "all messages of valid parts: names of labels of 1-63 arbitrary octets up to 255 octets, all record types of the build, all integer values, text up to 255 octets, data up to 65535 octets",
  "Tests round-trip at most one hand-picked value for some record types; a field swapped or truncated only for particular lengths or values is not sampled.",
  ["src/packet.rs", "src/question.rs", "src/resource.rs", "src/fqdn.rs", "src/rdata/"],
  [("to_bytes / TryFrom pairs", "src/rdata/*.rs"), ("message assembly", "src/packet.rs")])

p("C03", "Compressed serialisation is equivalent, legal and not larger",
  "For every valid message the compressed serialisation decodes to exactly the same message as the plain one and is never longer, also when the message is larger than the range compression pointers can address. Every pointer in it refers to an earlier position in the message where a label of a name begins, pointers only occur in owner names, question names and names inside record types for which the library allows compression, and a name that was already written completely in such a place at an addressable position (also as the tail of a longer name) takes two octets.",
  ["inputs"], "all valid messages, in particular many names sharing suffixes, differing only in case or label boundaries, repeated names, and messages beyond 16383 octets",
  "Tests compress two small fixed packets; pointer arithmetic depends on the exact offsets of all earlier names, on the record type before, and on the 14 bit limit.",
  ["src/fqdn.rs", "src/packet.rs", "src/question.rs", "src/resource.rs", "src/util.rs", R+"mod.rs", R+"soa.rs", R+"srv.rs", R+"naptr.rs", R+"mx.rs", R+"minfo.rs", R+"dnssec.rs"],
  [("suffix table", "src/fqdn.rs to_bytes_compressed"), ("offset bookkeeping", "src/resource.rs, src/rdata/*.rs to_bytes_compressed")])

p("C04", "Reported sizes equal serialised lengths",
  "For every value that can be serialised (message, header, question, record, record set, name, type and class codes, and record data of every type) the reported binary size equals the number of octets its plain serialisation produces.",
  ["inputs"], "all constructed and all decoded values",
  "The trait documents the equality, tests assert it for a few values of a few types; the size is computed by separate arithmetic for each type.",
  ["src/byteconvertible.rs", "src/packet.rs", "src/resource.rs", "src/resource_record_set.rs", "src/fqdn.rs", "src/rdata/"],
  [("byte_size arithmetic", "src/rdata/*.rs byte_size")])

p("C05", "The encoder produces the standard wire format",
  "For every valid message the plain serialisation is, octet for octet, the DNS wire format of RFC 1035 and of the RFC of each record type: field order, widths, big-endian integers, length prefixes, lengths of record data, class and flag bits, and names without compression. Where the standard leaves the order of independent options open, any order is accepted.",
  ["inputs"], "all valid messages over all record types",
  "A round trip inside the library cannot notice an encoder and a decoder that are wrong in the same way; tests compare a few fixed byte strings.",
  ["src/packet.rs", "src/header.rs", "src/question.rs", "src/resource.rs", "src/fqdn.rs", "src/rdata/"],
  [("encoders", "to_bytes in src/**/*.rs")])

p("C06", "The decoder reads the standard wire format",
  "Every well-formed message in standard wire format, with its names written in any legal mixture of plain labels and compression pointers, decodes successfully and the resulting header fields, questions, records and record data fields are exactly the values that were encoded, for every supported record type.",
  ["inputs"], "all well-formed messages produced by an independent encoder with arbitrary legal compression (also in types the library itself does not compress), arbitrary header words with assigned response codes",
  "Tests decode a few captured packets; foreign encoders use pointers in places and field values the samples do not contain.",
  ["src/buffer.rs", "src/packet.rs", "src/header.rs", "src/question.rs", "src/resource.rs", "src/rdata/"],
  [("decoders", "TryFrom<&mut DnsBuffer> in src/**/*.rs")])

p("C07", "Re-serialising accepted input is lossless and stable",
  "Whatever bytes are accepted as a message, serialising the result (plain or compressed) yields bytes that are accepted again and decode to an equal message, so forwarding a message any number of times never changes its meaning. Serialising the re-decoded message gives the same bytes again. Read by the standard, the re-serialised bytes have the same id, flags, questions, records and data fields as the bytes received (the parts that C23 leaves open aside).",
  ["inputs", "histories"], "all byte strings the decoder accepts (valid, mutated, non-canonical encodings), repeated decode/encode cycles; expansions beyond what the format can represent are excluded",
  "Non-canonical but accepted encodings (odd pointers, reserved bits, unsorted parameters, duplicate entries) do not occur in the tests.",
  ["src/packet.rs", "src/header.rs", "src/question.rs", "src/resource.rs", "src/rdata/"],
  [("normalising decoders", "src/rdata/*.rs"), ("raw flag preservation", "src/header.rs")])

p("C08", "Editing a message keeps header counts and sections consistent",
  "After any sequence of adding, replacing, taking and mutating questions, answers, authority and additional records and of setting header fields, each section contains exactly what the sequence implies in insertion order, and operations on one section or header field never affect another one. The plain and the compressed serialisation carry section counts equal to the actual number of entries and decode to exactly those contents.",
  ["histories"], "all sequences of the message editing operations, starting from an empty message, a query, a reply, a query with questions or a decoded message",
  "Tests add one or two entries in a fixed order; counts are maintained separately by each operation.",
  ["src/packet.rs", "src/header.rs"],
  [("count maintenance", "src/packet.rs add_/set_/take_*"), ("count override on output", "src/packet.rs to_bytes, to_bytes_compressed")])

p("C09", "Header flags are independent, correctly placed and consistent",
  "Every header setting can be read back with the value written and occupies the bit position RFC 1035 assigns to it, and setting one leaves the id and all other flags as they were, except for the documented coupling: turning a message into a query clears recursion-available and the response code, and setting recursion-available or an error response code marks it as a response. Any header word with an assigned response code survives decoding and encoding bit for bit, including reserved bits and unassigned operation codes; an unassigned response code is rejected.",
  ["inputs", "histories"], "all 65536 flag words (exhaustive), all ids, all sequences of header setters directly or through the message",
  "Tests check two header words; the interplay of setters over histories is untested.",
  ["src/header.rs", "src/packet.rs"],
  [("bitfield layout", "src/header.rs FlagBitfield"), ("coupled setters", "src/header.rs set_query_response, set_response_code, set_recursion_available")])

p("C10", "The input cursor never leaves its buffer and reads what is there",
  "Over any sequence of operations on an input buffer, every read returns exactly the octets at the cursor (integers big-endian, strings by their length octet) and moves the cursor by exactly the octets consumed, looking ahead moves nothing, and remaining plus position always equals the buffer length. A request that does not fit, however large, returns an error; a failed fixed-size read, skip or reposition leaves the cursor where it was, and a sub-buffer of a given length ends exactly that many octets after the cursor while earlier octets stay addressable.",
  ["histories", "inputs"], "all buffers, all operation sequences including nested sub-buffers, all length arguments up to the maximum machine word",
  "One test reads three slices of one array; boundary and overflowing lengths are untested.",
  ["src/buffer.rs"], [("cursor arithmetic", "src/buffer.rs DnsBuffer")])

p("C11", "Name decompression is exact, terminating and bounded",
  "Reading a name yields exactly the labels reached by following its compression pointers, and leaves the cursor directly after the name's own octets (after the first pointer, if there is one). A name that runs out of the buffer, points to itself, forwards or in a loop, or exceeds 255 octets is rejected; a name of labels of at most 63 octets whose pointers each lead to a position before the labels they follow is accepted.",
  ["inputs"], "all buffers and start positions, in particular chains, graphs and loops of pointers, pointers into other names, into the middle of labels and to the end of the buffer, names of 253-260 octets",
  "Tests contain only well-formed pointers to earlier names.",
  ["src/buffer.rs", "src/fqdn.rs"], [("pointer resolution", "src/buffer.rs extract_fqdn")])

p("C12", "Domain name values behave like label sequences",
  "A name built from text, from a list of labels or from decoded bytes is the sequence of its labels: text is split at dots ignoring empty parts, printing joins the labels with dots, and label count, iteration, appending, emptiness, root and link-local tests, binary size and encoding all agree with that sequence. Printing never panics or produces invalid text for arbitrary label octets, equality means equal label sequences, and the ordering is a total order consistent with equality.",
  ["inputs", "histories"], "all texts, all label sequences (including empty, non-ASCII and arbitrary octets), all sequences of appending and in-place edits",
  "Tests use half a dozen names.",
  ["src/fqdn.rs"], [("label vector", "src/fqdn.rs FQDN")])

p("C13", "Code point tables are total, injective and reject the rest",
  "For every number, converting it to a type, query type, class, query class, operation code, response code or any enumerated field of a record yields the variant that the registry assigns to it or an error naming the kind of field and the offending number, and converting a variant back gives its number again. Types and query types agree on shared codes, record data decoded for a type is of that type, and errors have a finite chain of causes. (The top bit of a class is not part of its number, and letters in the flags of a NAPTR record that have no meaning are skipped.)",
  ["inputs", "configurations"], "all 256 / 65536 values of every table (exhaustive), in every feature configuration",
  "Tests touch a handful of codes; each table is written out twice by hand.",
  ["src/question.rs", "src/resource.rs", "src/header.rs", "src/error.rs", R+"mod.rs", R+"tlsa.rs", R+"tkey.rs", R+"tsig.rs", R+"sshfp.rs", R+"dhcid.rs", R+"svcb.rs", R+"dnssec.rs", R+"naptr.rs", R+"csync.rs", R+"ipseckey.rs"],
  [("TryFrom / From tables", "src/**/*.rs")])

p("C14", "Type bitmaps represent exactly the set of types",
  "For every set of record types, the type bitmap of records that carry one lists exactly these types when encoded: windows in ascending order, no empty window, no trailing zero octets, at most 32 octets each, and decoding yields the same set, in the plain and the compressed form. Decoding any legal bitmap of known types yields exactly the types whose bits are set, and windows that are cut off or longer than 32 octets are rejected.",
  ["inputs", "configurations"], "all subsets of the supported types (all singletons and pairs, random subsets), all legal window encodings, malformed windows",
  "Two tests encode one set each; window boundaries and the last octet of a window depend on the set.",
  [R+"csync.rs", R+"dnssec.rs"], [("window encoder and decoder", "src/rdata/csync.rs, src/rdata/dnssec.rs Nsec")])

p("C15", "mDNS bits are independent of the class",
  "With multicast DNS support, the unicast-response and cache-flush settings are carried in the top bit of the class field only: setting or clearing them changes no other bit of the message and no other property of the entry, survives plain and compressed round trips, and defaults to off. Without that support the top bit is ignored when reading the class of a question or record, and the payload size of an EDNS record always keeps all 16 bits in both builds.",
  ["inputs", "configurations", "histories"], "all questions and records, all classes, both feature configurations, all sequences of toggling and class changes",
  "One mDNS test with fixed packets.",
  ["src/question.rs", "src/resource.rs"], [("class field fusion", "src/question.rs, src/resource.rs")])

p("C16", "Optional features do not change the rest of the library",
  "Enabling or disabling the optional features never changes how input without content of that feature is treated: whatever the smallest build accepts, every larger build accepts with the same meaning and re-serialises to the same bytes, and whatever a larger build accepts without using feature-specific types or bits, the smallest build accepts in the same way.",
  ["configurations", "inputs"], "all four feature combinations, all byte strings (valid, mutated, random)",
  "Tests run once per configuration and never compare configurations.",
  ["Cargo.toml", "src/question.rs", "src/resource.rs", R+"mod.rs"], [("cfg(feature) sections", "src/question.rs, src/resource.rs, src/rdata/mod.rs")])

p("C17", "Record sets have one canonical form, independent of order",
  "The binary form of a record set is the concatenation, in ascending order of the encoded record data, of owner name, type, class, time to live, data length and data of each of its records; it does not depend on the order in which the records were given. Bringing a record set into canonical order permutes the records into that order, loses and duplicates none, and is idempotent.",
  ["inputs"], "all record sets of every type, all permutations, records whose data are prefixes of each other, repeated records",
  "No test covers a record set with more than one record.",
  ["src/resource_record_set.rs"], [("sorted insertion", "src/resource_record_set.rs to_bytes, canonical_reorder")])

p("C18", "DNSSEC signatures verify iff key and covered data are unchanged",
  "For every supported signing algorithm a signature created for a record set verifies with the corresponding key, also for any other order of the records and whatever their current time to live is, and is accepted by an independent implementation of the algorithm's RFC; signatures made by such an implementation over the same data verify as well. Changing the covered records, the owner, the class, the type, any field of the signature record, the signature or the public key makes verification fail (changes of letter case only, repetitions of a record, and the first octet of a DSA signature aside, which repeats a size), and verification and signing never panic whatever the key and signature octets are.",
  ["inputs", "histories"], "all algorithms, record sets of all types, validity times, single changes to any signed field, arbitrary key and signature octets",
  "Four tests sign and verify one record each and never check a rejection, a second implementation, RSA/SHA-2, DSA, RSA/MD5 or P-256.",
  [R+"dnssec.rs", "src/resource_record_set.rs"], [("signed data assembly", "src/rdata/dnssec.rs Rrsig::verify, calculate_signature"), ("algorithms", "src/rdata/dnssec.rs Algorithm::sign_data")])

p("C19", "Derived identifiers follow their RFC definitions",
  "Delegation digests and key tags computed from a key, the key tag, algorithm, label count, times and names stored in a new signature, the DHCP identifier digest, and the hexadecimal and base64 renderings equal what an independent computation from the RFC definitions gives, for every key, owner name and identifier.",
  ["inputs"], "all owner names, algorithms, digest types, key contents of even and odd length, identifier types and contents, times",
  "One test each for one key tag, one digest and one DHCP identifier.",
  [R+"dnssec.rs", R+"dhcid.rs"], [("key tag", "src/rdata/dnssec.rs compute_key_tag"), ("digests", "src/rdata/dnssec.rs hash_data, src/rdata/dhcid.rs new")])

p("C20", "Serialisation is a pure, deterministic function of the value",
  "Serialising or measuring a value never changes it and never writes to standard output or standard error, equal values always serialise to equal bytes (plain and compressed, regardless of how, in which order, by which thread or in which process they were built), and values that serialise to the same bytes of a valid message are equal.",
  ["inputs", "histories", "schedules"], "all valid values, built in different insertion orders, cloned, decoded, serialised repeatedly, concurrently and in separate processes",
  "Hash map iteration order differs per instance and process; tests serialise a value once.",
  [R+"opt.rs", R+"tsig.rs", "src/util.rs", "src/packet.rs"], [("ordered output", "src/rdata/opt.rs to_bytes"), ("unkeyed suffix hash", "src/util.rs hash_fqdn")])

p("C21", "Message framing is exact",
  "A decoded message consumes exactly its own octets: octets after the last record do not influence the result and are left unread, and no strict prefix of a message is accepted as a message. A record's data never extends beyond its declared length, the next entry starts directly after it, and the declared section counts decide exactly how many entries are read.",
  ["inputs"], "all well-formed messages (any legal compression), all their prefixes, all suffixes appended, all declared counts and record data lengths that differ from the actual ones",
  "Tests decode complete messages only.",
  ["src/packet.rs", "src/resource.rs", "src/buffer.rs"], [("RDLENGTH sub buffer and advance", "src/resource.rs"), ("section loops", "src/packet.rs")])

p("C22", "Values hold exactly what they were given",
  "Every part given to a constructor or setter of a question, record or record data value is what its accessors, public fields and conversions return afterwards; a setter changes its own part only, copies are equal and independent, and two values compare as equal exactly if all their parts do. Address records convert to and from numbers, address types and text without loss and reject text that is not an address. Derived views (raw data of a record, CSYNC flags, SVCB mode, gateway type, key protocol) follow from the parts.",
  ["inputs", "histories"], "all record types, all sequences of setters on questions and records, all addresses, texts near valid addresses",
  "Tests read back a few fields of decoded packets; setters and conversions are hardly used.",
  ["src/question.rs", "src/resource.rs", R+"a.rs", R+"aaaa.rs", R+"ptr.rs", R+"csync.rs", R+"svcb.rs", R+"ipseckey.rs", R+"dnssec.rs"], [("setters and accessors", "src/resource.rs, src/question.rs"), ("conversions", "src/rdata/a.rs, src/rdata/aaaa.rs")])

p("C23", "Malformed record data is rejected, well-formed data is not",
  "Record data is accepted only if it has the structure its type's RFC defines: every fixed field, counted string, list item, option, parameter, bitmap window and name lies completely within the declared length of the data (and a parameter value is used up by its content), every enumerated field holds an assigned number, and a CAA tag is not empty; anything else is rejected with an error and never padded, cut or guessed. Data with that structure is accepted, and the fields of the result are exactly the ones the octets describe. A message is accepted exactly if its framing, names, codes and all its record data are. (Left open: octets after the last field, text that is not UTF-8, repeated options and parameters, address hints with several addresses, IPSECKEY without gateway, APL addresses longer than their family allows, unknown CSYNC flags and types in bitmaps, unordered or empty windows, key protocols other than 3, reserved label types; and where an RFC calls an otherwise decodable form invalid, rejecting it is fine too.)",
  ["inputs"], "all octet strings as data of every record type, on their own, in a sub-buffer and inside messages",
  "Tests decode valid packets only; tolerance towards malformed data is invisible to them.",
  ["src/resource.rs", "src/buffer.rs", "src/rdata/"], [("record data decoders", "src/rdata/*.rs TryFrom<&mut DnsBuffer>")])

with open(OUT, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
