import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None,
                   **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
IL="src/ilint/mod.rs"; IO="src/io/mod.rs"; AR="src/io/array/mod.rs"; DA="src/io/data/mod.rs"; SI="src/io/std_io/mod.rs"
TG="src/tags/mod.rs"; SE="src/tags/serialization/mod.rs"; EX="src/tags/standard/explicit/mod.rs"; IM="src/tags/standard/implicit/mod.rs"
FA="src/tags/standard/factory/mod.rs"; UT="src/tags/util/mod.rs"; RA="src/tags/raw/mod.rs"; PA="src/tags/payload/mod.rs"; CO="src/tags/standard/constants.rs"
p("P01","Unsigned ILInt encoding is minimal, size-exact and lossless",
 "Every 64-bit unsigned value below 248 is encoded as that single byte, and every other value as a header byte 0xF8+n-1 followed by the n-byte big-endian form of value-248 with the smallest possible n. The size reported for a value equals the number of bytes the encoder emits. Every decoding entry point returns the original value from those bytes and consumes exactly them, whatever follows.",
 ["inputs"],"all u64 values, all bytes following the encoding","tests check 9 sample values; a size class boundary or digit bug elsewhere in 2^64 values is unseen",
 [IL,DA,SE],[("size classes","ilint::encoded_size"),("encoder","ilint::encode"),("decoder","ilint::decode, decode_from_bytes, decode_body")],["public ilint functions","ILInt reader/writer/serializer traits"])
p("P02","ILInt decoding is total and exact on arbitrary bytes",
 "For every byte sequence, ILInt decoding either returns the value defined by the header byte and exactly the number of body bytes that header announces (also for non-minimal encodings), or reports an error: when the input is empty or truncated, when a body is empty or longer than 8 bytes, or when the value would exceed 2^64-1. It never panics or wraps around. The slice, body and stream decoders always agree.",
 ["inputs"],"all byte sequences up to header + 8 bytes and any suffix","tests sample a few hand-written encodings; overflow boundary and non-minimal bodies are a 2^64 space",
 [IL],[("header size","ilint::decoded_size"),("overflow guard","ilint::decode_body"),("length guard","ilint::decode_from_bytes")],["public ilint functions"])
p("P03","Signed ILInt mapping is an order-by-magnitude bijection",
 "The signed-to-unsigned mapping sends 0, -1, 1, -2, 2 and so on to 0, 1, 2, 3, 4 and so on, and is a bijection between all 64-bit signed and all 64-bit unsigned values, with the inverse mapping undoing it in both directions. Signed encoding and decoding and the reported signed size are exactly the unsigned ones applied to the mapped value. This holds for both extremes of the range.",
 ["inputs"],"all i64 and all u64 values","tests check a handful of values",
 [IL,DA,SE,IM],[("zig-zag","ilint::encode_sign / decode_sign"),("signed codec","ilint::signed_encode / signed_decode / signed_encoded_size")],["public ilint functions","signed ILInt traits"])
p("P04","Primitive values are written and read big-endian and bit-exact",
 "Every 8/16/32/64-bit signed or unsigned integer and every 32/64-bit float (including NaN payloads, infinities and signed zeros) is written as its big-endian bit pattern and read back bit-for-bit identical, consuming exactly its width. Strings are written as their UTF-8 bytes, and reading n bytes as a string succeeds exactly when they are valid UTF-8. All access paths (free functions, reader/writer extension traits, serializer/deserializer traits, on concrete and on dynamic readers/writers) behave the same, and a short input or a destination without room is reported as an error.",
 ["inputs","configurations"],"all values of every primitive type, all byte strings, all access paths","tests use one sample per type and path",
 [DA,SE],[("read_*/write_*","src/io/data/mod.rs"),("serializer traits","src/tags/serialization/mod.rs")],["io::data functions","ValueReader/ValueWriter","ValueSerializer/ValueDeserializer"])
p("P05","Serialized tags follow the wire format and the declared sizes",
 "For every tag tree built through the API, serialization emits exactly: the id as ILInt, then for ids above 15 the value length as ILInt, then the value laid out as the standard prescribes for its type (nested tags recursively, counts first where the type has them). The reported value size and total size equal the number of bytes actually emitted, at every level of the tree. The byte-vector form equals the streamed form.",
 ["inputs"],"all tag trees over every standard tag type, custom ids, raw and payload tags, all size classes of lengths and counts","tests compare one or two fixed samples per tag type",
 [TG,EX,IM,PA],[("header","ILTag::serialize / size / to_bytes"),("per-type value layout","serialize_value / value_size of every tag")],["ILTag::serialize, size, value_size, to_bytes"])
p("P06","Decoding a serialized tag reproduces it and consumes exactly its bytes",
 "For every tag tree whose types are registered, decoding its serialized form yields a tag of the registered type with the same id and an equal value at every level, and reserializing it yields the same bytes. Exactly the tag's own bytes are consumed, so bytes placed after it remain available and any concatenation of tags is decoded one by one in order. This holds whichever kind of reader carries the bytes.",
 ["inputs","configurations"],"all tag trees, all suffixes, all reader kinds","tests decode a fixed sample per type",
 [FA,TG,EX,IM,PA],[("factory","ILStandardTagFactory::deserialize"),("per-type decode","deserialize_value")],["ILTagFactory::deserialize / deserialize_into / from_bytes"])
p("P07","Decoding accepts exactly the well-formed encodings and never panics",
 "For every byte sequence the standard factory either returns the one tag the format defines for a prefix of it or returns an error; it never panics, hangs or returns a tag whose contents were not in the input. Malformed input is always rejected: a value length that does not fit its type, a boolean byte other than 0 or 1, invalid UTF-8, an element count that does not match the elements present, leftover bytes inside a value, a dictionary key that is not a string tag, an overflowing ILInt, or a reserved unassigned id.",
 ["inputs"],"all byte sequences (bounded length), strict and lenient factories","a few malformed samples per type are tested",
 [FA,EX,IM,TG],[("size check","deserialize_tag_value_into"),("per-type validation","deserialize_value")],["ILTagFactory::deserialize, from_bytes"])
p("P08","No tag value can reach outside its declared extent",
 "While a tag is decoded, no byte beyond the end of its declared value (nor beyond the end of any enclosing tag's value) is consumed from the source, whether decoding succeeds or fails. A nested element whose declared length exceeds the remaining room of its enclosing value makes the decoding fail even when the source has more bytes. On success the source position is exactly the end of the tag.",
 ["inputs"],"all byte sequences, all nesting shapes, any amount of data after the tag","tests do not track the position after failures or nested overruns",
 [IO,FA,EX],[("LimitedReader","src/io/mod.rs"),("nesting","deserialize_value of containers")],["reader position after ILTagFactory::deserialize"])
p("P09","Truncated or padded encodings are rejected",
 "Every strict prefix of a valid tag encoding is rejected with an error by the decoder. Decoding from a complete byte slice additionally rejects any bytes left after the tag as corrupted data and accepts the exact encoding. Neither case panics or returns a partial tag.",
 ["inputs","crash_points"],"every cut point of every valid encoding; every non-empty suffix","tests cut a sample at one or two points",
 [FA,TG,EX,IM,AR],[("from_bytes","ILTagFactory::from_bytes"),("reads","Reader implementations")],["ILTagFactory::deserialize / from_bytes"])
p("P10","Dictionaries are maps with one canonical serialized form",
 "A dictionary behaves as a map: inserting returns the value previously stored under that key and replaces it, lookups return the latest value, and the length counts distinct keys. Its serialized form lists the entries in ascending byte-wise key order and is therefore identical for equal contents whatever the insertion, replacement, removal or decoding history. Decoding entries in any order gives the same map, a repeated key keeping its last value.",
 ["histories","inputs"],"all insertion/removal/decoding histories and key sets, both dictionary types","tests use one history per type; hash order varies per run",
 [EX],[("sorting","serialize_value of dictionaries"),("map API","insert/get/len/is_empty")],["dictionary tag API, serialized bytes"])
p("P11","The tag registry decides what each id decodes to",
 "Creating or decoding a tag uses the most recently registered creator for its id, and registering or deregistering returns the creator previously in force. For an unregistered id above 15 a strict factory reports an unknown tag, while a lenient one returns a raw tag that preserves the id and the value bytes exactly; an unregistered id of 15 or less is always unknown. The standard factory starts with every standard id mapped to its standard type.",
 ["histories","inputs"],"all register/deregister/create/decode histories over standard, reserved and custom ids, both modes","tests register one or two creators once",
 [TG,FA,CO],[("engine","ILTagCreatorEngine"),("std registrations","create_std_engine")],["ILTagCreatorEngine, ILTagFactory::create_tag/deserialize"],
 [("creators","map id to creator","ILTagCreatorEngine"),("strict","unknown ids rejected","ILTagCreatorEngine")])
p("P12","Decoding into an existing tag replaces its value completely",
 "Decoding into an existing tag instance leaves it exactly as a fresh decode of the same bytes would be, whatever value (or earlier failed decode) it held before. If the id in the stream differs from the instance's id the call fails with an unexpected-type error and the instance keeps its value. The instance's id never changes.",
 ["histories","inputs"],"all sequences of set/decode-into (successful and failing)/read operations on a tag instance of every type","tests decode once into a fresh instance",
 [FA,EX,IM,TG],[("deserialize_into","ILStandardTagFactory"),("value reset","deserialize_value of containers")],["ILTagFactory::deserialize_into then accessors"])
p("P13","Cloning and equality follow the serialized form",
 "Two serializable tags compare equal exactly when their serialized bytes are identical, regardless of the types implementing them; comparison is reflexive and symmetric, and a tag that cannot be serialized compares equal to nothing. Cloning gives exactly the result of decoding the tag's serialized bytes with the given factory (or with the standard types and raw tags for unknown ids): a tag with identical serialized bytes whenever those are in canonical form, or an error. A clone is independent: changing it never changes the original."  ,
 ["inputs","histories"],"all pairs of tag trees and all clone/mutate histories","tests compare a few pairs",
 [UT,TG],[("iltag_are_equal","src/tags/util/mod.rs"),("iltag_clone*","src/tags/util/mod.rs")],["tags::util functions"])
p("P14","The raw scanner reports exact, contiguous tag extents",
 "Scanning a byte sequence of concatenated tags reports, in order, each tag's id, start, header size and value size such that the extents are contiguous from offset 0, the reported slices are exactly each tag's bytes and value bytes, and the same boundaries are found as by decoding the tags one by one. This holds for any valid id and length encoding and any size. Truncated, overflowing or malformed headers give an error (the id-checking variant also errors on a different id), and the scanner never panics or reports an extent beyond the data.",
 ["inputs","histories"],"all concatenations of tags, all header encodings, all truncation points, all reader kinds","tests scan one sequence of 17 small tags",
 [RA],[("RawTagScanner::next_tag","src/tags/raw/mod.rs"),("extract_tag_size","src/tags/raw/mod.rs")],["RawTagScanner, RawTagOffset"],
 [("offset","running offset","RawTagScanner")])
p("P15","Tag extents compose across nesting levels",
 "The derived positions of a tag extent are consistent: value start = start + header size, end = value start + value size = next tag's start, and the slices they select have exactly those bounds. Mapping an extent found inside a parent's value to the parent's space succeeds exactly when it ends within the parent's value, keeps id and sizes, and selects the same bytes there as it did in the parent's value. Mapping through several levels lands on the same bytes as scanning directly.",
 ["inputs"],"all extents and parents whose ends fit in 64 bits, all nesting depths","tests map five fixed extents",
 [RA],[("RawTagOffset","src/tags/raw/mod.rs"),("map_to_parent_space","src/tags/raw/mod.rs")],["RawTagOffset accessors"])
p("P16","Memory readers are all-or-nothing cursors",
 "For every sequence of read, bulk read, skip, seek and query operations, a memory reader returns the bytes at its cursor and advances by exactly the requested count, or fails without moving: end-of-data when nothing is left, unable-to-read when fewer bytes than requested are left; zero-length requests always succeed. Positions set beyond the end are clamped to it, and length, offset and available counts are always consistent. The borrowed and the owned reader behave identically and never alter the data.",
 ["histories"],"all operation histories over all data sizes and counts","tests walk one short history per method",
 [AR,IO],[("assert_can_read","MemoryReader"),("cursor","ByteArrayReader / VecReader")],["ByteArrayReader, VecReader"],
 [("offset","cursor","reader")])
p("P17","Memory writers overwrite, extend and bound writes exactly",
 "For every sequence of write, bulk write, seek and read-only operations, a vector writer holds exactly the bytes obtained by overwriting from the cursor and extending at the end, never shrinking or touching other bytes; a read-only one fails and changes nothing. A fixed-array writer accepts a write exactly when it fits in the remaining room and otherwise fails leaving array and cursor unchanged. Positions beyond the end are clamped, and for the borrowing writer the count of written bytes never underflows and equals the distance advanced from its starting position.",
 ["histories"],"all operation histories over all initial contents, offsets and sizes","tests walk one short history per writer",
 [AR],[("write paths","VecWriter, BorrowedVecWriter, ByteArrayWriter")],["writer contents, offset, bytes_written"],
 [("vector","contents","writer"),("offset","cursor","writer"),("read_only","write lock","writer")])
p("P18","Limited readers never pass their limit and fail without consuming",
 "A limited reader (also nested in others) delivers exactly the source's bytes in order and never lets more than its limit be consumed. Any read, bulk read or skip that exceeds what its limit has left fails without consuming anything from the source, of any size; going to the end consumes exactly the remainder. When the source itself fails, the error is passed on and the remaining count is not reduced.",
 ["histories","inputs"],"all operation histories over nested limits, sources shorter or longer than the limit, all skip sizes","tests use a single limit of at most 11 and no skips",
 [IO],[("can_read guard","LimitedReader"),("goto_end","LimitedReader")],["LimitedReader operations and source position"],
 [("available","bytes left in the limit","LimitedReader")])
p("P19","Standard stream adapters hide short and interrupted transfers",
 "Reading through a wrapped standard reader delivers exactly the source's bytes in order however the source splits them into short or interrupted reads, and fails when the source ends early or reports an error. Writing through a wrapped standard writer succeeds exactly when all bytes were accepted by the sink, however it splits them into short or interrupted writes; on failure the sink holds a prefix of the data. A failure is never reported as success.",
 ["fault_sequences","schedules"],"all sequences of short, interrupted, failing and end-of-data outcomes","tests use in-memory cursors that never return short or failing results",
 [SI],[("ReadReader","src/io/std_io/mod.rs"),("WriteWriter","src/io/std_io/mod.rs")],["ReadReader, WriteWriter, blanket Reader/Writer impls"])
p("P20","Seekable streams: exact skips and side-effect-free size queries",
 "On a seekable stream a read delivers the bytes at the current position; a skip moves forward by exactly the requested count or fails leaving the position where it was: end-of-data when nothing is left, unable-to-read when fewer bytes are left, for any 64-bit count; a failure of the stream to read, write or seek is reported. Length, offset, emptiness and available-bytes queries report the true values, never panic and never move the position. Writes overwrite at the position and extend at the end.",
 ["histories","inputs","fault_sequences"],"all operation histories, positions beyond the end, counts up to 2^64-1, seek failures","tests skip 1 or 2 bytes of a 4-byte cursor",
 [SI],[("skip_u64","blanket Reader for Read+Seek"),("SizedSeek","src/io/std_io/mod.rs")],["Reader/Writer/SizedSeek on seekable streams"])
p("P21","A failing writer makes serialization fail with an exact prefix",
 "If the destination refuses a write at any point, serialization of the tag (at any depth) returns an error and never success. Everything the destination accepted before the refusal is a prefix of the tag's correct serialized form. The tag itself is unchanged and a retry on a working destination gives the complete form.",
 ["fault_sequences","crash_points","inputs"],"every refusal point of every tag tree's serialization","tests never make a writer fail in the middle of a tag",
 [TG,EX,IM,DA,SE,IL],[("error propagation","serialize / serialize_value")],["ILTag::serialize result and sink contents"])
p("P22","Sizing and serializing nested tags takes polynomial work",
 "Computing the size of a tag tree, serializing, cloning or comparing it evaluates each contained tag a number of times bounded by a small multiple of its nesting depth, never exponentially in the depth. Decoding visits every input byte a number of times bounded by the nesting depth.",
 ["inputs"],"all tag trees up to the tested depth (64 levels)","tests never nest more than two levels, where exponential and linear cost look alike",
 [TG,EX],[("size","ILTag::size"),("value_size","containers")],["number of size evaluations of an instrumented leaf tag","number of reads of an instrumented source"])
p("P23","Declared lengths are limited before memory is committed",
 "A declared value length above 512 MiB is rejected as too large without consuming the value, and exactly 512 MiB is still admitted. Decoding requests memory at most proportional to the input actually present plus the admitted length of the byte or text value being read. In particular an element count claimed by a short input never makes memory grow with the claim, at any nesting level.",
 ["inputs"],"all declared lengths and element counts, at every nesting level","tests only call the limit helper with two values and never measure memory",
 [TG,FA,EX],[("limit","tag_size_to_usize / MAX_TAG_SIZE"),("count guards","array tags")],["allocator high-water mark during decoding, error kind"])
p("P24","Operations are isolated: no hidden state across calls or threads",
 "The result of encoding, decoding, creating, scanning or comparing depends only on the arguments and the registry contents, not on earlier calls, failures or other instances. A factory shared by several threads gives every thread the results it would get alone, under every interleaving. Tags moved to or shared with other threads keep their values.",
 ["schedules","histories"],"all interleavings of decoding/serializing threads over a shared factory and all call histories","tests are single-threaded and start from fresh objects",
 [FA,TG,UT],[("Send + Sync, &self APIs","ILTagFactory, ILTag")],["results per thread compared with the sequential specification"])
p("P25","Tag objects hold exactly the value and id they were given",
 "Every constructor, setter and mutable accessor of every tag type makes the corresponding getter return exactly the given value, leaving the id and every other component unchanged; default constructors give the documented standard id and the zero or empty value. A tag is implicit exactly when its id is at most 15 and reserved exactly when at most 31. Downcasts succeed exactly when the concrete type (and the id, where one is given) matches.",
 ["histories","inputs"],"all histories of constructor/setter/getter calls per type, all ids, all type/id pairs for downcasts","tests make one pass over the accessors",
 [IM,EX,TG,PA,CO],[("accessors","tag structs"),("downcast helpers","src/tags/mod.rs")],["tag accessors, downcast functions"])
p("P26","Nesting depth never crashes the process",
 "Decoding, sizing, serializing or dropping a tag of any nesting depth ends in a result or an error and never exhausts the stack or aborts the process.",
 ["inputs"],"all nesting depths","tests never nest more than two levels",
 [FA,EX,TG,IO],[("recursion","deserialize / deserialize_value / serialize / value_size"),("limit","none")],["process exit status"])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import re
for x in P: assert len(x["title"])<=80 and len(re.findall(r"\.(?:\s|$)",x["statement"]))<=3,(x["id"])
print(len(P))
