STD = ["std::io::Cursor/Read/Seek/Write behave as the prelude's verified model says (prelude.rs)",
       "byte-order codecs behave as their contracts (proved of the macro-expanded code by P10)",
       "buffers are at most 2^60 bytes; allocation does not fail"]
META = ["Vec::sort_by_key is a stable sort, sort_by sorts, retain keeps the matching elements (contracts of vx_sort_by_key, vx_sort_by, vx_retain)",
        "derived Clone, PartialEq and PartialOrd behave as derived", "String and float contents are opaque", "allocation does not fail"]
PROPS = {
 "P01": dict(units=[("jpg", ["check_signature", "skip_ecs", "clear_segment", "clear_metadata"]), ("dispatch", ["clear_metadata", "clear_app12_segment", "clear_app13_segment"])], secs=(8, 240), level="proof",
    rule="JPEG data built from segment pieces (all short sequences, truncations) and random segment lists with mutations; non-trivial: the reference removes something",
    bounded_for="nothing: the in-memory clears, including their dispatch, are under contract",
    assumptions=STD),
 "P02": dict(units=[("jpg", None), ("dispatch", ["as_u8_vec", "write_to_vec", "new_from_vec"])], secs=(8, 240), level="proof",
    rule="payload sizes around the limits and random JPEG data; non-trivial: the write succeeds and is compared byte for byte",
    bounded_for="nothing: the metadata encoder is an uninterpreted function here (decided by P12/P13)",
    assumptions=STD),
 "P03": dict(units=[("png", None), ("dispatch", ["clear_metadata", "write_to_vec"])], secs=(8, 240), level="proof",
    rule="PNG data built from chunk pieces (all short sequences, truncations, single-byte changes) and random chunk lists with mutations; non-trivial: something is removed or written and compared",
    bounded_for="nothing: the XMP rewriter is an uninterpreted function here (P23)",
    assumptions=STD + ["miniz_oxide: decompressing what was compressed gives it back, and output is below 2n+64 bytes", "crc::Crc is a function of its input", "rewritten XMP chunks stay below 4 GB", "String as a byte string with a uninterpreted UTF-8 predicate"]),
 "P04": dict(units=[("png_raw", None), ("png", ["read_metadata", "generic_read_metadata", "as_u8_vec", "get_data_from_text_chunk", "get_info_about_iTXt_chunk", "check_zTXt_compression_method", "get_remaining_data", "construct_zTXt_chunk_data"])], secs=(8, 240), level="proof",
    rule="texts: all pairs of characters at three places, all one-place edits of an encoded text, random edits; payload sizes around powers of ten; non-trivial: the reference decodes the text",
    bounded_for="that two characters, trimmed, parse as hexadecimal as hex_pair states (compared with the real decoder for all 65536 pairs)",
    assumptions=STD + ["decimal formatting of an integer has its value, only digits and no leading zero", "from_str_radix(16) on two trimmed characters is hex_pair (checked for all 65536 pairs)", "miniz_oxide is lossless"]),
 "P07": dict(units=[("jxl", None), ("dispatch", ["clear_metadata", "write_to_vec", "new_from_vec"])], secs=(8, 240), level="proof",
    rule="JXL data built from box pieces (all short sequences, truncations) and random box lists with mutations; non-trivial: something is removed, read or written",
    bounded_for="nothing: the Brotli decoder is an external crate (uninterpreted function)",
    assumptions=STD + ["brotli::BrotliDecompress is a function of its input", "the encoded metadata and the bare codestream are shorter than 2^32 bytes"]),
 "P10": dict(units=[("tags", ["to_u8_vec", "from_u8_vec", "from_u8_vec_res", "bytes_per_component", "lemma_round"])], secs=(6, 240), level="proof",
    rule="bytes as components of each of the 13 codecs (lists, single values, every prefix length, texts), both byte orders; non-trivial: at least one value is encoded and decoded back",
    bounded_for="that the standard library's to/from_le/be_bytes produce the stated byte order and keep every bit of a float (compared on all 16-bit values and on every byte value at every place)",
    assumptions=["to_le_bytes/to_be_bytes/from_le_bytes/from_be_bytes of the primitive types have the stated byte order", "a String is its UTF-8 bytes; String::from_utf8 accepts exactly valid UTF-8", "from_u8_vec is called with data that decodes (it is documented to panic otherwise); from_u8_vec_res is total", "allocation does not fail"]),
 "P11": dict(units=[("tags", ["as_u16", "from_u16", "from_u16_with_data", "get_group", "format", "is_writable", "is_unknown", "is_string", "unknown_is_justified", "number_of_components", "value_as_u8_vec", "bytes_per_component",
    "set_value_to_undef", "set_value_to_int8u_vec", "set_value_to_int16u_vec", "set_value_to_int32u_vec", "set_value_to_iR64_vec", "decode_tag_with_format_exceptions", "rebuild"])], secs=(6, 240), level="proof",
    rule="all numbers in all groups with every format, all format codes, and every tag with values of several sizes rebuilt from its data, against a table of the 147 tags written from the EXIF standard; non-trivial: the number is known or a value is rebuilt",
    bounded_for="nothing: every function of the tag table (macro expansion included) is under contract; names of tags are compared in the executable contract",
    assumptions=["the nightly compiler's macro expansion of exif_tag/mod.rs and u8conversion.rs is what the stable build compiles", "derived Clone, PartialEq as derived", "allocation does not fail"]),
 "P15": dict(units=[("meta", ["set_tag", "remove_tag", "remove_tag_by_hex_group", "get_ifd_mut", "get_ifd", "get_tag", "get_tag_by_hex", "get_max_generic_ifd_number", "create_ifd", "sort_data", "sort_tags", "as_u16", "get_group"])], secs=(8, 240), level="proof",
    rule="sequences of set, get, remove, create and reduce calls over all 147 tags, the structural and Unknown tags and up to 40 pages, compared with a list-of-lists model after every call; non-trivial: something is set or removed",
    bounded_for="nothing: every mutating and reading function is under contract",
    assumptions=META),
 "P16": dict(units=[("meta", ["new", "create_ifd", "sort_data", "get_ifd_mut", "get_ifd", "set_tag", "remove_tag", "remove_tag_by_hex_group", "new_with_tags", "get_offset_tag_for_parent_ifd", "sort_tags", "get_max_generic_ifd_number", "reduce_to_a_minimum"]), ("tiffdec", ["decode_ifd", "decode", "general_decoding_wrapper", "sort_data", "new_with_tags"])], secs=(8, 240), level="proof",
    rule="the same call sequences, checking the directory invariants after every call; non-trivial: something is set or removed",
    bounded_for="nothing: decoding, creation, every setter, removal and reduction are under contract",
    assumptions=META),
 "P17": dict(units=[("meta", ["next", "into_iter", "get_tag", "get_tag_by_hex", "get_tags", "as_u16", "get_group"])], secs=(8, 240), level="proof",
    rule="after every call of the same sequences, iteration and all lookups are compared with the directories' contents; non-trivial: something is stored",
    bounded_for="nothing: both iterators are under contract", assumptions=META),
 "P18": dict(units=[("meta", ["reduce_to_a_minimum", "remove_tag", "sort_tags", "as_u16", "get_group", "get_ifd_type"])], secs=(8, 240), level="proof",
    rule="the same sequences with reductions at arbitrary places; non-trivial: a reduction keeps something and drops something",
    bounded_for="nothing: the reduction and what it calls is under contract", assumptions=META),
}

ENC = ["from an infinite set of buffers only those below 2^60 bytes exist; allocation does not fail", "Vec::sort_by_key is a stable sort (uninterpreted function `stable` with its defining facts)",
       "derived Clone, PartialEq, PartialOrd behave as derived", "the tag table behaves as its contracts (proved in the unit `tags`)"]
PROPS.update({
 "P12": dict(units=[("tiff", None), ("tags", ["value_as_u8_vec", "number_of_components", "format", "as_u16", "is_writable", "fact_size", "fact_struct"])], secs=(8, 240), level="proof",
    rule="metadata built from operations over all tags (structural and Unknown ones included), up to 40 pages, strips and thumbnails, both byte orders, encoded and read back by an independent TIFF reader; non-trivial: at least one entry is written",
    bounded_for="nothing: encode, encode_ifd and what they call are under contract",
    assumptions=ENC + ["metadata fits: at most 65535 entries per directory and less than 4 GB in total (`encodable`)"]),
 "P13": dict(units=[("tiff", None), ("tags", ["value_as_u8_vec", "from_u16_with_data", "decode_tag_with_format_exceptions", "rebuild", "lemma_round"])], secs=(8, 240), level="proof",
    rule="the metadata of P12, encoded, decoded and encoded again; non-trivial: at least one tag comes back",
    bounded_for="that the directory walk of decode_ifd visits what encode_ifd wrote (each value's round trip is proved, the composition over the walk is compared on generated metadata)",
    assumptions=ENC),
})
PROPS.update({
 "P14": dict(units=[("tiffdec", ["check_data_available", "decode_ifd", "decode", "general_decoding_wrapper", "sort_data", "from_u16", "bytes_per_component"]), ("tags", ["from_u8_vec", "from_u8_vec_res", "from_u16", "from_u16_with_data", "decode_tag_with_format_exceptions"])], secs=(8, 240), level="proof",
    rule="EXIF data of the writer with bytes changed, offsets and links redirected (also to themselves), counts enlarged, truncated everywhere, and random bytes; non-trivial: the header is accepted",
    bounded_for="nothing: decoding, up to and including the final sort, is under contract",
    assumptions=["std::io::Cursor behaves as the prelude's verified model", "HashSet behaves as vstd specifies it", "EXIF data is shorter than 4 GB", "the tag table and the value codec behave as their contracts (proved in the unit `tags`)", "allocation of what the input justifies does not fail"]),
})
PROPS.update({
 "P20": dict(units=[("rational", None)], secs=(10, 240), level="proof",
    rule="60 special values with their neighbours, all fractions below 200/200, random floats of all magnitudes, continued fractions with mostly small terms, values at the edge of the range, compared with the best approximation computed in exact integer arithmetic; non-trivial: the value is not an integer",
    bounded_for="how close the fraction is (proved: denominator at least 1 and at most 2^31-1, nominator within range, no overflow, integers exact)",
    assumptions=["f64 is lowered to an abstract float type; its arithmetic is assumed to satisfy the fact_* lemmas of proofs/rational.rs (each evaluated on the real arithmetic on every run)", "the From impls call the conversions under contract"]),
})
PROPS.update({
 "P19": dict(units=[("dispatch", None)], secs=(8, 240), level="proof",
    rule="every signature with every byte value at each place, all truncations, cursor positions and splices of two signatures; every letter case and one-character edit of the extensions; content of each format under every extension and format argument; non-trivial: a format is denoted",
    bounded_for="that each format's own reader, writer and clearer reject another format's data (compared for all pairs of formats; the signature tests of JPEG, PNG, JXL are proved in their units)",
    assumptions=["str::to_lowercase maps ASCII letters to lower case and nothing else to ASCII letters of the names", "Read::read fills a prefix of the buffer, completely where the data has 32 bytes (std::io::Cursor, std::fs::File)",
                 "Path::extension, try_exists and File::open behave as documented (uninterpreted functions of the path)", "each format's reader, writer and clearer is an uninterpreted relation here (their own units)", "derived PartialEq, Clone of FileExtension"]),
})
PROPS.update({
 "P05": dict(units=[("webp", None), ("dispatch", ["clear_metadata", "write_to_vec", "new_from_vec", "as_u8_vec"])], secs=(8, 240), level="proof",
    rule="WebP data built from chunk pieces (all sequences of up to three, truncations, byte changes) and random chunk lists with mutations, sequences of writes and clears; non-trivial: something is removed, read or written",
    bounded_for="what the proof assumes of str::to_lowercase (compared for every character)",
    assumptions=STD + ["str::to_lowercase is a function of the text; of ASCII text it is the ASCII lower case, and no non-ASCII character becomes ASCII except into k", "String as a byte string with an uninterpreted UTF-8 predicate", "String::from_u8_vec trims trailing NULs (proved in the unit `tags`)", "the encoded metadata is shorter than 2^32 - 2^16 bytes"]),
 "P06": dict(units=[("webp", ["get_dimension_info_from_vp8l_chunk", "get_dimension_info_from_vp8_chunk", "convert_to_extended_format", "get_next_chunk", "set_exif_flag", "write_metadata", "theorem_canvas", "lemma_bit", "lemma_extended", "lemma_low24", "lemma_vp8x"])], secs=(8, 240), level="proof",
    rule="lossless and lossy images of every width and every height, and short or foreign first chunks; non-trivial: the image is converted",
    bounded_for="nothing: the dimension decoding and the conversion are under contract",
    assumptions=STD + ["the bitstream's dimension fields are those of RFC 6386 section 9.1 and of the WebP lossless specification section 3 (dims_vp8, dims_vp8l)"]),
})
HEIF = STD + ["Box<dyn GenericIsoBox> is one of its five implementors and dispatches to its methods (AnyBox, axiom_any)", "String as a byte string with an uninterpreted UTF-8 predicate", "Vec::try_reserve_exact reserves or fails"]
PROPS.update({
 "P08": dict(units=[("heif", ["read_1_bytes", "read_2_bytes", "read_3_bytes", "read_4_bytes", "read_8_bytes", "read_16_bytes", "read_be_u16", "read_be_u32", "read_be_u64", "read_null_terminated_string", "name", "full", "extends_fullbox", "from_4_bytes", "to_4_bytes", "read_box_header", "get_box_size", "get_box_type", "get_header_size", "get_version", "get_header",
    "serialize", "construct_from_cursor", "construct_from_cursor_unboxed", "read_from_cursor", "read_box_based_on_header", "read_next_box", "get_construction_method", "change_box_size", "create_new_item_location_entry", "create_new_item_info_entry", "create_new_single_item_reference_box", "new"])], secs=(8, 240), level="proof",
    rule="files from item tables in all versions and field sizes, box headers in all size forms, nested and unknown boxes, truncations and byte changes; non-trivial: the container is accepted and written again",
    bounded_for="nothing: every box header, table and container parser and serialiser is under contract",
    assumptions=HEIF),
 "P09": dict(units=[("heif", ["fits", "change_box_size", "set_box_size", "set_version", "set_box_type_via_string", "new_exif_info_entry_box_header", "new_simple_box_header", "new_full_box_header", "new", "move_extents", "set_extent_length", "create_new_item_location_entry", "get_exif_item", "create_new_item_info_entry", "create_new_single_item_reference_box", "get_construction_method"]), ("heifw", None)], secs=(8, 240), level="proof",
    rule="the files of P08 with several items and extents, EXIF in front of, between and behind the other items, and metadata of different sizes written and cleared in sequences; non-trivial: the operation succeeds and every extent is compared",
    bounded_for="metadata written to a meta box without an EXIF item that has more than one iloc or iinf box (ISO/IEC 14496-12 allows one)",
    assumptions=HEIF + ["two AnyBox of the same content are equal (axiom_same)", "slice::iter_mut, Vec::splice over a range with a slice's copied bytes, the largest item id (Iterator::max) and from_be_bytes behave as documented (VxIterMut, vx_splice, vx_largest_info, vx_be_*)", "a Vec of item entries has fewer than 2^32 elements (each takes at least 8 bytes of a box)", "the encoded metadata is any byte sequence shorter than 2^32 - 2^16 (P12 decides what it is); what a clear keeps is taken from the decoded metadata by uninterpreted functions (P14, P15 decide what they are)"]),
})
PROPS["P23"] = dict(units=[("xmp", None)], secs=(8, 240), level="proof",
    rule="packets generated from document trees (nested, empty, EXIF and look-alike names, attributes in both quotes, comments, CDATA, processing instructions, layout text), ill-formed packets and byte changes, cleaned through a PNG XMP chunk; non-trivial: something is removed or the packet is rejected",
    bounded_for="that quick_xml splits a text into the events its bytes spell and writes events back as they were (its reader and writer are a dependency; compared with an independent tokenizer on generated packets)",
    assumptions=["quick_xml: reading gives the events of the text in order and ends with Eof or an error (axiom_events), at most one per byte and one more; writing to a Vec succeeds and renders the events in order", "characters and white space of a text are uninterpreted functions of its bytes", "packets are below 4 GB (the depth counter is u32)", "String as a byte string with an uninterpreted UTF-8 predicate"])
FILES = ["the file system holds one file at the path under operation (`Path {there, c, readable, storable}`): opening, reading, writing, seeking, set_len behave as POSIX; a failing operation of the storage changes nothing but what it was asked to write",
         "std::fs::read and read_to_end give the whole content or an error; std::fs::write stores exactly the buffer or fails"]
PROPS["P21"] = dict(units=[("files", None), ("dispatch", ["new_from_path", "file_clear_metadata", "file_clear_app12_segment", "file_clear_app13_segment", "write_to_file", "get_file_type"])], secs=(8, 240), level="proof",
    rule="content of each format (accepted, truncated, foreign, empty, missing file) with and without EXIF data, metadata of several sizes, sequences of clear and write by path and in memory, byte for byte; non-trivial: the file's content changes or an operation is refused",
    bounded_for="the same comparison end to end on a real file system",
    assumptions=FILES + ["each format's in-memory operation is a function of the bytes and the metadata (its own unit proves what that function is)", "the HEIF container's parser and serialiser are uninterpreted functions here (unit heif)"])

PROPS["P22"] = dict(kind="safety", units=[
    ("jpg", ["check_signature", "skip_ecs", "generic_read_metadata", "read_metadata"]),
    ("png", ["length", "as_string", "from_string", "check_signature", "read_chunk_length", "read_chunk_name", "read_chunk_data", "read_chunk_crc", "get_next_chunk_descriptor", "get_keyword_from_text_chunk", "get_remaining_data",
        "check_zTXt_compression_method", "get_info_about_iTXt_chunk", "get_data_from_text_chunk", "generic_parse_png", "vec_parse_png", "generic_read_metadata", "read_metadata"]),
    ("png_raw", ["starts_with", "decode_metadata_png"]),
    ("jxl", ["starts_with_iso_bmff_signature", "starts_with_jxl_signature", "check_signature", "remaining_length", "skip_box_content", "read_box_content", "read_box_header", "check_brob_type_for_exif", "box_contains_exif", "generic_read_metadata", "read_metadata"]),
    ("webp", ["new", "len", "header", "descriptor", "payload", "check_riff_signature", "check_webp_signature", "check_byte_count", "check_signature", "get_next_chunk", "get_next_chunk_descriptor", "parse_webp", "check_exif_in_file", "read_metadata"]),
    ("heif", ["read_1_bytes", "read_2_bytes", "read_3_bytes", "read_4_bytes", "read_8_bytes", "read_16_bytes", "read_be_u16", "read_be_u32", "read_be_u64", "read_null_terminated_string", "extends_fullbox", "from_4_bytes", "read_box_header", "get_box_size",
        "get_box_type", "get_header_size", "get_version", "get_header", "construct_from_cursor_unboxed", "construct_from_cursor", "read_from_cursor", "get_construction_method", "read_box_based_on_header", "read_next_box", "get_exif_item", "get_item_info_box",
        "get_item_location_box", "get_item_reference_box", "get_item_location_entry", "get_meta_box", "get_item_id_exif_data", "get_exif_data_pos_and_len", "get_exif_data", "generic_read_metadata", "heif_read"]),
    ("tiffdec", None),
    ("tags", ["from_u8_vec", "from_u8_vec_res", "from_u16", "from_u16_with_data", "decode_tag_with_format_exceptions", "format", "as_u16", "get_group"]),
    ("files", ["open_read_file", "file_check_signature", "file_read_metadata", "read_metadata", "generic_read_metadata", "vec_parse_png", "file_parse_png"]),
    ("dispatch", ["auto_detect", "from_str", "get_file_type", "new_from_vec", "new_from_path"])], secs=(10, 240), level="proof",
    rule="files of each format from the generators of the other properties, truncated, with bytes changed and lengths redirected, random bytes behind each signature; read from memory and from a file; non-trivial: the reader gets past the signature",
    bounded_for="time and stack in relation to the input (nesting of HEIF boxes and TIFF directories is bounded by the code, run on deep inputs)",
    assumptions=STD + HEIF[len(STD):] + ["data is shorter than 4 GB", "external decoders (miniz_oxide, brotli) return on every input", "a failing allocation of what the input justifies ends the process"])
