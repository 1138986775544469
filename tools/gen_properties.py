#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long text stays editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "JPEG: clearing removes exactly the matching segments and nothing else",
 "Clearing EXIF metadata (or APP12, or APP13 segments) from JPEG data yields exactly the input with every matching segment before the end-of-image marker removed - for EXIF only those APP1 segments whose payload starts with the EXIF identifier - and every other byte (other APP1 segments such as XMP, tables, scan data with stuffed bytes and restart markers, data after the end marker) unchanged and in order. On every input the call returns success or an error: it never panics and never loops forever.",
 ["inputs"], "all byte buffers, as JPEG data, for each of the three clear operations",
 "The tests clear two or three sample photos and compare a read-back; they never vary segment order, prefixes, truncation, or lengths, and never compare the surviving bytes.",
 ["src/jpg.rs", "src/metadata/metadata_io.rs"],
 [("segment walk and deletion", "src/jpg.rs clear_segment"), ("scan-data skipping", "src/jpg.rs skip_ecs"), ("dispatch", "src/metadata/metadata_io.rs clear_metadata, clear_app12_segment, clear_app13_segment")])

prop("P02", "JPEG: a write is one EXIF segment right after SOI and reads back",
 "Writing metadata to JPEG data yields the start-of-image marker, then exactly one well-formed APP1 EXIF segment (marker, big-endian length counting itself, EXIF identifier, encoded metadata), then the input without its old EXIF segments and otherwise unchanged; metadata that does not fit into one segment is refused with an error instead of producing a corrupt file. Reading the result returns exactly the encoded metadata that was written, and writing again replaces that segment instead of adding a second one.",
 ["inputs", "histories"], "all metadata payloads (any size) and all JPEG buffers, and sequences of writes",
 "The tests write small metadata to one sample and look at a single tag; payload sizes around the 16-bit limit, repeated writes and the surviving bytes are not sampled.",
 ["src/jpg.rs", "src/util.rs", "src/metadata/metadata_io.rs"],
 [("segment encoding", "src/jpg.rs encode_metadata_jpg"), ("clear + insert", "src/jpg.rs write_metadata"), ("splice", "src/util.rs insert_multiple_at"), ("read", "src/jpg.rs generic_read_metadata")])

prop("P03", "PNG: write and clear keep every other chunk and emit valid chunks",
 "Writing metadata to a PNG yields the signature, the input's chunks with the old EXIF chunks removed and all others unchanged and in order, plus one new EXIF-carrying chunk placed directly after the first chunk (the image header), whose length field and CRC are right; clearing yields the same without the new chunk. Both refuse data whose signature or chunk checksums are wrong, and neither panics on any input.",
 ["inputs", "histories"], "all byte buffers as PNG data and all metadata payloads",
 "The tests use one image; they never place several text chunks around the EXIF chunk, unknown chunk types, or check CRCs and untouched chunks after the edit.",
 ["src/png/mod.rs", "src/png/chunk.rs", "src/png/read.rs", "src/png/text.rs"],
 [("chunk parsing with CRC", "src/png/mod.rs get_next_chunk_descriptor"), ("removal", "src/png/mod.rs clear_metadata, remove_chunk_at"), ("writing", "src/png/mod.rs generic_write_metadata, write_chunk")])

prop("P04", "PNG: the textual raw-profile encoding of EXIF data is lossless",
 "Encoding any EXIF payload as a PNG raw-profile text (length line and hexadecimal digits) and decoding it again returns exactly the payload (behind the EXIF header and followed by the one zero byte the format adds), and PNG data written with a payload reads back exactly that; a payload whose size does not fit the eight-digit size field is refused. Decoding text that is malformed, truncated or claims a wrong length is an error, never a panic.",
 ["inputs"], "all byte strings as payload, all byte strings as text",
 "The tests push one or two small payloads through the codec; length digits at each power of ten, odd tails, line breaks and malformed text are not covered.",
 ["src/png/mod.rs", "src/png/text.rs"],
 [("encoder", "src/png/mod.rs encode_metadata_png, encode_byte"), ("decoder", "src/png/mod.rs decode_metadata_png"), ("text chunk parsing", "src/png/text.rs get_data_from_text_chunk")])

prop("P05", "WebP: write and clear keep a well-formed RIFF file and all other chunks",
 "After writing or clearing metadata in a WebP file or buffer, the RIFF size field equals the actual length minus eight, every chunk is padded to an even length, there is exactly one EXIF chunk after a write and none after a clear, the header's EXIF flag agrees with that, and every other chunk keeps its contents and order. Reading after a write returns exactly the written payload.",
 ["inputs", "histories"], "all WebP buffers (simple and extended), all payload lengths including odd ones, sequences of operations",
 "The tests use three sample files with even-sized chunks and do not parse the resulting container.",
 ["src/webp/mod.rs", "src/webp/vec.rs", "src/webp/file.rs", "src/webp/riff_chunk.rs"],
 [("chunk walk", "src/webp/vec.rs parse_webp"), ("size field", "src/webp/vec.rs update_file_size_information"), ("clear", "src/webp/vec.rs clear_metadata"), ("write", "src/webp/vec.rs write_metadata, src/webp/file.rs write_metadata")])

prop("P06", "WebP: converting a simple image to extended keeps its canvas size",
 "When metadata is written into a simple WebP image, the extended header that is added states exactly the width and height encoded in the image bitstream, and the image data itself is unchanged.",
 ["inputs"], "all 14-bit widths and heights and all simple lossless/lossy WebP images",
 "The tests convert two sample images and only check that the metadata can be read back; a wrong canvas is invisible to them.",
 ["src/webp/vec.rs", "src/webp/file.rs"],
 [("dimension extraction", "get_dimension_info_from_vp8l_chunk / get_dimension_info_from_vp8_chunk"), ("conversion", "convert_VP8L_format_to_VP8X_format")])

prop("P07", "JXL: write and clear edit only the EXIF boxes",
 "Clearing a JXL container yields exactly the input without its EXIF boxes (plain or Brotli-compressed) and all other boxes unchanged and in order; writing yields the same with one new well-formed EXIF box directly after the signature and file type boxes, and a bare codestream is first wrapped, unchanged, in a container. Reading after a write returns the written metadata, and on every input each call returns success or an error without panicking or looping.",
 ["inputs", "histories"], "all byte buffers as JXL data, all payloads",
 "The tests use a handful of intact sample files; box lengths 0, 1..7, truncated final boxes and several EXIF boxes never occur.",
 ["src/jxl.rs", "src/util.rs"],
 [("box walk / removal", "src/jxl.rs clear_metadata, file_clear_metadata"), ("encode", "src/jxl.rs encode_metadata_jxl"), ("insert position", "src/jxl.rs find_insert_position"), ("wrap", "src/jxl.rs write_metadata")])

prop("P08", "HEIF: box headers and item tables survive parse and re-serialisation",
 "Every ISO box header and every item-location, item-info and item-reference table that the parser accepts is serialised back to exactly the bytes it was parsed from, in all size forms and versions, and the sizes the tables state (also after an entry is added) equal the number of bytes written; so all boxes of a file together are written back as the file's bytes.",
 ["inputs"], "all box headers and table contents the parser accepts",
 "The tests parse and rewrite three sample images whose tables use one version and one field-size combination each.",
 ["src/heif/box_header.rs", "src/heif/box_type.rs", "src/heif/boxes/item_location.rs", "src/heif/boxes/item_info.rs", "src/heif/boxes/item_reference.rs", "src/heif/boxes/iso.rs", "src/heif/boxes/meta.rs"],
 [("header codec", "src/heif/box_header.rs BoxHeader read/serialize"), ("iloc codec", "src/heif/boxes/item_location.rs"), ("iinf codec", "src/heif/boxes/item_info.rs"), ("iref codec", "src/heif/boxes/item_reference.rs")])

prop("P09", "HEIF: after a write or clear every other item still locates its own data",
 "After metadata is successfully written to or cleared from a HEIF/AVIF file, every item of the item location table that is stored in this file (outside of the meta box), other than the EXIF item, still resolves through the table to exactly the bytes it resolved to before, and items stored elsewhere keep their entries; after a write the EXIF item, which belongs to the primary item if it is new, resolves to the written metadata. A write or clear that fails leaves the data as it was.",
 ["inputs", "histories"], "all HEIF files with any number of items, extents and construction methods 0 and 1, all payload sizes",
 "The sample files have few items and the tests only read EXIF back; a shifted image extent is not noticed.",
 ["src/heif/container.rs", "src/heif/boxes/item_location.rs", "src/heif/boxes/meta.rs"],
 [("offset fix-ups", "src/heif/container.rs generic_write_metadata, generic_clear_metadata")])

prop("P10", "Value codec: every component type decodes back to what was encoded",
 "For each EXIF component type and each byte order, encoding a value (or a list of values) gives exactly the standard's fixed number of bytes per component in that byte order, and decoding those bytes gives the identical value back (floats bit for bit); decoding bytes of a wrong length through the checked decoder is an error, never a panic (the unchecked decoder is only for data known to fit).",
 ["inputs"], "all values of all twelve component types, lists of any length, both byte orders, all byte strings",
 "The tests encode a handful of values, mostly little endian.",
 ["src/u8conversion.rs", "src/endian.rs", "src/exif_tag_format.rs"],
 [("codec traits", "src/u8conversion.rs U8conversion"), ("component sizes", "src/exif_tag_format.rs bytes_per_component"), ("byte order header", "src/endian.rs Endian::header")])

prop("P11", "Tag table: numbers, groups and formats are consistent for every tag",
 "For every 16-bit tag number and every tag group, looking the number up gives either an unsupported-tag error or a tag that reports exactly that number and that group (the four tags for strip and thumbnail offsets and lengths are accepted in every group and always report the generic one), and a tag rebuilt from its number, group, format and encoded data is the same tag with the same value (text without a trailing NUL). Format codes map to formats and back one-to-one, with the standard's component size for each.",
 ["inputs"], "all 65536 numbers x all groups x all formats x all values",
 "The tests touch about a dozen tags; the table has more than a hundred rows per group.",
 ["src/exif_tag/mod.rs", "src/exif_tag/decode.rs", "src/exif_tag_format.rs", "src/exif_tag/set_value_to.rs"],
 [("tag table macro", "src/exif_tag/mod.rs build_tag_enum!"), ("format exceptions", "src/exif_tag/decode.rs"), ("format codes", "src/exif_tag_format.rs")])

prop("P12", "Encoded EXIF is a valid TIFF structure",
 "Encoding any metadata produces a TIFF structure in its byte order in which the header is right, directory entries are 12 bytes with the right format code and component count, values of at most four bytes sit in the entry and larger ones at an in-bounds offset where exactly their bytes are found, no two stored areas overlap, and the next-directory links chain exactly the page directories; entries are in ascending tag order. (Metadata of up to 65535 entries per directory and below 4 GB in total; metadata without any tag is just the header.)",
 ["inputs", "histories"], "all metadata reachable through the API, both byte orders",
 "The tests only decode with the library's own reader, which shares its mistakes, for a few tags.",
 ["src/ifd/mod.rs", "src/metadata/mod.rs"],
 [("directory encoder", "src/ifd/mod.rs encode_ifd"), ("chaining", "src/metadata/mod.rs encode")])

prop("P13", "Encode then decode gives the same metadata",
 "Decoding what was encoded from any metadata gives back the same byte order, the same directories and, in each, exactly the writable tags that were set with identical values, and nothing else; encoding the decoded metadata again gives the identical bytes. This is for page directories numbered from 0 without gaps, text values not ending in NUL, strips and thumbnails with matching offset and length tags (their offsets are recomputed), Unknown tags only with a number and format that have no tag of their own; an empty value of a tag with a fixed number of components stands for that many zeros.",
 ["inputs", "histories"], "all metadata reachable through the API, both byte orders",
 "The tests round-trip a few tags per format.",
 ["src/ifd/mod.rs", "src/metadata/mod.rs", "src/exif_tag/decode.rs"],
 [("encoder", "src/ifd/mod.rs encode_ifd"), ("decoder", "src/ifd/mod.rs decode_ifd")])

prop("P14", "Decoding arbitrary EXIF bytes returns, without panic or endless loop",
 "For every byte string, decoding it as EXIF/TIFF data terminates with metadata or an error: it never panics, never overflows, never loops on self-referencing directory links, and never allocates a single buffer larger than the input (data below 4 GB).",
 ["inputs"], "all byte strings",
 "Tests feed well-formed samples; the fuzz target is not run and cannot cover all inputs.",
 ["src/ifd/mod.rs", "src/metadata/mod.rs", "src/exif_tag/decode.rs", "src/tiff/mod.rs"],
 [("directory decoder", "src/ifd/mod.rs decode_ifd"), ("header decoding", "src/metadata/mod.rs decode")])

prop("P15", "Metadata behaves as a map from tag to value under set, get and remove",
 "After setting a tag, getting it returns exactly that value and there is only one such tag; after removing it there is none; neither operation changes any other tag, and setting is last-write-wins for any sequence of operations.",
 ["histories", "inputs"], "all sequences of set/remove/get over all tags and values",
 "The tests set a few tags once; no sequences, overwrites or neighbours.",
 ["src/metadata/set.rs", "src/metadata/get.rs", "src/ifd/set.rs", "src/ifd/get.rs"],
 [("metadata set/remove", "src/metadata/set.rs"), ("directory set/remove", "src/ifd/set.rs"), ("lookup", "src/ifd/get.rs")])

prop("P16", "Directory invariants: parents exist, no duplicates, entries sorted",
 "At every point of every sequence of API calls, the metadata holds at most one directory per (kind, number), a directory exists for every kind that another one needs as its parent, and each directory's tags are in ascending tag order (a number repeats only where decoded data repeated it). Tags set through the API belong to the directory they are in; structural tags may sit in any directory.",
 ["histories"], "all sequences of API calls starting from empty or decoded metadata",
 "The tests never inspect the directory list after a sequence of operations.",
 ["src/metadata/mod.rs", "src/metadata/get.rs", "src/metadata/set.rs", "src/ifd/mod.rs", "src/ifd/set.rs"],
 [("directory creation with parents", "src/metadata/mod.rs create_ifd"), ("ordering", "src/metadata/mod.rs sort_data, src/ifd/mod.rs sort_tags")])

prop("P17", "Iterating metadata yields every tag exactly once",
 "Iterating over metadata yields each stored tag of each directory exactly once, in directory order, also when directories are empty; looking up by name or by number yields exactly the stored tags with that name or number.",
 ["histories", "inputs"], "all metadata reachable through the API",
 "The tests print the iteration without comparing; empty directories in the middle do not occur.",
 ["src/metadata/iterator.rs", "src/metadata/get.rs"],
 [("iterator", "src/metadata/iterator.rs MetadataIterator"), ("tag lookup iterator", "src/metadata/get.rs GetTagIterator")])

prop("P18", "Reducing metadata keeps exactly the structurally required tags",
 "Reducing metadata to a minimum keeps exactly the tags that describe image structure and storage, with their values unchanged, and drops every other tag (for directories in which no number is used by both a structural and an Unknown tag).",
 ["inputs"], "all metadata", "Only a small number of tags is used in tests.",
 ["src/metadata/edit.rs"], [("filter", "src/metadata/edit.rs reduce_to_a_minimum")])

prop("P19", "File types are recognised from extension and signature consistently",
 "For every path and every leading byte sequence, the extension (in any letter case) and the signature select exactly the format they denote, or are rejected; data that starts with a supported format's signature is never treated as another format.",
 ["inputs"], "all extensions, all leading 32-byte sequences and shorter",
 "The tests check seven lower-case extensions and no signatures.",
 ["src/filetype.rs"], [("signature detection", "src/filetype.rs auto_detect"), ("extension", "src/filetype.rs from_str, get_file_type")])

prop("P20", "Rational conversion from floating point is accurate and total",
 "Converting any finite float within range to a rational gives a fraction with non-zero denominator that is as close to the float as any fraction with that range of nominator and denominator (up to the conversion's tolerance of 1e-9 divided by the squared denominator, and rounding noise); integers are converted exactly, values beyond the range become its limit, the sign is kept, and the conversion never panics.",
 ["inputs"], "all finite 64-bit floats, all 32-bit integers", "The tests convert a few constants.",
 ["src/rational.rs"], [("continued fractions", "src/rational.rs")])

prop("P21", "File and in-memory operations agree",
 "For the same content and metadata, the operation on a file leaves exactly the bytes that the in-memory operation leaves in its buffer - also when the result is shorter than the old file - and reading a file gives what reading its content gives. When an operation returns an error for any other reason than the storage failing while the result is being stored, the file keeps its old content; an operation on a file that does not exist fails and creates nothing.",
 ["inputs", "histories"], "all contents, all payloads, all formats, sequences of operations",
 "The tests compare at most one tag between the two APIs and never shrink a file.",
 ["src/jpg.rs", "src/png/mod.rs", "src/jxl.rs", "src/webp/file.rs", "src/webp/vec.rs", "src/tiff/file.rs", "src/tiff/vec.rs", "src/heif/mod.rs", "src/general_file_io.rs", "src/metadata/metadata_io.rs"],
 [("file wrappers", "file_write_metadata / file_clear_metadata of each format")])

prop("P22", "Reading arbitrary container bytes returns, without panic or endless loop",
 "For every byte string (below 4 GB), every supported format and both ways of reading (from memory, from a file), reading metadata terminates with metadata or an error: no panic, no arithmetic overflow, no access out of range, no endless loop or unbounded recursion, and a length stated in the input that the input does not have never makes the process abort for lack of memory.",
 ["inputs"], "all byte strings for each of the formats",
 "Tests read intact samples only.",
 ["src/jpg.rs", "src/png/mod.rs", "src/png/text.rs", "src/jxl.rs", "src/webp/vec.rs", "src/webp/file.rs", "src/heif/container.rs", "src/heif/boxes/mod.rs", "src/tiff/vec.rs", "src/ifd/mod.rs", "src/metadata/mod.rs"],
 [("readers", "generic_read_metadata of each format"), ("decoder", "src/metadata/mod.rs decode, src/ifd/mod.rs decode_ifd")])

prop("P23", "XMP cleaning removes only EXIF-related elements",
 "Removing EXIF information from a well-formed XMP packet (as clearing the metadata of a PNG does) removes exactly the elements whose name has the prefix exif: (with everything inside of them) and the attributes whose name has it, and leaves all other elements, attributes, text, comments and declarations unchanged and in order; only a text of white space with a single line break directly behind a removed element goes as well, and attribute values may be re-quoted. An ill-formed packet is rejected with an error and never cut off or changed silently; no packet makes the call panic.",
 ["inputs"], "all XMP packets, well-formed or not", "The tests clean one packet, without nested elements, single-quoted values or malformed parts.",
 ["src/xmp.rs"], [("filter", "src/xmp.rs remove_exif_from_xmp"), ("attributes", "src/xmp.rs get_exif_filtered_event")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
