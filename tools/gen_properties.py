#!/usr/bin/env python3
"""Generates properties.jsonl (kept as source so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=observe, hook_needed=None)))

ALLC = ["src/jpg.rs","src/png/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/jxl.rs","src/heif/container.rs","src/tiff/vec.rs","src/tiff/file.rs"]

prop("C01","Reading metadata from any bytes never crashes, hangs or exhausts memory",
 "For every byte sequence, of every supported file type (claimed or detected) and through both the in-memory and the path API, reading metadata returns a value or an error: it never panics, overflows, recurses without bound, loops forever, or allocates memory out of proportion to the input (beyond what decompressing the input's own compressed metadata needs). Every tag, iterator and accessor of a successfully read metadata object can then be used, and re-encoded, equally safely.",
 ["inputs"],"all byte strings x all six container formats, including truncations, contradictory lengths, cyclic or duplicated directories, and damaged compressed or XML text",
 "The tests read about twenty well-formed sample images; the quantifier is every byte string. The fuzz targets in the repository carry no corpus, oracle or schedule and are not part of the tests.",
 ALLC+["src/ifd/mod.rs","src/metadata/mod.rs","src/png/text.rs","src/exif_tag/decode.rs","src/heif/boxes/item_location.rs"],
 [("bounds checks before slicing; errors instead of panics","src/ifd/mod.rs decode_ifd, src/png/mod.rs, src/jpg.rs, src/jxl.rs, src/webp, src/heif"),("checked size arithmetic","src/ifd/mod.rs, src/heif/boxes")],
 ["Metadata::new_from_vec","Metadata::new_from_path","Metadata::encode"])

prop("C02","Writing to or clearing any target never crashes, hangs or exhausts memory",
 "For every target byte sequence, every supported file type and every metadata object built through the public API, writing metadata and clearing metadata (including the JPEG APP12/APP13 clearing) through the in-memory and path APIs returns success or an error: no panic, arithmetic overflow, endless loop or disproportionate allocation.",
 ["inputs","histories"],"all target byte strings x all metadata values x all mutating operations, also applied one after the other to the same buffer",
 "The tests write into well-formed samples with one or two tags; damaged or odd targets and extreme metadata (no IFD, empty values, values too big for the container) are never used as the target of a write or clear.",
 ALLC+["src/metadata/metadata_io.rs","src/util.rs","src/ifd/mod.rs"],
 [("size checks before writing","src/jpg.rs encode_metadata_jpg, src/tiff/mod.rs, src/webp, src/heif/container.rs")],
 ["Metadata::write_to_vec","Metadata::write_to_file","Metadata::clear_metadata","Metadata::file_clear_metadata","Metadata::clear_app12_segment","Metadata::clear_app13_segment"])

prop("C03","Written tags are read back identically from every container",
 "After a successful write of a metadata object into an image of any supported format, reading that image returns exactly the writable tags of that object: the same directories, the same tag numbers, formats and component counts, and bit-identical values, in the same byte order. Nothing is lost, altered, duplicated or invented; this holds for known and unknown tags of every format, any value length, any combination of directories, and whatever EXIF the image contained before. Writing into a well-formed image succeeds, except for the documented limits: EXIF beyond the 64 KiB of a JPEG segment, a TIFF without its required tags or with image data kept in tiles or SubIFDs, a HEIF construct reported as unsupported.",
 ["inputs","histories"],"all tag sets (every known tag, unknown tags of all 12 formats, inline and out-of-line lengths, both byte orders, all directories) x six containers x prior EXIF present or absent",
 "Tests round-trip a handful of tags (ImageDescription, ISO, ...) in one fixed image per format; value boundaries (0, 4, 5 bytes, odd lengths, segment limits), byte order big, GPS/Interop/second directories and combinations are not covered.",
 ALLC+["src/ifd/mod.rs","src/metadata/mod.rs","src/u8conversion.rs"],
 [("recursive directory encoder with offset bookkeeping","src/ifd/mod.rs encode_ifd"),("directory decoder","src/ifd/mod.rs decode_ifd"),("per-container embedding","src/{jpg,jxl}.rs, src/{png,webp,heif,tiff}/")],
 ["Metadata::write_to_vec then Metadata::new_from_vec","Metadata::write_to_file then Metadata::new_from_path"])

prop("C04","Writing metadata changes nothing in the image but its EXIF",
 "A successful write leaves every other part of the image as it was: all JPEG segments and entropy-coded data, PNG chunks, WebP chunks, JXL boxes or codestream and HEIF boxes that do not carry EXIF appear in the output with identical bytes, in the same relative order, exactly once, and nothing after or between them is lost. Only size and position bookkeeping that the container format requires may differ.",
 ["inputs"],"all well-formed images (any segment, chunk or box sequence, with unknown types, padding, trailing data, several EXIF-like neighbours) x all metadata",
 "Tests compare only that the tag can be read back; none compares the rest of the file before and after, and the samples contain few chunk kinds in one order.",
 ["src/jpg.rs","src/png/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/jxl.rs","src/heif/container.rs","src/util.rs"],
 [("remove range then insert range","src/util.rs insert_multiple_at, range_remove, range_file_remove"),("clear then insert at computed position","src/jpg.rs, src/png/mod.rs, src/jxl.rs, src/webp, src/heif/container.rs")],
 ["image bytes before and after write, compared by independent container parsers"])

prop("C05","Clearing removes all EXIF, and only EXIF, and is idempotent",
 "After metadata has been cleared successfully, no EXIF carrier that the library would have read or written remains in the image (for TIFF: only the tags needed to interpret the image remain), every other part of the image is byte-identical and in order, and clearing again changes nothing. Clearing an image that carries no metadata succeeds and leaves it unchanged.",
 ["inputs","histories"],"all well-formed images with zero, one or several EXIF carriers in any legal position and representation x six containers",
 "Tests clear one sample per format carrying at most one EXIF block and check that a re-read fails; duplicates, other positions, compressed carriers and byte-level preservation are untested.",
 ["src/jpg.rs","src/png/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/jxl.rs","src/heif/container.rs","src/tiff/vec.rs","src/metadata/edit.rs"],
 [("scan and delete all EXIF carriers","clear_metadata in each container module"),("minimum tag set for TIFF","src/metadata/edit.rs reduce_to_a_minimum")],
 ["Metadata::clear_metadata","Metadata::file_clear_metadata","independent EXIF-carrier scan of the result"])

prop("C06","Every written or cleared image is a well-formed file of its format",
 "The output of a successful write or clear on a well-formed image is again well-formed for its container: lengths and checksums of all PNG chunks, JPEG segment lengths and marker order, RIFF and chunk sizes with even padding, the WebP feature flags and canvas size matching the image data, JXL and HEIF box sizes nesting and ending exactly at the end of the file, and a TIFF header whose directories are in range.",
 ["inputs"],"all well-formed images x all metadata x write and clear x vector and path API",
 "Tests read the output back only with the same library, which tolerates wrong checksums, sizes, flags and dimensions; no independent format check exists.",
 ["src/png/mod.rs","src/png/chunk.rs","src/webp/vec.rs","src/webp/file.rs","src/webp/riff_chunk.rs","src/jpg.rs","src/jxl.rs","src/heif/container.rs","src/heif/box_header.rs"],
 [("CRC computation","src/png/mod.rs"),("RIFF size update, VP8X creation and flag update","src/webp/vec.rs, src/webp/file.rs"),("box length recomputation","src/heif")],
 ["output bytes, checked by independent strict container parsers"])

prop("C07","Encoded metadata is a structurally valid TIFF/EXIF block",
 "Whatever tags a metadata object holds, its encoding is a valid TIFF structure: right byte-order mark and header, every directory has a truthful entry count, entries in strictly ascending tag order without duplicates, legal formats and true component counts, every value or sub-directory offset even, inside the block and not overlapping another value or directory, offset entries and next-directory links leading to exactly the directories that exist, and text values NUL-terminated.",
 ["inputs","histories"],"all metadata objects reachable through the public API (set, remove, directory creation, reading foreign files)",
 "Tests never look at the encoded bytes structurally; the library's own reader accepts unsorted, overlapping or mis-linked directories.",
 ["src/ifd/mod.rs","src/metadata/mod.rs"],
 [("encode_ifd offset bookkeeping and alignment","src/ifd/mod.rs encode_ifd"),("sub-directory offset tag synthesis","src/metadata/mod.rs encode"),("tag ordering","src/ifd/mod.rs sort_tags")],
 ["Metadata::encode","Metadata::as_u8_vec"],
 [("current_offset","running absolute offset of the next out-of-line value","src/ifd/mod.rs encode_ifd")])

prop("C08","Foreign EXIF is decoded to the values the specification assigns",
 "For any well-formed EXIF/TIFF block, whoever wrote it and however it is laid out (either byte order, values inline or at any offset, directories in any position, unsorted entries, sub-directories, several chained directories), reading yields exactly the tags present with the values defined by their recorded format; a known tag recorded in a convertible format (8/16/32-bit integers, unsigned for signed rationals within the signed range, text for the two GPS exceptions) yields the numerically same value in the tag's own format or, where an integer does not fit that, an error, and text is the recorded text without its terminator. Data that does not begin with a byte order mark and the number 42 in that order is refused.",
 ["inputs"],"all well-formed TIFF structures x layouts x byte orders x tag formats",
 "Tests decode a few camera files and compare one or two tags; layouts the encoder never produces and format conversions are sampled by single issue files.",
 ["src/ifd/mod.rs","src/exif_tag/decode.rs","src/exif_tag/mod.rs","src/u8conversion.rs","src/exif_tag_format.rs","src/metadata/mod.rs"],
 [("decode_ifd","src/ifd/mod.rs"),("decode_tag_with_format_exceptions","src/exif_tag/decode.rs")],
 ["Metadata::new_from_vec compared with an independent decoder"])

prop("C09","Path-based operations have the same effect as in-memory operations",
 "For every image and metadata object, reading, writing, clearing metadata and clearing APP12/APP13 through a file path succeeds or fails exactly when the in-memory operation does, yields the same metadata, and leaves in the file exactly the bytes the in-memory operation leaves in the buffer (no stale trailing bytes, no missing bytes), whether the result is shorter or longer than the original.",
 ["inputs","histories"],"all images of six formats (well-formed and damaged) x all operations x sequences of operations growing and shrinking the file",
 "Most formats have two separate implementations (file.rs/vec.rs, file_* functions); tests exercise each on its own and never compare the results; shrinking files is not tested.",
 ["src/webp/file.rs","src/webp/vec.rs","src/tiff/file.rs","src/tiff/vec.rs","src/jpg.rs","src/jxl.rs","src/png/mod.rs","src/heif/mod.rs","src/util.rs"],
 [("duplicate file and vector implementations; truncation of the rewritten file","src/*/file.rs, file_* functions")],
 ["Metadata::write_to_file vs write_to_vec","Metadata::file_clear_metadata vs clear_metadata","Metadata::new_from_path vs new_from_vec","file_clear_app12/13_segment vs clear_app12/13_segment"])

prop("C10","In-memory edits behave like a keyed map of directories",
 "For every history of set, remove, directory creation, directory access, minimum reduction and lookups, a metadata object behaves like a map from (directory kind, directory number, tag number) to the last value set: a set value is found, replaced not duplicated, removed values are gone, other tags are never affected, lookups by tag or by number and group agree with iteration, directories and their tags are enumerated in order, and parent directories exist for every sub-directory created. The encoding depends on that content only, however often the object or a clone of it was encoded or edited before.",
 ["histories"],"all finite sequences of edits and lookups over all groups, directory numbers and tags",
 "Tests use at most two or three edits in a fixed order, all on the first directory.",
 ["src/metadata/set.rs","src/metadata/get.rs","src/metadata/edit.rs","src/metadata/iterator.rs","src/metadata/mod.rs","src/ifd/set.rs","src/ifd/get.rs"],
 [("retain-push-sort","src/ifd/set.rs"),("create_ifd with parents, sort_data","src/metadata/mod.rs"),("iterators","src/metadata/get.rs, src/metadata/iterator.rs")],
 ["Metadata::set_tag","Metadata::remove_tag","Metadata::get_tag","Metadata::get_tag_by_hex","Metadata::get_ifds","IntoIterator for &Metadata"])

prop("C11","Repeated writes replace: last write wins and nothing accumulates",
 "After any sequence of writes and clears on one image, the image carries exactly the metadata of the last write (none after a clear, or for HEIF and TIFF only what a clear keeps), in exactly one EXIF carrier; the result is byte-identical to performing only that last write on the cleared image (for HEIF and TIFF, whose layout keeps a carrier: equal in every part, the carrier and the length), and writing the same metadata again changes nothing, so the file never grows by repetition.",
 ["histories"],"all sequences of writes and clears with differing metadata sizes on images of six formats",
 "Tests perform at most two writes and check one tag; accumulation of stale carriers, sizes or references over longer histories is unseen.",
 ["src/jpg.rs","src/png/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/jxl.rs","src/heif/container.rs","src/tiff/vec.rs"],
 [("clear before insert","write_metadata in each container module")],
 ["buffer after each step of a history; independent count of EXIF carriers"])

prop("C12","Number to rational conversion is accurate, sign-correct and total",
 "Converting any number to an unsigned or signed EXIF rational never panics; for finite values within the range of the target the resulting fraction has the right sign, is in lowest terms and differs from the number by no more than the documented tolerance or the precision a 32-bit fraction can offer, integers are exact, and out-of-range values saturate without changing sign; converting a rational back gives its quotient, so a rational taken through floating point and back denotes the same number within that tolerance.",
 ["inputs"],"all 64-bit floats, 32-bit integers and rationals",
 "A few unit tests convert selected constants; the quantifier is all floats, with the overflow and sign edges near 2^31 and 2^32, tiny values and NaN.",
 ["src/rational.rs"],
 [("continued fraction expansion with overflow guard","src/rational.rs f64_to_rational64u"),("sign handling","src/rational.rs f64_to_rational64s")],
 ["From<f64>/From<u32>/From<i32> for uR64/iR64","From<uR64>/From<iR64> for f64/u32/i32"])

prop("C13","Value/byte conversion is exact and honours byte order",
 "For every value of every tag format, conversion to bytes yields the specification's byte image in the requested byte order, the reverse conversion restores the identical value (bit-identical for floats and rationals), the two byte orders are exact element-wise mirrors, and byte strings whose length does not fit the type are rejected with an error; format codes and sizes, and tag number/group/format tables, are consistent with each other.",
 ["inputs"],"all values and lengths of all twelve formats, both byte orders, all 65536 tag numbers in all four groups (enumerated)",
 "Unit tests convert a handful of constants; the tables of about 170 tags and per-type byte images are not cross-checked.",
 ["src/u8conversion.rs","src/exif_tag_format.rs","src/exif_tag/mod.rs"],
 [("build_u8conversion / build_vec_u8conversion","src/u8conversion.rs"),("build_tag_enum","src/exif_tag/mod.rs")],
 ["U8conversion::to_u8_vec/from_u8_vec_res","ExifTag::from_u16, from_u16_with_data, value_as_u8_vec, format, get_group, as_u16"])

prop("C14","TIFF pages, strips and thumbnails survive metadata editing",
 "Writing edited metadata to a TIFF (or re-encoding metadata that carries a thumbnail) keeps every page in order with its own tags, and the strip and thumbnail bytes reachable through the rewritten offsets are exactly the original bytes with the original lengths; clearing a TIFF keeps all of that and every tag needed to interpret the image; a TIFF holding image data the library cannot carry over (tiles, SubIFD images) is refused unchanged rather than destroyed, and so is metadata that lacks a field a TIFF needs to locate and decode its pixels.",
 ["inputs","histories"],"all strip-based TIFFs (any number of pages and strips, 16- or 32-bit offsets, both byte orders, odd strip lengths) and thumbnails x edits",
 "The TIFF tests use one single-page sample and check one tag; pixel data, several pages and thumbnails are never compared.",
 ["src/tiff/mod.rs","src/tiff/vec.rs","src/tiff/file.rs","src/ifd/mod.rs","src/metadata/edit.rs"],
 [("strip data carried in the tag and re-laid out","src/ifd/mod.rs encode_ifd/decode_ifd"),("required tag check","src/tiff/mod.rs")],
 ["pixel bytes resolved through an independent TIFF walk before and after"])

prop("C15","Clearing APP12/APP13 removes exactly those JPEG segments",
 "Clearing the APP12 (or APP13) segment of a JPEG removes every such segment outside the compressed data and nothing else: all other segments, in particular EXIF, and the compressed image data including bytes that look like such markers, remain byte-identical and in order; a second clear changes nothing and non-JPEG types are refused without touching the data.",
 ["inputs"],"all JPEGs with any number, order and size of APPn segments, scans and trailing bytes",
 "Tests use one sample image with one such segment.",
 ["src/jpg.rs","src/metadata/metadata_io.rs"],
 [("clear_segment","src/jpg.rs")],
 ["Metadata::clear_app12_segment","Metadata::clear_app13_segment","Metadata::file_clear_app12_segment","Metadata::file_clear_app13_segment"])

prop("C16","PNG text and XMP content survives except for EXIF properties",
 "Writing or clearing EXIF in a PNG leaves every textual chunk that is not an EXIF carrier byte-identical, and a well-formed XMP packet loses exactly its EXIF (exif:-prefixed) properties: all other elements, attributes, text and their order remain, the packet stays well-formed XML in a chunk of the same kind with the same keyword and language fields; a packet without EXIF properties, with malformed nesting, or that cannot be read, stays byte-identical.",
 ["inputs"],"all PNGs with any tEXt/zTXt/iTXt chunks and XMP packets, compressed or not",
 "One unit test strips one XMP string; chunk re-encoding (compressed variants, language fields) and unparsable XMP are not exercised.",
 ["src/png/mod.rs","src/png/text.rs","src/xmp.rs"],
 [("remove_exif_from_xmp","src/xmp.rs"),("construct_similar_with_new_data","src/png/text.rs")],
 ["PNG text chunks and XMP events before and after, via an independent chunk parser"])

prop("C17","File type detection agrees with the format's signature and extension",
 "Content detection returns the format whose published signature the data starts with and nothing else, never panics, and does not depend on later bytes; a path is classified by its extension regardless of letter case; reading by path gives content precedence over a wrong extension; unknown types, missing files and missing extensions yield errors, never a guess that modifies the file.",
 ["inputs"],"all leading byte strings, all extensions in any letter case, all content/extension mismatches",
 "One table test maps seven extensions; content detection is only exercised through the samples.",
 ["src/filetype.rs","src/metadata/metadata_io.rs"],
 [("auto_detect","src/filetype.rs"),("get_file_type","src/filetype.rs")],
 ["FileExtension::auto_detect","FileExtension::from_str","get_file_type","Metadata::new_from_path"])

prop("C18","The exported container fragment is what a write embeds",
 "For the formats that support exporting metadata as a container-specific byte fragment, the fragment is well-formed on its own (marker and length, chunk length and checksum, padding, EXIF header) and contains exactly the encoded metadata; it equals the carrier that a write of the same metadata embeds in an image, and formats without support report an error.",
 ["inputs"],"all metadata objects x all file types (including both PNG representations)",
 "Tests call this function on one or two tags without comparing it with an embedded carrier.",
 ["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/webp/mod.rs","src/heif/mod.rs"],
 [("as_u8_vec per format","src/jpg.rs, src/png/mod.rs, src/webp/mod.rs, src/heif/mod.rs")],
 ["Metadata::as_u8_vec compared with the carrier located by an independent parser"])

prop("C19","A failed operation leaves the image untouched, and reading never modifies it",
 "Whenever a write or clear returns an error, the buffer or file holds exactly the bytes it held before the call; reading metadata, successful or not, never changes a file's content and needs no write permission, and no operation creates, deletes or alters any other file.",
 ["inputs","fault_sequences"],"all failing inputs (damaged images, wrong type, metadata too large for the container, missing mandatory tags, unwritable files) x all mutating operations",
 "The tests check only that an error is returned, never the state of the image afterwards.",
 ALLC+["src/metadata/metadata_io.rs","src/general_file_io.rs"],
 [("validate and build the new image before touching the target","write_metadata/clear_metadata in each container module")],
 ["buffer or file bytes before and after a failing call; directory listing"])

prop("C20","HEIF/AVIF items keep their bytes, locations and relations",
 "After writing or clearing metadata in a HEIF/AVIF file, every item other than the EXIF item resolves, through the rewritten location table, to exactly the bytes it had before, with its identity, type, names, references, properties and the primary item unchanged, wherever the media data lies (before or after the metadata box, in its internal data area, in several extents, 0/4/8-byte fields); the chunk offsets of image-sequence tracks likewise; the written EXIF data is in exactly one item that is declared, located and linked to the primary item once and overlaps no other, and clearing leaves, of the tags present, exactly those needed to display the image (orientation and resolution), with their values.",
 ["inputs","histories"],"all well-formed HEIF/AVIF layouts (table versions, field widths, construction methods, box orders, item counts) x writes and clears",
 "Tests write to two AVIF samples with one layout and check one tag; an image whose item offsets were shifted wrongly would still pass.",
 ["src/heif/container.rs","src/heif/boxes/item_location.rs","src/heif/boxes/item_info.rs","src/heif/boxes/item_reference.rs","src/heif/boxes/meta.rs"],
 [("location table shift by the size difference","src/heif/boxes/item_location.rs add_to_extents"),("EXIF item creation and reference","src/heif/container.rs")],
 ["item payloads resolved by an independent HEIF parser before and after"],
 [("iloc extents","absolute or idat-relative position of every item","src/heif/boxes/item_location.rs")])

prop("C21","Existing EXIF is found in every carrier its container allows",
 "If a well-formed image carries EXIF in a way the format defines and the library supports (a JPEG APP1 EXIF segment at any position among the header segments and beside XMP segments, a PNG EXIF chunk or raw-profile text chunk at any position, a WebP EXIF chunk with or without the EXIF prefix, a JXL plain or compressed EXIF box, a HEIF EXIF item wherever its data lies, a TIFF of either byte order), reading returns that EXIF; if an image carries none, reading reports so instead of misinterpreting other data.",
 ["inputs"],"all well-formed images of six formats x position and representation of the carrier x surrounding segments, chunks or boxes",
 "The samples carry EXIF in one usual position each.",
 ["src/jpg.rs","src/png/mod.rs","src/png/read.rs","src/webp/vec.rs","src/webp/file.rs","src/jxl.rs","src/heif/container.rs","src/heif/mod.rs"],
 [("carrier scan","read_metadata in each container module")],
 ["Metadata::new_from_vec","Metadata::new_from_path"])

prop("C22","A read-edit-write cycle changes only what was edited",
 "Metadata read from any image carrying EXIF, whoever wrote it, can be edited tag by tag and written back into the same image or into any other image of any supported format: afterwards the image holds exactly the tags it held (or the source held) before, with the same directories, formats, values, byte order, thumbnail and strip data, except for the edits; this also holds over several such hops across formats. Only tags declared non-writable are dropped.",
 ["inputs","histories"],"all foreign EXIF blocks x all edits x all sequences of source and target formats",
 "Tests set one tag in a fixed sample and look only at that tag; that the tags nobody touched survive, with thumbnails and other directories, and across formats, is not tested.",
 ["src/metadata/metadata_io.rs","src/metadata/mod.rs","src/metadata/edit.rs","src/metadata/set.rs","src/ifd/mod.rs","src/exif_tag/decode.rs"]+ALLC,
 [("decode to a tag list, edit, re-encode","src/ifd/mod.rs decode_ifd/encode_ifd, src/metadata/mod.rs"),("thumbnail and strip data carried inside the offset tags","src/ifd/mod.rs")],
 ["Metadata::new_from_vec/new_from_path, set_tag/remove_tag, write_to_vec/write_to_file; the carrier located and decoded independently"])

prop("C23","Operations are deterministic, independent and leave no residue",
 "The outcome of every operation (bytes written, metadata returned, or error) depends only on its arguments and the file it is given: repeating it, doing it after any history of other operations, at the same time as other operations on other images in other threads, or through another spelling of the path gives the same outcome; and no operation retains memory, open files, threads or temporary files once its result is dropped.",
 ["inputs","histories","schedules"],"all operations x all histories of preceding operations x concurrent operations on other data",
 "Tests run every operation once, in one order; hidden shared state, hash-order dependence, fixed temporary names or leaks would go unnoticed.",
 ["src/metadata/metadata_io.rs","src/metadata/mod.rs","src/general_file_io.rs"]+ALLC,
 [("no shared mutable state; files opened per operation","src/general_file_io.rs open_read_file/open_write_file"),("ordered collections decide the output","src/metadata/mod.rs, src/ifd/mod.rs")],
 ["every public read, write, clear, encode and export entry point, executed repeatedly, after histories and in parallel threads"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
