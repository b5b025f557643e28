"""Per property: what it states, and how its check is built and bounded.

gen.py writes properties.jsonl and MANIFEST.json from this."""

COMMON = [
    "Kani's model of the Rust standard library, CBMC and its SAT solver are trusted.",
    "Logging is compiled out, messages built by format!() are empty strings in the model.",
    "Readers are in memory, read all there is and are never interrupted.",
    "Bounds checks, overflow checks and panics are decided; raw pointer validity isn't "
    "(the code of these paths is safe Rust).",
]

PROPS = {}


def prop(pid, **k):
    k.setdefault("feature", pid.lower())
    k.setdefault("assumptions", [])
    k["assumptions"] = k["assumptions"] + COMMON
    PROPS[pid] = k


prop(
    "P01", hooks=["unpack"],
    title="Packed samples unpack to the values the packing documents",
    statement="Uncompressed packed raw data (10, 12 or 14 bits, big or little endian, padded or not, "
              "per the compression declared) decodes to exactly the sample values of its bit layout, row by row. "
              "The number of samples is that of the whole rows the declared length covers, and data that ends early is an error.",
    over=["inputs", "configurations"],
    text="Every content of the packed bytes, each packing, any declared byte length and any truncation, "
         "for images of one to three rows of up to 30 samples.",
    why="The tests unpack one or two fixed rows; a wrong shift or mask shows only for particular bits, and "
        "lengths and truncation aren't tested.",
    files=["src/decompress.rs"],
    mechanism=[("unpack_from_reader and the per packing unpackers", "src/decompress.rs")],
    functions=["decompress::unpack_from_reader", "decompress::unpack_be10to16", "decompress::unpack_be12to16",
               "decompress::unpack_be14to16", "decompress::unpack_le12to16"],
    bounds="Widths 2 to 30, 1 to 3 rows (at most 64 bytes), every byte symbolic; declared length symbolic 0..size+3; "
           "truncation point symbolic. Wider rows repeat the same groups and are outside.",
)
prop(
    "P02", hooks=["bits"], model_hooks=["unbuffered"],
    title="Bit readers deliver the bits of the stream, in order, and end cleanly",
    statement="Reading fields of any widths up to 16 bits from a bit stream yields exactly its consecutive bits, "
              "with JPEG stuffing removed and nothing read past a JPEG marker. "
              "Asking for more bits than there are, or than 16, is an error, never invented data.",
    over=["inputs", "histories"],
    text="Every content of the stream and every sequence of field widths, for short sequences.",
    why="The tests read one fixed stream with a few widths; refills at every alignment, stuffing at every position "
        "and the end of the data are untested.",
    files=["src/decompress/bit_reader.rs"],
    mechanism=[("BitReader implementations", "src/decompress/bit_reader.rs")],
    functions=["decompress::bit_reader::BitReaderBe32", "decompress::bit_reader::BitReaderLe32",
               "decompress::bit_reader::LJpegBitReader", "decompress::bit_reader::BitReader::consume_zerobits"],
    bounds="Streams of 4 to 12 symbolic bytes, up to 5 reads of symbolic widths 1..16 (3 for the JPEG reader on 6 bytes); "
           "zero runs up to 31 bits. Longer histories are outside.",
    assumptions=["The model reads through a transparent stand-in for std::io::BufReader (hook `unbuffered`)."],
)
prop(
    "P13", hooks=["entry"],
    title="A TIFF entry yields the value stored, or none",
    statement="A value asked from a TIFF entry is the one stored at that index in the declared byte order, "
              "and there is none when the type doesn't match, the index is not less than the count, or the entry lacks the data. "
              "An array has exactly as many values as the count, or isn't returned.",
    over=["inputs"],
    text="Every data, count, index and byte order, every type code, inline or external.",
    why="Tests read a few entries of well formed files; malformed counts, indices past the data and type mismatches "
        "only appear in hostile or damaged files.",
    files=["src/tiff/entry.rs", "src/tiff/exif.rs"],
    mechanism=[("typed value accessors", "src/tiff/entry.rs"), ("ExifValue readers", "src/tiff/exif.rs")],
    functions=["tiff::entry::Entry value accessors", "tiff::exif::ExifValue::read"],
    bounds="Data of up to 16 symbolic bytes; counts and indices over all 32 bits; types -1..14; array counts up to 9 "
           "(any count over the data for the refusal). RATIONAL quotients: 16 bit numerator, 8 bit denominator. "
           "Strings are outside (symbolic length text conversion is out of reach of the solver).",
)
prop(
    "P15", hooks=["io"],
    title="A window on a file reads that file, bounded by its end",
    statement="A view at an offset of a file reads the bytes of the file from that offset, with positions relative to it, "
              "and refuses offsets and positions before its start or past the end. "
              "Buffers and thumbnails loaded by offset and length hold the bytes of the file, and nothing that isn't in it when they go past its end.",
    over=["inputs", "histories"],
    text="Every file content, every 64 bit offset and position, seeks from start, end and current.",
    why="Tests use well formed offsets; overflowing offsets, loads that straddle the end of the file and uninitialised "
        "memory are not sampled.",
    files=["src/io.rs", "src/container.rs"],
    mechanism=[("View and Viewer", "src/io.rs"), ("RawContainer buffer loading", "src/container.rs")],
    functions=["io::Viewer", "io::View", "container::RawContainer::load_buffer8", "container::load_buffer16_endian",
               "container::RawContainer::make_thumbnail"],
    bounds="Files of 5 to 12 symbolic bytes, offsets and positions over all 64 bits, relative seeks of -20..20, "
           "loads of 3 or 4 bytes.",
)
prop(
    "P22", hooks=[],
    title="Cropping to an aspect ratio keeps the largest centred area",
    statement="AspectRatio::crop() returns the largest size of that ratio that fits in the given one, keeping one of "
              "its sides whole (the other rounded down), and crop_into() centres it inside of the rectangle, with the "
              "extra pixel of an odd margin at the end.",
    over=["inputs"],
    text="Every size from 1 to 16383 on each side, origins below 65536, with the ratios cameras use.",
    why="The tests have one sensor size; rounding differs with each size.",
    files=["src/geometry.rs"], mechanism=[("AspectRatio::crop, AspectRatio::crop_into", "src/geometry.rs")],
    functions=["geometry::AspectRatio::crop", "geometry::AspectRatio::crop_into"],
    bounds="Sides 1..16383, ratios 1:1, 3:2, 4:3, 16:9, 65:24; other ratios are outside.",
)

prop(
    "P23", hooks=[],
    title="CFA patterns are recognised exactly",
    statement="A 2x2 colour filter pattern is accepted only if it is RGGB, GBRG, BGGR or GRBG, and then its type, size "
              "and colour at each position are those of the data. A pattern of another length keeps every colour of "
              "the data, in order, and is refused if one isn't a colour.",
    over=["inputs"],
    text="Every content of patterns of 3, 4, 8 and 36 (X-Trans) elements.",
    why="The tests have three patterns; a mix up of two patterns gives wrong colours for some cameras only.",
    files=["src/mosaic.rs"], mechanism=[("Pattern::try_from, pattern, Index", "src/mosaic.rs")],
    functions=["mosaic::Pattern::try_from", "mosaic::Pattern::pattern", "mosaic::Pattern::index",
               "mosaic::Pattern::pattern_type", "mosaic::Pattern::width", "mosaic::Pattern::height"],
    bounds="Lengths 3, 4, 8 and 36, every byte symbolic.",
)

prop(
    "P24", hooks=["demosaic"],
    title="Demosaicing computes each colour from the neighbours that carry it",
    statement="For each of the four Bayer patterns, each pixel of the interpolated image has its own sensor value for "
              "the colour of its filter, the mean of the two neighbours for a colour that only two carry, and the "
              "median (mean of the middle two) of the four otherwise. The image is two pixels smaller on each side, "
              "its buffer has three samples per pixel, and an image too small or another pattern is an error.",
    over=["inputs", "configurations"],
    text="Every ordering of the values of 4x4, 5x3 and 3x5 images with the four patterns; every size up to 3x3.",
    why="The tests check one pixel of constant images; wrong neighbours or a wrong median need different values.",
    files=["src/render/demosaic.rs"], mechanism=[("bimedian, m4", "src/render/demosaic.rs")],
    functions=["render::demosaic::bimedian", "render::demosaic::m4"],
    bounds="Images of 16 or 15 samples, sample values 0..3 (as floats), which is every ordering of four values with ties; larger images repeat the same 2x2 cell.",
)

prop(
    "P25", hooks=["linearize"],
    title="Linearisation maps black to zero and white to full scale",
    statement="Rendering the linearisation stage maps each sample v of raw data to (v - black) / (white - black) of the "
              "16 bit scale, rounded, samples at or below the black level to 0 and at or above the white level to 65535.",
    over=["inputs"],
    text="Every sample value.", why="No test covers it.",
    files=["src/rawimage.rs", "src/bitmap.rs"], mechanism=[("RawImage::linearize, rendered_image", "src/rawimage.rs")],
    functions=["rawimage::RawImage::linearize", "rawimage::RawImage::rendered_image", "bitmap::ImageBuffer::into_u16"],
    bounds="One symbolic sample over all 16 bits; levels (512, 16383) and (0, 65535).",
)

prop(
    "P06", hooks=["panasonic"],
    title="Panasonic compressed chunks decode to the samples they encode",
    statement="Each 16 byte chunk of Panasonic (RW2) compressed data, in whatever place of its 0x4000 byte block (which "
              "starts in its middle, one chunk being split across its end), decodes to its 14 samples: per colour the "
              "first non zero one stored on 12 bits, the others as differences scaled by the shift of their group.",
    over=["inputs"],
    text="Every content of a chunk; the first, last, next to split, split, and next block's chunk.",
    why="The tests decode three chunks; zero runs, overflow of a difference below its base, and each shift aren't sampled.",
    files=["src/panasonic/decompress.rs"],
    mechanism=[("decode_chunk, decode_next_px, ReverseBits, block_get_chunk", "src/panasonic/decompress.rs")],
    functions=["panasonic::decompress::decode_chunk", "panasonic::decompress::decode_next_px",
               "panasonic::decompress::ReverseBits::get", "panasonic::decompress::block_get_chunk",
               "panasonic::decompress::chunk_to_offset"],
    bounds="All 128 bits of a chunk symbolic, samples 0 to 5, 12 and 13 compared; chunk indices 0, 0x1ff..0x201, 0x3ff, 0x600 of two blocks.",
)

prop(
    "P07", hooks=["pentax", "pentax_tree", "small_cache"],
    title="Pentax compressed data decodes to the samples it encodes",
    statement="Pentax (PEF) compressed data decodes to samples that are each the sum of the sign extended difference that the "
              "Huffman coded stream holds and of the previous sample of the same colour: two columns before, or two rows "
              "before for the first two. All the bytes are read, data that ends early or a size that isn't even is an error.",
    over=["inputs", "configurations"],
    text="Every content of the compressed data for small images, and every content of the codes of a small table.",
    why="No test covers the decompression.",
    files=["src/pentax/decompress.rs"],
    mechanism=[("decompress, HuffTable, BitPumpMSB", "src/pentax/decompress.rs")],
    functions=["pentax::decompress::decompress", "pentax::decompress::HuffTable", "pentax::decompress::BitPumpMSB"],
    bounds="Images 4x1, 2x3, 2x1 and 4x2 from 3, 4, 1 and 7 symbolic bytes, with a table of four codes substituted for the "
           "built in one; any table of two codes. The content of the built in table and the parsing of the one of the maker "
           "note are outside.",
    assumptions=["The decode cache is of 4 bits (hook `small_cache`), 13 in the build.",
                 "The table of four codes takes the place of the built in one (hook `pentax_tree`)."],
)

prop(
    "P08", hooks=["nikon"],
    title="Nikon compressed data decodes to the samples it encodes",
    statement="In Nikon (NEF) compressed data each difference is that of its Huffman code (12 bits lossy, 14 bits lossy, 14 "
              "bits lossless tables) and its sign extended value. A sample is the sum, modulo 2^16, of the difference "
              "and the previous sample of the same colour: two columns before, or two rows before for the first two columns, "
              "or the initial value for the first two rows. Data that ends in a code or a value is an error.",
    over=["inputs"],
    text="Each code of each table with every value; every initial value.",
    why="The tests decode one short stream of one table.",
    files=["src/nikon/diffiterator.rs", "src/nikon/huffman.rs"],
    mechanism=[("DiffIterator, CfaIterator", "src/nikon/diffiterator.rs"), ("HuffmanDecoder", "src/nikon/huffman.rs")],
    functions=["nikon::diffiterator::DiffIterator::get", "nikon::diffiterator::CfaIterator::get",
               "nikon::huffman::HuffmanDecoder::decode"],
    bounds="One code and value from 32 bits, the value bits symbolic, for each of the 44 codes; images of 12 samples, 2, 3, 4 "
           "or 6 columns, with symbolic initial values and fixed differences.",
)

prop(
    "P16", hooks=["canon", "sony"],
    title="Maker note geometry and ciphered tags are what the camera wrote",
    statement="The active area of Canon raw data is the rectangle between the borders of its SensorInfo, each side "
              "rounded up to even, and there is none if the data is short or the borders are crossed. The crop is the "
              "rectangle and the known aspect ratio of AspectInfo, none if it is short. Deciphered Sony tags are the bytes "
              "the camera ciphered (v^3 mod 249 below 249).",
    over=["inputs"],
    text="Every content of the tags.",
    why="No test feeds other values than those of the sample files; short and crossed borders aren't tested.",
    files=["src/canon.rs", "src/sony.rs"],
    mechanism=[("SensorInfo::parse, AspectInfo::parse", "src/canon.rs"), ("ArwFile::decipher", "src/sony.rs")],
    functions=["canon::SensorInfo::parse", "canon::AspectInfo::parse", "sony::ArwFile::decipher"],
    bounds="SensorInfo of 0, 8, 9, 13 values, AspectInfo of 0, 4, 5, 6 values, three ciphered bytes, all symbolic.",
)

prop(
    "P05", hooks=["tiles", "ljpeg"],
    title="Tiles and slices land where the picture has them",
    statement="Decoded tiles are assembled left to right, then top to bottom, each sample at its place, with what is past "
              "the edges of the image dropped. The place of a tile that can't be decoded or is short is zeros, the others don't move. Data "
              "of a CR2 picture in vertical slices fills each slice in turn, row by row; data in excess is ignored.",
    over=["inputs", "configurations"],
    text="Every sample value, for small images of tiles and slices that divide the image or not.",
    why="The tests have four constant tiles and one way to slice; a tile that fails or is past an edge isn't tested.",
    files=["src/decompress/tiled.rs", "src/decompress/sliced_buffer.rs", "src/decompress/ljpeg.rs"],
    mechanism=[("TiledLJpeg::combine_tiles", "src/decompress/tiled.rs"), ("SlicedBuffer", "src/decompress/sliced_buffer.rs"),
               ("LJpeg::set_slices", "src/decompress/ljpeg.rs")],
    functions=["decompress::tiled::TiledLJpeg::combine_tiles", "decompress::sliced_buffer::SlicedBuffer",
               "decompress::ljpeg::LJpeg::set_slices"],
    bounds="Images of up to 21 samples, 1 to 6 tiles of 2x2 or 3x2, 1 to 3 slices; missing, short, too few and too many tiles; "
           "data short or in excess; two slices of any width up to 5 for a width of 3.",
)

prop(
    "P03", hooks=["ljpeg", "plain_bits"], model_hooks=["code4"], array=300,
    title="Lossless JPEG data decodes to the samples it encodes",
    statement="Lossless JPEG data decodes per ITU T.81: each sample is the difference, sign extended from its category, "
              "plus the prediction of the selection value from the left, upper and upper left samples of the same component (half of "
              "the range, the left or the upper one at the start, on the first row and first column), modulo 2^16 and shifted by "
              "the point transform. A restart marker, which must be the next one modulo 8, resets the prediction.",
    over=["inputs", "configurations"],
    text="Every content of the entropy coded data for images of 3 or 4 samples, all neighbours and selection values "
         "for the prediction, all differences.",
    why="The tests decode one picture with one predictor, without point transform nor restart markers.",
    files=["src/decompress/ljpeg.rs"],
    mechanism=[("LJpeg::decode_image, decode_first_row, quick_predict, process_restart", "src/decompress/ljpeg.rs"),
               ("extend", "src/decompress/ljpeg.rs")],
    functions=["decompress::ljpeg::LJpeg::decode_image", "decompress::ljpeg::LJpeg::decode_first_row",
               "decompress::ljpeg::LJpeg::quick_predict", "decompress::ljpeg::LJpeg::process_restart",
               "decompress::ljpeg::LJpeg::pm_put_row", "decompress::ljpeg::LJpeg::huff_decoder_init", "decompress::ljpeg::extend"],
    bounds="Images 3x1 and 2x2 of one component, 2x1 and 1x2 of two, 1x2 with a restart; tables of the 16 codes of 4 bits for "
           "the categories 0 to 15, from 6 to 12 symbolic bytes. Category 16 and larger images are outside, and so are the headers.",
    assumptions=["Bits come from a plain reader (hook `plain_bits`), without JPEG stuffing: P02 decides the real reader.",
                 "The Huffman decoding of the 4 bit codes is direct in the model (hook `code4`): P04 decides the real one."],
)

prop(
    "P04", hooks=["ljpeg", "plain_bits"], array=300,
    title="Huffman codes of lossless JPEG decode to their values",
    statement="With the Huffman table of any declared code lengths, the canonical code (ITU T.81 annex C) at the start "
              "of the data decodes to the value declared for it, consumes exactly its length, and no data makes the decoder fail otherwise than with an error. "
              "More codes than a length up to 8 allows is an error.",
    over=["inputs", "configurations"],
    text="Every value of the table and every content of the data, for tables with codes from 1 to 16 bits.",
    why="The tests decode one picture with its tables; codes longer than the 8 bit lookup are rare in it.",
    files=["src/decompress/ljpeg.rs"],
    mechanism=[("HuffmanTable::fix", "src/decompress/ljpeg.rs"), ("LJpeg::huff_decode", "src/decompress/ljpeg.rs")],
    functions=["decompress::ljpeg::HuffmanTable::fix", "decompress::ljpeg::LJpeg::huff_decode"],
    bounds="Seven tables of 1 to 17 codes (all lengths from 1 to 16, with and without the short ones), every value symbolic, "
           "32 symbolic bits of data; three tables with too many codes.",
    assumptions=["Bits come from a plain reader (hook `plain_bits`), without JPEG stuffing: P02 decides the real reader."],
)

prop(
    "P09", hooks=["olympus"], model_hooks=["sequential", "bits128"], array=300,
    title="Olympus data decodes to the samples it encodes",
    statement="Packed Olympus data gives 8 samples of 12 bits, most significant first, from each 3 little endian words of 32 bits. "
              "Interlaced data has the even rows first, and the odd ones at the multiple of 2048 bytes after them, each 3 bytes "
              "being 2 samples. Compressed data (after 7 bytes) gives, per parity of the column, the samples of the adaptive code with its carries and the "
              "prediction from the left, upper and upper left samples of the same colour, as long as they fit 12 bits. Truncated compressed data is an error, and short data never a crash. "
              "The header is IIRO, IIRS (little endian), MMOR or MMSR (big endian), and nothing else.",
    over=["inputs", "configurations"],
    text="Every content of the data, for small images.",
    why="The tests decode no Olympus data but the code of one picture.",
    files=["src/olympus.rs", "src/olympus/decompress.rs"],
    mechanism=[("OrfFile::decode_12be_olympus, decode_12be_olympus_interlaced, is_magic_header", "src/olympus.rs"),
               ("decompress_olympus", "src/olympus/decompress.rs")],
    functions=["olympus::OrfFile::decode_12be_olympus", "olympus::OrfFile::decode_12be_olympus_interlaced",
               "olympus::OrfFile::is_magic_header", "olympus::decompress::decompress_olympus"],
    bounds="Packed images of up to 16 samples, interlaced ones of up to 12 with short data; compressed ones of 2x1, 4x1 with "
           "any code, 2x3, 8x1 and 4x3 with small differences.",
    assumptions=["The rows of interlaced data decode one after the other in the model (hook `sequential`): rayon gives each its own slice.",
                 "Bits of compressed data come from a plain reader of 16 bytes in the model (hook `bits128`) instead of the crate bitreader."],
)

prop(
    "P21", hooks=["minolta", "io"], model_hooks=["memory"], array=300,
    title="Blocks of a Minolta file give its geometry and white balance",
    statement="The blocks of a MRW file are found by name, in any order, in either byte order, until the length of the first one. The PRD block gives the width, "
              "height, bits per sample, whether samples are packed, and the CFA pattern; the data is after all blocks, 3 bytes for 2 packed samples, "
              "or 2 bytes each. The white balance of WBG is, for red, first green and blue, 2 to the 6 and its denominator over its nominator. Without these blocks, or cut, there is none.",
    over=["inputs", "configurations"],
    text="Every content of the blocks, in several orders.",
    why="The tests read one camera's file.",
    files=["src/minolta.rs"],
    mechanism=[("MrwContainer::load, minolta_prd, get_wb, raw_data_offset", "src/minolta.rs"), ("DataBlock", "src/minolta.rs")],
    functions=["minolta::MrwContainer::load", "minolta::MrwContainer::minolta_prd", "minolta::MrwContainer::get_wb",
               "minolta::MrwContainer::raw_data_offset", "minolta::RawInfo::data_len", "minolta::DataBlock"],
    bounds="Files of up to 76 bytes with 1 to 3 blocks of 0 to 24 bytes, whose contents are symbolic; 24 bytes of anything "
           "for the absence of crashes. The version string is fixed, the TTW block is outside (it is TIFF).",
)

prop(
    "P27", hooks=["metadata"], array=300,
    title="Metadata values carry the values of their TIFF entries",
    statement="The metadata value of a TIFF entry is of the kind of its type (bytes for BYTE and UNDEFINED, unsigned integers for SHORT and LONG, "
              "signed ones for SSHORT and SLONG, rationals, signed bytes, floats, doubles) and has exactly its count of values, in order, per the byte order. Of an unknown type, or "
              "without the data for its count, it is Invalid and has the bytes of the entry. integer() and rational() are the first value of that kind, or none.",
    over=["inputs", "configurations"],
    text="Every content of the data of each type, both byte orders.",
    why="The tests have two values and no entry without data.",
    files=["src/tiff/iterator.rs", "src/metadata.rs"],
    mechanism=[("from_entry", "src/tiff/iterator.rs"), ("Value::count, integer, rational", "src/metadata.rs")],
    functions=["tiff::iterator::from_entry", "metadata::Value::count", "metadata::Value::integer", "metadata::Value::rational",
               "tiff::entry::Entry::value_array", "tiff::entry::Entry::uint_value_array", "tiff::entry::Entry::int_value_array"],
    bounds="Counts of 0 to 6 (and 2^32 - 1), data of up to 16 bytes, every type but ASCII, whose text is outside.",
)
