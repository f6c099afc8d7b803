"""writes properties.jsonl (and validates it against the schema)"""
import json, sys

P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            **({"observe_at": observe} if observe else {}),
            **({"state": [dict(zip(("name", "meaning", "where"), s)) for s in state]} if state else {}),
            "hook_needed": None,
        },
    })


prop(
    "C01", "Objects load lazily, once, and every access path agrees",
    "Opening a product loads no data objects: the product lists its objects, in label order, and an object is materialised the first time it is asked for, whichever of item access, attribute access or an explicit load is used, and all of these then give the same object. Explicitly loading an object again is an error unless a reload is requested, asking for a name the product does not have is an error, and 'load everything' loads exactly the objects that are not yet loaded and are not mere descriptions. At every point the product's lists of all, loaded and unloaded objects are consistent with what has been accessed.",
    ["histories"], "every sequence of accesses, loads, reloads, deletions and listings over every set of objects in a product",
    "The tests touch one object by one path each; the guarantee is over all interleavings of access paths, reloads and failures.",
    ["pdr/pdr.py"],
    [("Data.load/_load_one", "pdr/pdr.py"), ("Data.__getattr__/__getitem__", "pdr/pdr.py"), ("Data.unloaded/keys", "pdr/pdr.py")],
    ["pdr.read", "Data.load", "Data.__getitem__", "Data.keys", "Data.unloaded"],
    [("index", "ordered object names", "pdr/pdr.py"), ("loaded attributes", "objects already materialised", "pdr/pdr.py")],
)
prop(
    "C02", "An object's value does not depend on load order or on other objects",
    "The value obtained for an object depends only on the product's files: it is the same whichever other objects were loaded before it, however often it is reloaded, whatever the caller did to previously returned data objects, and whichever of the product's files was used to open it. Loading, scaling or dumping never changes the product's files.",
    ["histories"], "every order of loading, reloading, scaling and in-place modification of any subset of objects of multi-object products",
    "Tests load one object of a product in isolation and never compare orders.",
    ["pdr/pdr.py", "pdr/loaders/queries.py", "pdr/parselabel/pds3.py"],
    [("per-load softquery pipeline", "pdr/loaders/datawrap.py"), ("metadata block lookup", "pdr/pdr.py")],
    ["Data.load", "Data.__getitem__", "file hashes"],
)
prop(
    "C03", "A broken object degrades to a warning and never harms the others",
    "If an object of a PDS3 product has a missing data file, an image truncated on disk, an unsupported type, or a malformed or incomplete definition, then outside debug mode asking for it issues a warning, raises nothing, and yields the object's metadata definition instead of data; every other object of the product still loads correctly. In debug mode a missing data file is raised to the caller as FileNotFoundError, and any other failure still degrades while the underlying error is recorded for that object.",
    ["fault_sequences"], "every assignment of fault kinds to the objects of a product, every access order, debug on and off",
    "No test injects a fault into one object and checks the others.",
    ["pdr/pdr.py", "pdr/loaders/datawrap.py", "pdr/loaders/dispatch.py"],
    [("load error handling and default return", "pdr/pdr.py")],
    ["Data.load", "warnings"],
)
prop(
    "C04", "The right label is found and the product is read by the right standard",
    "Opening a product by its label, by its data file, or by a data file plus an explicitly given label identifies the same product: an explicitly given label always wins; otherwise a detached label beside the file with the same stem (extension matched case-insensitively, XML before PDS3 labels) is used; otherwise the file itself is read as its own label, as a FITS file or as a desktop image according to its kind. The label's kind decides whether the product is interpreted as PDS3, PDS4, FITS or desktop format, and a binary file with no usable label is reported as an error rather than silently misread.",
    ["configurations"], "every combination of data file kind, sibling files, extension case, explicit label argument and primary-format flags",
    "Tests cover a couple of fixed layouts; precedence matters only when several candidates coexist.",
    ["pdr/pdr.py", "pdr/utils.py", "pdr/parselabel/utils.py"],
    [("associate_label_file", "pdr/utils.py"), ("Data.__init__ format classification", "pdr/pdr.py")],
    ["Data.standard", "Data.labelname", "Data.filename"],
)
prop(
    "C05", "Pointed-to files are found whatever their case or compression suffix",
    "A file named in a label is looked for beside the product first and then in each user-supplied search path in order; an exact name match in a directory is preferred, otherwise a match differing only in letter case is used, and a file that only exists with a compression suffix is found under that name. The path an object is read from is reported for that object, names that resolve nowhere are reported as missing, and a pointer listing several files maps all of them.",
    ["configurations"], "every directory content (name cases, compressed variants, search paths) and every file name list",
    "Tests run on one directory with one exact-case file.",
    ["pdr/utils.py", "pdr/pdr.py"],
    [("check_cases", "pdr/utils.py"), ("get_absolute_paths / _target_path", "pdr/pdr.py")],
    ["Data.file_mapping", "loaded values"],
)
prop(
    "C06", "Label structure survives parsing: nesting, order and duplicates",
    "Parsing a PDS3 label keeps every assignment statement, in order, at the nesting level its OBJECT and GROUP delimiters give it, with repeated keywords and repeated blocks all retained; values written over several lines belong to their keyword, their lines joined by spaces; one-line comments, blank lines, indentation, line endings (CRLF or LF) and the spelling of delimiters do not affect the result. END delimiters with or without names close the innermost block, a delimiter that closes nothing is ignored, and a label that ends with blocks still open is reported by a warning.",
    ["programs"], "every well-formed label text (nesting, duplicates, continuation lines, comments, delimiter spellings) and delimiter mistakes",
    "Tests parse three fixed labels and look at a handful of keys.",
    ["pdr/parselabel/pds3.py"],
    [("BlockParser", "pdr/parselabel/pds3.py"), ("chunk_statements/parse_pvl", "pdr/parselabel/pds3.py")],
    ["Data.metadata", "Data.metaget", "read_pvl"],
)
prop(
    "C07", "Label values become the Python values they denote",
    "Every PDS3 label value is converted to the value it denotes: decimal integers (any sign), reals including exponents, based integers, quoted and unquoted text, N/A-style symbols, dates and times as text, sequences and sets of these (nested, over one or more lines) in order, and numbers with units as a value/units pair. A sequence of a single element may be given as that element. A value that does not parse as anything else is kept as its literal text, never lost.",
    ["inputs"], "every literal of the PVL grammar, in scalar, sequence, set and quantity contexts",
    "Tests check a few literals; the grammar is unbounded and literals interact (signs, exponents, units, quotes).",
    ["pdr/parselabel/pds3.py"],
    [("literalize_pvl / literalize_pvl_block", "pdr/parselabel/pds3.py"), ("multidict_dig_and_edit", "pdr/parselabel/pds3.py")],
    ["Data.metadata", "Data.metaget"],
)
prop(
    "C08", "Repeated object names are numbered and keep their own definitions",
    "If several pointers or objects in a label share a name, every one of them is listed under a distinct numbered name, numbered in label order, and each numbered name gives the data located by its own pointer interpreted with its own definition. Names that occur once are not changed.",
    ["inputs"], "every multiset of object names with distinct pointers and definitions",
    "No test has a label with repeated objects.",
    ["pdr/pdr.py", "pdr/parselabel/pds3.py"],
    [("index_duplicate_pointers", "pdr/parselabel/pds3.py"), ("Data._find_objects", "pdr/pdr.py")],
    ["Data.keys", "Data.__getitem__"],
)
prop(
    "C09", "Metadata lookup finds the outermost value and honours the default",
    "Looking a keyword up in a product's metadata returns its value at the outermost level when it occurs there, and otherwise its first occurrence in label order, a block's own items coming before those of the blocks nested in it; it warns when the keyword is ambiguous (where the lookup is asked to warn), and returns exactly the caller's default, of any type, when it is absent. Looking up a block returns the mapping of that name, or nothing if there is none; repeated lookups always agree with each other, whatever was looked up in between.",
    ["histories"], "every metadata tree and every sequence of lookups with arbitrary defaults",
    "Tests do two lookups on one label; caching makes earlier lookups able to affect later ones.",
    ["pdr/pdr.py"],
    [("Metadata.metaget/metablock and their cache", "pdr/pdr.py")],
    ["Data.metaget", "Data.metablock", "Data.metaget_", "Data.metablock_"],
)
prop(
    "C10", "An attached label is separated exactly from the data that follows it",
    "When a PDS3 label is stored at the start of its data file, the label read is exactly the text up to and including its END statement, whatever bytes follow it (including binary data that looks like label text) and whatever its size up to the label size limit; the same product with the label detached gives the same metadata and data.",
    ["inputs"], "every label length, END spelling, padding and trailing byte sequence",
    "Tests use one detached label; boundary positions relative to read chunks are never hit.",
    ["pdr/parselabel/utils.py", "pdr/parselabel/pds3.py"],
    [("trim_label / _scan_to_end_of_label", "pdr/parselabel/utils.py")],
    ["Data.LABEL", "Data.metadata"],
)
prop(
    "C11", "A pointer resolves to the stated byte of the stated file",
    "An object is read from the file named by its pointer (or from the file the label is attached to when none is named) starting at the location the pointer states: record numbers count from one in units of the record size that applies to that object, byte locations count from one, and a pointer with only a file name means the beginning of the file.",
    ["inputs"], "every pointer form, record size (product-level or object-level), position and file layout",
    "Tests use pointers to the first byte only.",
    ["pdr/loaders/queries.py", "pdr/loaders/_helpers.py", "pdr/pdr.py"],
    [("data_start_byte", "pdr/loaders/queries.py"), ("Data._target_path", "pdr/pdr.py")],
    ["Data.__getitem__"],
)
prop(
    "C12", "Image pixels land at their band, line and sample",
    "For every image size, band count, storage order (band-sequential, line-interleaved, sample-interleaved), sample type and line prefix/suffix length, the array returned for an image has the image's lines and samples (bands first when there is more than one) and each element equals the stored sample at that band, line and sample; prefix and suffix bytes never appear in it.",
    ["inputs"], "every image geometry, storage order, line prefix/suffix, sample type and content",
    "Tests load one single-band image; interleaving and prefixes are not exercised.",
    ["pdr/loaders/image.py", "pdr/loaders/queries.py"],
    [("process_single_band_image / process_multiband_image", "pdr/loaders/image.py"), ("generic_image_properties", "pdr/loaders/queries.py")],
    ["Data.__getitem__"],
)
prop(
    "C13", "Qube cores are read along their named axes without side planes",
    "For an ISIS-style qube with any axis order, core size and sample type, the array returned is band-first and each element is the core sample at that band, line and sample; prefix or suffix planes along any one axis, including a stated number of zero, are excluded from it.",
    ["inputs"], "every axis order, core size, item type and plane count",
    "No test loads a qube.",
    ["pdr/loaders/queries.py", "pdr/loaders/image.py"],
    [("generic_qube_properties / extract_axplane_metadata", "pdr/loaders/queries.py"), ("extract_axplanes", "pdr/loaders/image.py")],
    ["Data.__getitem__"],
)
prop(
    "C14", "Stored samples are decoded with the stated type, width and byte order",
    "Every supported PDS3 physical data type (signed and unsigned integers, IEEE, PC, VAX and IBM reals, characters, EBCDIC text and booleans) is decoded to the number or text its bytes denote under that type's byte order and width, in images and in table columns alike. Widths or types that are not supported are reported, never decoded as something else.",
    ["inputs"], "every data type, width and byte pattern, in images and table columns",
    "Tests compare dtype strings, not decoded values, for a few types.",
    ["pdr/datatypes.py", "pdr/pd_utils.py", "pdr/np_utils.py"],
    [("sample_types / integer_code", "pdr/datatypes.py"), ("convert_ibm_reals / convert_vax_reals / convert_ebcdic", "pdr/pd_utils.py")],
    ["Data.__getitem__"],
)
prop(
    "C15", "Binary table cells come from their row and column offsets",
    "For a binary table with any columns (in any widths and types, with gaps between them), row prefix or suffix bytes and trailing padding, the table returned has one row per stated row and one column per described column, in order and under its name, and every cell is the value stored at that row's and column's position; bytes not described by a column are not exposed.",
    ["inputs"], "every binary table layout and content",
    "Tests have one two-column table.",
    ["pdr/loaders/table.py", "pdr/loaders/queries.py", "pdr/pd_utils.py"],
    [("compute_offsets", "pdr/pd_utils.py"), ("parse_table_structure", "pdr/loaders/queries.py"), ("_interpret_as_binary", "pdr/loaders/table.py")],
    ["Data.__getitem__"],
)
prop(
    "C16", "Repeated items and containers expand to distinct, correctly placed columns",
    "A column with several items, a repeated container and an externally referenced column structure expand to one table column per repetition, at the byte position the repetition implies, and all resulting column names are distinct while names that occur once are unchanged.",
    ["inputs"], "every combination of items, item offsets, containers, repetition counts and external structures",
    "No test expands a container or an ITEMS column through to values.",
    ["pdr/loaders/queries.py", "pdr/pd_utils.py"],
    [("read_format_block / inject_format_files", "pdr/loaders/queries.py"), ("compute_offsets / reindex_df_values", "pdr/pd_utils.py")],
    ["Data.__getitem__"],
)
prop(
    "C17", "Bit columns give the stated bits of each row",
    "A column described by bit columns yields, for every row and in the order of their description, the bit strings that start at the stated bit (counted from one at the most significant bit of the column's value) and have the stated length, for every column width and for both byte orders; repeated bit items yield one bit string each.",
    ["inputs"], "every bit column layout, column width, byte order and content",
    "Tests split a few fixed bit strings.",
    ["pdr/bit_handling.py"],
    [("convert_byte_column_to_bits / split_bits / get_bit_start_and_size", "pdr/bit_handling.py")],
    ["Data.__getitem__"],
)
prop(
    "C18", "Text tables give the stored rows, fields and values",
    "An ASCII table or spreadsheet yields exactly its rows and columns under the described names, whether its fields are delimited or at fixed character positions and whatever the delimiter: numeric fields as numbers, text fields stripped of quotes and padding. A column all of whose non-missing fields read as numbers is numeric; empty fields and the usual markers of absence (NULL, N/A) are missing values there. Rows are lines. Text before and after the table's stated extent in the same file is not part of it.",
    ["inputs"], "every text table layout (delimiter, fixed width, record or byte positions) and cell content",
    "Tests read one small table.",
    ["pdr/loaders/table.py", "pdr/loaders/queries.py"],
    [("_interpret_as_ascii / _read_table_from_stringio", "pdr/loaders/table.py"), ("table_position", "pdr/loaders/queries.py")],
    ["Data.__getitem__"],
)
prop(
    "C19", "Headers, labels and text objects are returned verbatim",
    "The text returned for a header is exactly the stated range of bytes, records or lines of the stated file (up to the 80,000 bytes pdr reads of a header), and that of a text object the whole content of its file, with every line ending (CR LF, CR or LF) as LF; nothing before or after the range appears. A header whose extent cannot be known, or a text object that cannot be read, is reported by a warning and yields its label definition instead of text.",
    ["inputs"], "every header position, length, record structure and byte content",
    "Tests read no header at an offset.",
    ["pdr/loaders/text.py", "pdr/loaders/queries.py"],
    [("skeptically_load_header / read_label / ignore_if_pdf", "pdr/loaders/text.py")],
    ["Data.__getitem__"],
)
prop(
    "C20", "Scaling applies the object's own factor and offset and spares the original",
    "Getting an object scaled multiplies every valid element by the object's scaling factor and then adds its offset as its label (PDS3, PDS4) states, defaulting to one and zero, without overflow or wrap-around for any integer type; the object held by the product is left unchanged unless in-place scaling is requested, in which case scaling happens at most once. Non-array objects cannot be scaled.",
    ["inputs", "histories"], "every array type and content, factor and offset type and value, and sequences of scaled/unscaled accesses",
    "Tests scale one float-friendly array.",
    ["pdr/pdr.py", "pdr/_scaling.py"],
    [("scale_array / find_special_constants", "pdr/_scaling.py"), ("Data.get_scaled", "pdr/pdr.py")],
    ["Data.get_scaled"],
)
prop(
    "C21", "Special constants are masked, ordinary values are not",
    "Elements of a scaled image equal to a special constant are masked: the constants named in the object's definition and the standard implicit constants of its sample type, both in one pass and for every numeric type; all other elements stay unmasked and are scaled normally.",
    ["inputs"], "every sample type, every explicit or implicit constant, every position in the array",
    "Tests do not exercise masking.",
    ["pdr/_scaling.py", "pdr/datatypes.py"],
    [("mask_specials / find_special_constants", "pdr/_scaling.py")],
    ["Data.get_scaled"],
)
prop(
    "C22", "FITS products expose every HDU under its own name",
    "A FITS file opened directly or through a label exposes each header-data unit under a name of its own: unique names are kept, repeated or empty ones are numbered in file order, and no number takes the name of another unit. Each name yields that unit's header cards (keyword, value, comment, in order) or its image array or table with the stored values, types, shape and scaling. The header of a unit becomes an object when the unit is loaded; every object can be loaded again, which gives what the file holds whatever was done to the earlier copy, and leaves other objects alone.",
    ["inputs"], "every sequence of HDU kinds, names (including repeated and empty ones), types and contents",
    "Tests open one FITS file with two HDUs.",
    ["pdr/pdr.py", "pdr/loaders/handlers.py", "pdr/loaders/astrowrap.py"],
    [("handle_fits_file", "pdr/loaders/handlers.py"), ("Data._load_primary_fits", "pdr/pdr.py")],
    ["Data.keys", "Data.__getitem__"],
)
prop(
    "C23", "PDS4 arrays, tables and headers are read as their label describes",
    "A PDS4 label yields each described object under its identifier (local identifier, else name, else a made-up one; repeated ones numbered apart) with its stored content: arrays with the described axes, element type, byte order, bit mask and file offset; binary, fixed-width and delimited tables with their described fields, every repetition of grouped fields and uniformly sampled fields, in label order under their names, empty values missing; headers as their bytes. Label elements and their texts are available as metadata by tag.",
    ["inputs"], "every PDS4 array and table description of the supported kinds and every content",
    "Tests read one PDS4 label and no data.",
    ["pdr/pdr.py", "pdr/pds4_tools"],
    [("Data._init_pds4 / read_pds4", "pdr/pdr.py"), ("vendored pds4_tools reader", "pdr/pds4_tools/reader")],
    ["Data.keys", "Data.__getitem__"],
)
prop(
    "C24", "Desktop images give their pixels, frames and metadata",
    "A PNG, JPEG, GIF, BMP, TIFF, JPEG2000 or WebP file opened directly or through a label yields its pixels as stored (palettes as colours, few-bit gray levels spread over 8 bits, frames drawn over the ones before), as rows and columns or channels, rows and columns; multi-frame GIF, WebP and MPO files expose every frame under its own name, in order, and sizes, format and number of frames are in the metadata.",
    ["inputs"], "every supported format, mode, size, frame count and pixel content",
    "Tests use single fixed images.",
    ["pdr/loaders/handlers.py", "pdr/loaders/utility.py"],
    [("handle_compressed_image", "pdr/loaders/handlers.py"), ("read_image via PIL", "pdr/pil_utils.py")],
    ["Data.keys", "Data.__getitem__"],
)
prop(
    "C25", "Dumping writes one browse file per loaded object and changes nothing else",
    "Dumping browse products writes, for exactly the loaded objects, one file per object (per scaling variant) named from the product's base name and the object's name with the extension that fits its kind, into the requested directory; tables and text round-trip to the same content. Loaded objects stay loaded and unchanged, or are released if purging is requested, and no source file is touched.",
    ["histories"], "every set of loaded objects, every scaling/purging/format option and every dump sequence",
    "Tests dump single objects to single files.",
    ["pdr/pdr.py", "pdr/browsify.py"],
    [("Data.dump_browse", "pdr/pdr.py"), ("browsify", "pdr/browsify.py")],
    ["output directory", "Data.keys", "Data.unloaded"],
)
prop(
    "C26", "Compressed files read exactly like their uncompressed content",
    "A product whose data files are compressed with gzip, bzip2 or zip yields exactly the same objects (images, qubes, tables, arrays, histograms, text and headers, at any position in the file) as the same product uncompressed, whether its label names the compressed files or the files they were made from.",
    ["inputs"], "every compression kind, object kind, position and content",
    "No test reads a compressed product.",
    ["pdr/utils.py", "pdr/np_utils.py"],
    [("decompress", "pdr/utils.py"), ("np_from_buffered_io", "pdr/np_utils.py")],
    ["Data.__getitem__"],
)
prop(
    "C27", "Loader parameters are resolved once, in order, with special cases first",
    "Each loader argument is computed by its query from already-known arguments: every query a target needs runs exactly once, after the ones listed before it and only with the arguments it accepts; explicitly supplied values are used as given; and special-case checks are consulted before the general rule, whose result is used only if none applies. A tracked run records the resolution.",
    ["programs"], "every set of queries, dependencies, supplied values and special-case outcomes",
    "Tests specialise two toy functions.",
    ["pdr/func.py", "pdr/loaders/datawrap.py"],
    [("softquery / specialize / call_kwargfilter", "pdr/func.py")],
    ["pdr.func.softquery", "pdr.func.specialize"],
)
prop(
    "C28", "Browse images preserve order of brightness and mark masked pixels",
    "Rendering an array as a browse image maps its unmasked finite values monotonically onto the full 8-bit range between the clipping percentiles, never wraps around, gives every image the array's lines and samples (reduced only beyond the 65,500 a JPEG may have), shows the requested band, bands or channels, and marks masked and invalid pixels in a uniform, documented way; an array with all-equal or no valid values still renders. The array itself is not modified.",
    ["inputs"], "every array type, shape, content, mask and clip setting",
    "Tests render a few smooth arrays.",
    ["pdr/browsify.py"],
    [("eightbit / colorfill_maskedarray / _format_as_rgb", "pdr/browsify.py")],
    ["browsify output files"],
)
prop(
    "C29", "Arrays and histograms are read with their described axes and elements",
    "An ARRAY object, binary or ASCII, yields an array with the described axes (last index fastest) whose elements are the stored values at their positions, from the object's start; the items of structured arrays (ELEMENTs, COLLECTIONs, nested ARRAYs) have every element at the byte its START_BYTEs give, in every item; a binary HISTOGRAM yields its bins in order with the described type.",
    ["inputs"], "every array shape, element type or structure, interchange format, position and content",
    "No test loads an ARRAY or HISTOGRAM.",
    ["pdr/loaders/table.py", "pdr/loaders/queries.py"],
    [("read_array", "pdr/loaders/table.py"), ("get_histogram_fields / parse_array_structure", "pdr/loaders/queries.py")],
    ["Data.__getitem__"],
)
prop(
    "C30", "Scaled columns of tables hold stored value times factor plus offset",
    "A column of a PDS3 table described with a SCALING_FACTOR, an OFFSET or both holds, in every row and every repeated item, the stored number times the factor plus the offset: in binary, fixed-width and delimited tables, for every stored type, whether or not the other columns are scaled, and whether or not the constants are written with units or as whole numbers; results never wrap around in the stored type. Columns without these, and text, are left as stored.",
    ["inputs"], "every column type, factor, offset, combination of columns and stored value",
    "No test loads a scaled column.",
    ["pdr/loaders/table.py"],
    [("read_table", "pdr/loaders/table.py")],
    ["Data.__getitem__"],
)
prop(
    "C31", "Objects go to the reader their name, file and data-set rules call for",
    "Which reader a PDS3 object goes to depends only on its name, on the kind of file its pointer names and on the rules for its data set: FITS and desktop-format files go to their readers whatever the name; otherwise names with the words of text, arrays, tables, headers and images go to those readers, the more specific word first, and anything else yields its label block with a warning. A rule for a data set (an object without support, another reader, another sample type or storage order) applies exactly to the data sets and names it states, and to no others.",
    ["inputs"], "every object name, file suffix and combination of product identifiers",
    "Tests load a handful of named objects.",
    ["pdr/loaders/dispatch.py", "pdr/formats/checkers.py", "pdr/loaders/datawrap.py"],
    [("pointer_to_loader / image_lib_dispatch / file_extension_to_loader", "pdr/loaders/dispatch.py"), ("check_trivial_case / check_special_case / special_image_constants", "pdr/formats/checkers.py")],
    ["Data.__getitem__", "Data.keys"],
)
prop(
    "C32", "Edits of a product's metadata take effect when they are loaded",
    "A product's metadata may be edited: values of keywords changed, keywords added to or removed from the label or a block, objects moved within their file. Once the changes have been loaded (load_metadata_changes), every lookup answers as if the label had said so, and every later load or reload interprets the object by its edited definition; no object that is already held changes until it is reloaded, and no other object's definition or value changes at all. Before that, a lookup gives the value from before or after an edit, never anything else.",
    ["histories"], "every sequence of edits, announcements, lookups, loads and reloads",
    "No test edits metadata at all; the guarantee is about every interleaving of edits with remembered lookups and loads.",
    ["pdr/pdr.py", "pdr/loaders/queries.py"],
    [("Data.load_metadata_changes, Metadata.refresh_cache", "pdr/pdr.py"), ("Metadata.metaget/metablock", "pdr/pdr.py"), ("identifiers", "pdr/pdr.py")],
    ["Data.load_metadata_changes", "Data.metaget", "Data.load", "Data.get_scaled"],
    [("metadata", "the tree of the label's entries", "pdr/pdr.py"), ("caches", "remembered lookups, counts and identifiers", "pdr/pdr.py")],
)
prop(
    "C33", "Prefixes of image lines are given as tables",
    "An image whose definition names the structure of its line prefixes has the bytes before each of its lines given as a table: one row per line, the columns of the named structure (structures it refers to and a table wrapped around it included), at the image's own place in the image's own file, whatever the image's bands and line suffixes. The table is listed under the names of the undefined prefix objects the label points to the very place of the image, or else under the image's name with _LINE_PREFIX_TABLE appended, after everything the label lists; a pointer to any other place or file does not count, and nothing is listed for images without structures. The image itself has only its own samples, and an image object named as a prefix or suffix only those before or after them. A structure file is found beside the product, in the search paths and in the label directories of its volume, whatever its case.",
    ["inputs"], "every arrangement of images with prefixes, suffixes, bands and structures in files, pointers to prefixes, and structure files in directories",
    "No test has a product with line prefixes; the guarantee is over every arrangement of images, pointers and structures.",
    ["pdr/pdr.py", "pdr/loaders/queries.py", "pdr/loaders/image.py"],
    [("Data._associate_prefix_tables", "pdr/pdr.py"), ("_fix_up_line_prefix_table_block, inject_format_files, load_format_file, standalone_start_byte", "pdr/loaders/queries.py"), ("extract_single_band_linefix, extract_bil_linefix", "pdr/loaders/image.py")],
    ["Data.keys", "Data.__getitem__"],
    [("interleaved objects", "names of tables within images", "pdr/pdr.py")],
)
prop(
    "C34", "Rules for irregular data sets leave all other products alone",
    "pdr has rules of its own for data sets whose products are irregular (about 150 of them: special positions, readers, structures, definitions, files, sample types and constants). A rule applies only to objects that meet all of its conditions on the product's identifiers, on the names of the object, its file and its format file; an object that no rule covers - however much of a rule's conditions it meets, whichever identifiers its label has or lacks, whatever its FILE_NAME keyword says - is listed and read as its label says: its elements, rows or text are those written at the place the label gives, and no special constants are assumed for it. The same holds for PDS4 tables and the rules keyed by their labels' names.",
    ["inputs"], "every product that no rule for an irregular data set covers, near misses of every rule included",
    "Tests read a few products, none of them close to a rule; a rule that is too broad shows only in products of some other data set.",
    ["pdr/formats/checkers.py", "pdr/loaders/queries.py", "pdr/loaders/datawrap.py"],
    [("check_special_offset / _table_reader / _structure / _position / _block / _fn / _objects / _sample_type / _fits_start_byte / _pds4_cases", "pdr/formats/checkers.py"), ("special_image_constants", "pdr/formats/checkers.py")],
    ["Data.keys", "Data.__getitem__", "Data.find_special_constants"],
)
prop(
    "C35", "Tables and images of irregular data sets are read by what is known of them",
    "Where pdr knows how a data set's files differ from their labels, its objects hold what the files hold: (1) tables known to be delimited text are read line by line and cell by cell, whatever columns of bytes, counts of rows or lengths of rows the label gives - after the lines known to precede the rows, with the names known to apply (the label's, less or plus those known to be absent or missing from it, or those of the file's first line), leaving out extra header lines, NULs and cells beyond the label's columns, and keeping every row (Cassini MIMI and RADAR, CheMin, SAM QMS, PLACES, Magellan geometry, NIMS SL9, Diviner level 4, Galileo PWS density, Odyssey GRS elements, Ulysses GAS, IHW curves, Voyager LECP, Viking seismometer, ASPERA IMA, MER UHF, Mars Express ODF, Mini-RF housekeeping, CRISM and REMS tables, LRO weather, Phoenix AFM); (2) tables whose label has a known mistake in the length, number or start of rows, their line ends or the place, names or number of columns have every row and column at its true place (MARSIS TEC, RPWS ancillary, MRS atmosphere, Doppler and ranging, CRISM MRDR, ring occultations, Hartley 2, PVO ORPA and OIMS, Voyager MAG and PLS, Galileo EPD and PWS, Phoenix WCL, MOLA PEDR, PFS, Halley Watch and ICE tables, Lunar Prospector outages, Kaguya SP); (3) tables whose columns or groups of columns the label tells wrongly - their sample types (JIRAM, LRO CRAT, NIMS, EPAC, Cassini ISS), items and places within a group (Voyager PRA, EPAC, ODF, TEGA), the name of the block (SELENE GRS, Venus Express RSS, CheMin, waves) or where they start (CRAT, PHX SSI and WCL, MSL REMS, Clementine, ISS by its clock) - have in every cell what its true bytes say; (4) images with known mistakes in their labels (WFF terrain models, Cassini ISS calibration, IUE quality images, JIRAM, LROC, Giotto) have the true shape and elements. Loading such an object again - reloaded or from another Data, in whatever folder its files lie - gives the same, and loading leaves the label's values as they were.",
    ["inputs", "histories"], "every content, size and label mistake of the kinds known for these data sets, loaded once or again",
    "The tests hold no product of these data sets; whether a correction is right depends on counts, offsets and on how often it is applied.",
    ["pdr/formats", "pdr/formats/checkers.py", "pdr/loaders/queries.py", "pdr/loaders/table.py"],
    [("check_special_table_reader / _position / _structure / _block and the functions they name", "pdr/formats/checkers.py"), ("special blocks", "pdr/formats/*.py"), ("read_table", "pdr/loaders/table.py")],
    ["Data.load", "Data.__getitem__", "Data.metablock", "Data.metaget"],
)
prop(
    "C36", "Objects of FITS products are the part of the file they are known to be",
    "An object of a FITS product with a PDS3 label is the header or the data of one HDU of its file, and comes with that HDU's own header: for data sets whose labels are known to place objects wrongly (HST ring plane crossing, EPOXI HRIV masks, MESSENGER MDIS calibration, CASPIR, VMC, LRO LAMP EDR and RDR, Juno UVS EDR and RDR) the HDU known by its place or name, whatever the label's pointer says; for every other product, near misses included, the one whose header or data start where the label says. Objects known not to exist, or whose HDU is missing from the file or has no data, are never another HDU's header or data: they stay the label's description. Reloading an object, or loading it from another Data, gives the same.",
    ["inputs", "histories"], "every object name of these data sets, every order, number and emptiness of HDUs, every pointer",
    "The tests hold none of these products; a rule that takes a neighbouring HDU, follows a wrong pointer or applies to a similar data set still returns a plausible image or table.",
    ["pdr/formats/checkers.py", "pdr/formats", "pdr/loaders/handlers.py", "pdr/loaders/queries.py"],
    [("check_special_fits_start_byte and the functions it names", "pdr/formats/checkers.py"), ("handle_fits_file", "pdr/loaders/handlers.py"), ("get_fits_start_byte", "pdr/loaders/queries.py")],
    ["Data.load", "Data.__getitem__", "Data.keys"],
)
prop(
    "C37", "Products of agencies that label them loosely are read by what is known of them",
    "(1) A PDS3 label whose file's own name shows that it is from Chang'e 1-3 is decoded as GB 18030, one that shows it is from Venus Express MAG/BIO day tables as Latin-1, every other one as UTF-8, whatever folder it lies in, attached or detached, compressed or not: text values hold exactly the characters written, the other keywords and the objects after the label are as without them. (2) Tables of Chang'e 4-6 and of Chandrayaan-2 CLASS products, known by the names of their labels to have PDS4 labels that misstate their fields' types or place, have one column per field and one per repetition of each group, named so, and in every row - however many there are, and however long their values get - the cells the file has between blanks, or the columns of the FITS table's HDU and its header. It does not matter what folders they lie in, whether they are opened by the label or by the data file, or how often they are loaded; similar products outside these rules are read as their labels say.",
    ["inputs", "histories"], "every label text in these encodings, every table of these kinds, every file and folder name",
    "The tests hold none of these products; a column cut at a place inferred from other rows, a character decoded by a similar encoding or a name taken from the wrong part of a path go unnoticed.",
    ["pdr/formats/change.py", "pdr/formats/ch2_isro.py", "pdr/formats/vex_mag.py", "pdr/formats/checkers.py", "pdr/parselabel"],
    [("check_special_pds4_cases", "pdr/formats/checkers.py"), ("check_special_label", "pdr/formats/checkers.py"), ("read_change_fw_table, read_table_using_spaces, special_label", "pdr/formats/change.py"), ("read_class_fits_table", "pdr/formats/ch2_isro.py")],
    ["pdr.read", "Data.load", "Data.__getitem__", "Data.metaget", "Data.keys"],
)
prop(
    "C38", "Images compressed by Malin's cameras are what the cameras' encoding says",
    "An image of an MSL camera (MAHLI, Mastcam, MARDI) in the .DAT file beside its label, whatever folder they lie in, and an image of the Mars Orbiter Camera in its .IMQ file, is what the file's own headers and bytes say by the cameras' encodings, pixel for pixel. MSL: uncompressed with 8 or 16 bits - missing bytes at the end are 0, bytes after the image ignored, thumbnails' sizes found from the file's length - or predictively compressed: strips of eight lines with four planes each, found by their marks. MOC: any number of fragments, with or without the mark of the last, uncompressed or predicted along lines or columns by any of the eight tables of codes, with a marked uncompressed line every 128 lines. Reloading gives the same.",
    ["inputs", "histories"], "every image, every code table, every size, every way of splitting it and ending the file",
    "The tests hold none of these products; a wrong entry of a code table, an off-by-one in bit order or alignment, or state carried between lines or fragments shows only in some images, and still as an image.",
    ["pdr/formats/msl_edr.py", "pdr/formats/mgs_moc.py", "pdr/formats/checkers.py"],
    [("msl_edr_image_loader and what it calls", "pdr/formats/msl_edr.py"), ("mgs_moc_comp_image_loader, pred_decode", "pdr/formats/mgs_moc.py"), ("check_special_compressed_file_reader", "pdr/formats/checkers.py")],
    ["pdr.read", "Data.load", "Data.__getitem__"],
)
json_lines = [json.dumps(p) for p in P]
open("/verif/properties.jsonl", "w").write("\n".join(json_lines) + "\n")
