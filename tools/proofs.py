"""What the deductive part of each claimed property consists of: (technique, note, theorems). Read by tools/props.py."""
V = 'Verus contracts on functions extracted from /repo on every run: '
S = ' Bounded execution of the real crate stands in for the functions not listed and searches for a failing input when an obligation fails.'
PROOF = {
 'C03': ('write_binary_code_pair and the writers it calls append exactly the bytes of the spec; BinaryCodePairIter::read_code_pair and ExpectedType::new read exactly that spec back; theorem over a whole sequence of pairs',
         'Proved for every pair sequence and both code layouts. Assumed: byteorder, Read/Write and encoding_rs contracts.', ['theorem_binary_file', 'theorem_chunks']),
 'C06': ('Handle::as_string, CodePair::as_handle, text <-> 64-bit value', 'Proved for every handle and every text. Assumed: format!("{:X}"), u64::from_str_radix contracts.', ['theorem_handle_text']),
 'C07': ('data-structure invariant of Drawing (all handles below next_available_handle, distinct) preserved by every operation that assigns handles; theorem over histories',
         'Proved for every history of the add/assign operations. Assumed: 2^64 handles are not used up; the iterators rewritten as index loops.', ['theorem_history', 'theorem_loaded_entity']),
 'C08': ('item_by_handle: result is the record with the handle, None if none has it; uniqueness from the invariant of C07', 'Proved for every drawing and handle.', ['theorem_only_one']),
 'C09': ('Drawing::normalize and every ensure_* function: presence postconditions, frame conditions, idempotence', 'Proved for every drawing. Assumed: HashSet, sort and string comparison contracts.', ['normalize_twice']),
 'C10': ('every flag getter and setter (hand-written and generated): own bit read and written, all other bits kept, flags disjoint', 'Proved for all words by bit-vector reasoning.', ['lemma_disjoint_i16']),
 'C11': ('every enumeration: number -> value -> number and back, numbers distinct and equal to a committed table', 'Proved for all numbers. enum_from_primitive! expanded by its definition.', ['round_trip']),
 'C12': ('Color and LineWeight constructors, queries, setters; layer colour and visibility', 'Proved for all raw values.', ['meanings', 'layer_colour']),
 'C13': ('AcadVersion names both ways, derived order', 'Names and order proved for every version; gating of content executed on a bounded set.', ['names_round_trip']),
 'C18': ('XData and ExtensionGroup readers and writers against a recursive spec of trees; writer then reader is the identity', 'Proved for every tree within the nesting limit. Assumed: the pair layer (proved in C03/C04).', ['c18_xdata', 'lemma_x_inverse', 'c18_group']),
 'C04': ('write_ascii_code_pair, the text of CodePairValue, format_f64 and TextCodePairIter::read_code_pair against a spec of the two lines of a pair; theorem over a whole file',
         'Proved for every sequence of typed pairs. Assumed: format!, str::parse, str::trim and encoding_rs contracts, that a trailing zero after the point does not change a number.', ['theorem_text_file', 'theorem_exact']),
 'C26': ('read_line and parse_*: a line is the same with CR LF, LF, at the end of the file and behind a byte order mark; numbers the same with blanks around them',
         'Proved for lines and numbers. The detection of the file format and chunked delivery are executed on a bounded set. Assumed: Read::bytes, encoding_rs, str::trim.', ['lines_agree', 'theorem_line', 'theorem_bom']),
 'C24': ('save, save_binary, save_internal, save_file_internal and every writer they call: a successful return means the sink holds exactly the bytes of the complete file, and a file has been flushed',
         'Proved for the DXF writers for every drawing and every failing write. Failing reads and the DXB writer are executed on a bounded set. Assumed: contracts of Write, File::create, BufWriter and flush.', ['both_complete']),
 'C05': ('precondition `the value has the type of the code` of the CodePair constructors discharged at every call in the record writers (hand-written and generated, 2421 calls); ExpectedType::new against the table of the DXF reference; save_internal writes the same pairs in both forms',
         'Proved for every call site; the value arguments are arbitrary. Pairs that a user puts into extension groups himself are the user\'s.', ['same_type', 'both_complete']),
 'C25': ('TransformationMatrix::values/from_vec/values_row_major_4x3/identity cell by cell; as_datetime/as_double (local and UTC) with a rounding-error proof over the reals; duration and boolean conversions',
         'Proved for every matrix, boolean, duration below 2^53 s and every date within 2^38 s from 1900. Assumed: IEEE 754 operations round once; chrono counts whole seconds. UUIDs and points are executed on a bounded set.', ['matrix_round_trip', 'date_round_trip', 'duration_round_trip', 'bool_round_trip']),
 'C22': ('every entity, vertex, polyline, number, word and text writer of DxbWriter appends exactly the bytes of its record; every entity reader of DxbReader (line, trace and 3D extensions and both number modes included) reads exactly that record; per kind: writer then reader gives the entity in single precision, whatever follows',
         'Proved for every record and every tail. The loops over a whole drawing (write, load: layers, colours, block base, gathering of vertices) are executed on a bounded set. Assumed: byteorder, Read/Write, f64<->f32 conversions; the position counter does not overflow.', ['theorem_arc', 'theorem_circle', 'theorem_face', 'theorem_line', 'theorem_point', 'theorem_solid', 'theorem_trace']),
 'C21': ('collect_entities (with swallow_seqend, child_handle and mtext): the result is gather(stream), each record with exactly its own children; theorem: the records of a file, laid out with or without SEQEND, come back in order, once each',
         'Proved for every sequence of entities; the fields the function does not name are one opaque value. Assumed: itertools::PutBack (one place, never overfilled: an obligation), derived Clone. That each record is read alone (Entity::read) is executed on a bounded set, like the order of objects and table records.', ['theorem_records', 'lemma_file', 'lemma_record']),
 'C23': ('Drawing::add_thumbnail_pairs, read_thumbnail, read_thumbnail_from_bytes, read_thumbnail_bytes_from_code_pairs, update_thumbnail_data_offset_in_situ and the little-endian helpers: the pairs are the length and the bytes without the file header in chunks, and the reader rebuilds exactly the bytes of the bitmap file, the data offset included; writer then reader is the identity',
         'Proved for every byte content of the bitmap. Assumed: the BMP encoder and decoder of the image crate are inverse on what the encoder yields and its output has the 14-byte file header with the data offset of a BITMAPINFOHEADER file; slice::chunks. Other header sizes and palettes are executed on a bounded set.', ['c23_round_trip', 'lemma_chunks', 'lemma_rebuilt']),
 'C20': ('CodePairPutBack (comments), swallow_section, swallow_table, Object::read, Entity::read, Header::read, read_objects, read_entities, EntityIter, ObjectIter, read_specific_table, read_section_item and read_sections against a spec of the file as a stream of pairs; theorems: a comment, an unknown section, table, entity, object or header variable anywhere is as if it were not there',
         'Proved for every file. The contents of known records are opaque functions (that a known record takes only its own pairs is a hypothesis of the theorems, executed on a bounded set); assumed: collect_entities (proved in C21), that set_header_value leaves the header alone for an unknown name.', ['theorem_comments', 'theorem_unknown_Object', 'theorem_unknown_Entity', 'theorem_unknown_object_anywhere', 'theorem_unknown_entity_anywhere', 'theorem_unknown_variable', 'theorem_unknown_table', 'theorem_unknown_section']),
 'C17': ('Class::default, read_class, read_classes, add_code_pairs; Block::default, read_block, add_code_pairs; read_section_item (instantiated with Block::read_block), add_classes_pairs, add_blocks_pairs: readers against a fold over the pairs, writers against the pairs they append; theorems: written classes and blocks are read back once each, in order, with every field the version carries',
         'Proved for every class and block, version and choice of handles. Hypotheses of the theorem about blocks: the groups, extended data and entities inside are read back (C18, C14). The table records (AppId ... ViewPort) are read and written by generated code and are only executed, on a bounded set.', ['theorem_classes', 'theorem_block', 'theorem_blocks']),
 'C14': ('the hand-written readers apply_custom_reader_{lwpolyline, mtext, attribute, attributedefinition} against a fold over the pairs (a table of code -> field), the generated reader of the common fields (EntityCommon::apply_individual_pair) against the same kind of table, and the writers of the same kinds (generated add_code_pairs arms, with their hand-written parts) against the record that fold gives back: every field the version carries comes back as it was',
         'Proved for every value of the four kinds with hand-written readers, every version and number of vertices / text chunks. Kinds read and written by generated code only, and dimensions, polylines and vertices, are executed on a bounded set.', []),
}
BOUNDED = {
 'C15': 'Every object kind, with each field in turn and pairs of fields set to awkward values, lists of several lengths, at every version, in text and binary, is written and read by the real crate and compared field by field with what an unchanged tree carries.',
 'C16': 'Every header variable, with several values, at every version, is written and read by the real crate and compared.',
 'C19': 'Mutated, truncated and random files are loaded by the real crate: the result is a value or an error, in bounded time and memory.',
}
