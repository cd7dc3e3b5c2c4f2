S = 'src/'
BND = 'bounded execution of the real crate stands in for the functions around them and replays failures'
prop('C01', 'Control characters and carets in text survive saving and loading',
     'Every text value, including any control character U+0000..U+001F and any caret, that is saved as text or binary DXF comes back unchanged when the file is loaded. No control character of a value appears raw in a written text file, so a value can never end a line, a record or the file.',
     ['inputs'], 'for every string of Unicode characters, every DXF version, text and binary files',
     'The tests try a handful of literal strings; the claim is about every string, including the ones whose characters look like the notation itself.',
     ['src/code_pair_value.rs', 'src/code_pair_writer.rs', 'src/code_pair_iter.rs'],
     [('caret notation encoder', 'src/code_pair_value.rs: escape_control_characters'), ('caret notation decoder', 'src/code_pair_value.rs: CodePairValue::un_escape_string')],
     observe=['Drawing::save, Drawing::save_binary, Drawing::load'],
     technique='Verus contracts on the extracted encoder and decoder (result equals a spec function; inverse theorem); ' + BND,
     note='Encoder and decoder proved for all strings from the current source on every run. Assumed: str slicing/find and String::from contracts. The file I/O around them is exercised on a bounded set of strings.',
     theorems=['theorem_inverse', 'theorem_no_control', 'c01_round_trip'])
prop('C02', 'Non-ASCII text survives; text files before R2007 are pure ASCII',
     'Every Unicode text value saved as text or binary DXF of any version comes back unchanged when the file is loaded, including text that looks like a Unicode escape. A text file of a version before R2007 contains only ASCII bytes.',
     ['inputs'], 'for every string of Unicode scalar values (also outside the Basic Multilingual Plane), every DXF version, text and binary files',
     'The tests try a few literal strings; the claim is about every character and every neighbourhood of escape look-alikes.',
     ['src/code_pair_value.rs', 'src/code_pair_writer.rs', 'src/code_pair_iter.rs', 'src/header.rs', 'src/drawing.rs'],
     [('\\U+XXXX encoder', 'src/code_pair_value.rs: escape_unicode_to_ascii'), ('\\U+XXXX decoder', 'src/code_pair_value.rs: un_escape_ascii_to_unicode'), ('switch to UTF-8', 'src/header.rs: $ACADVER'), ('choice of ASCII', 'src/drawing.rs: save_internal')],
     observe=['Drawing::save, Drawing::save_binary, Drawing::load'],
     technique='Verus contracts on the extracted encoder and decoder (result equals a spec function; inverse theorem); ' + BND,
     note='Encoder and decoder proved for all strings from the current source on every run. Assumed: format!("{:04X}"), char::to_digit, char::from_u32 contracts. The choice of encoding per version is exercised on a bounded set.',
     theorems=['theorem_unicode_inverse', 'theorem_ascii', 'c02_round_trip'])
prop('C03', 'Binary DXF carries every group code and value exactly',
     'A value of any group code (16/32/64-bit integer, double including NaN and infinities, boolean, text, binary data of any length) that is written to a binary DXF file is read back bit for bit, under the same code, in both layouts of group codes (before R13 and since R13), and the pair that follows is unaffected. The bytes are those of the published binary format.',
     ['inputs'], 'for every group code that has a value type, every value of its type, both binary layouts',
     'The tests encode one value of a few codes; the claim is about every code, both code widths, and every value, including lengths at the limits of the length byte.',
     ['src/code_pair_writer.rs', 'src/code_pair_iter.rs', 'src/expected_type.rs', 'src/helper_functions.rs'],
     [('binary pair writer', 'src/code_pair_writer.rs: write_binary_code_pair'), ('binary pair reader', 'src/code_pair_iter.rs: BinaryCodePairIter::read_code_pair'), ('type of a code', 'src/expected_type.rs: ExpectedType::new')],
     observe=['Drawing::save_binary, Drawing::load'],
     technique='', level='other', note='')
prop('C04', 'Text DXF carries every group code and value',
     'A value of any group code that is written to a text DXF file takes exactly two lines and is read back under the same code: integers, booleans, binary data and text exactly, doubles to the twelve decimals of the notation (and exactly when they have no more).',
     ['inputs'], 'for every group code that has a value type and every value of its type',
     'The tests format a few literal numbers; the claim is about every number and every code width.',
     ['src/code_pair_writer.rs', 'src/code_pair_value.rs', 'src/code_pair_iter.rs', 'src/helper_functions.rs'],
     [('text pair writer', 'src/code_pair_writer.rs: write_ascii_code_pair'), ('number formatting', 'src/code_pair_value.rs: format_f64'), ('text pair reader', 'src/code_pair_iter.rs: TextCodePairIter::read_code_pair'), ('hex data', 'src/helper_functions.rs: parse_hex_string')],
     observe=['Drawing::save, Drawing::load'],
     technique='', level='other', note='')
prop('C05', 'Every written value has the type of its group code; text and binary agree',
     'Every group code and value pair that a drawing writes has the value type that the DXF reference gives to its code, so the file can be split into pairs without knowing the records; and the text and the binary form of the same drawing contain the same sequence of pairs.',
     ['inputs'], 'for every drawing, record kind and field value, every version',
     'The tests compare a few records pair by pair; a mistyped code anywhere makes the rest of a binary file unreadable.',
     ['src/expected_type.rs', 'src/code_pair_value.rs', 'src/code_pair_writer.rs', 'src/entity.rs', 'src/object.rs', 'src/block.rs', 'src/class.rs', 'src/drawing.rs'],
     [('type of a code', 'src/expected_type.rs: ExpectedType::new'), ('record writers', 'src/entity.rs, src/object.rs: add_code_pairs')],
     observe=['Drawing::save, Drawing::save_binary'],
     technique='', level='other', note='')
prop('C06', 'Handles and their hexadecimal text are in bijection',
     'Every handle value is written as upper-case hexadecimal text without leading zeros (zero as 0) and that text is read back as the same handle, wherever a handle appears in a record; text that is not a hexadecimal number of at most 64 bits is reported as an error.',
     ['inputs'], 'for every 64-bit handle value and every text',
     'The tests try a few small handles.',
     ['src/handle.rs', 'src/code_pair.rs'],
     [('handle to text', 'src/handle.rs: Handle::as_string'), ('text to handle', 'src/code_pair.rs: CodePair::as_handle')],
     observe=['Drawing::save, Drawing::load'],
     technique='', level='other', note='')
prop('C07', 'Assigned handles are non-zero, unique and never reused while in use',
     'Whatever sequence of additions, removals, saves and loads a drawing goes through, every record it gives a handle to gets a non-zero handle that no other record of the drawing has; handles that a loaded file carries are kept; and the next handle announced in the file is larger than every handle in it. (For files without handles or with a valid $HANDSEED.)',
     ['histories'], 'for every history of add, remove, normalize, save and load operations',
     'The tests add one or two records; collisions need a particular history of loads and additions.',
     ['src/drawing.rs', 'src/handle.rs', 'src/entity.rs', 'src/entity_iter.rs', 'src/block.rs'],
     [('next handle', 'src/drawing.rs: Drawing::next_handle'), ('handles in use', 'src/drawing.rs: reserve_handle, assign_and_get_handle'), ('children', 'src/entity.rs: add_vertex, add_attribute')],
     state=[('next_available_handle', 'larger than every handle of the drawing', 'src/drawing.rs')],
     observe=['add_*, remove_*, entities(), objects(), tables, blocks()'],
     technique='', level='other', note='')
prop('C08', 'Looking up a handle finds exactly the record that has it',
     'item_by_handle and item_by_handle_mut return the record of the drawing that has the given handle (of any kind: table records, blocks, entities and objects) and nothing for any other handle; a reference set from one record to another resolves to that record, also after the drawing is saved and loaded.',
     ['histories', 'inputs'], 'for every drawing, every handle value and every pair of records',
     'The tests look up one record of a few kinds.',
     ['src/drawing.rs', 'src/drawing_item.rs'],
     [('lookup', 'src/drawing.rs: item_by_handle, item_by_handle_mut'), ('record handles', 'src/drawing_item.rs: DrawingItem::handle')],
     observe=['Drawing::item_by_handle, item_by_handle_mut, record owner and pointer accessors'],
     technique='', level='other', note='')
prop('C09', 'Normalizing makes a drawing complete and is idempotent',
     'After normalize() the drawing holds the records every DXF file needs (layer 0, line types BYLAYER, BYBLOCK and CONTINUOUS, text and dimension style STANDARD, view port *ACTIVE, application ACAD, a record for every block, layer, line type and style named by a record) and no illegal defaultable value; existing records are not removed, replaced or reordered before others; a second normalize() changes nothing.',
     ['inputs', 'histories'], 'for every drawing',
     'The tests normalize one or two drawings.',
     ['src/drawing.rs', 'src/table.rs', 'src/helper_functions.rs', 'src/block.rs', 'src/header.rs'],
     [('normalize', 'src/drawing.rs: Drawing::normalize'), ('ensure_*_is_present', 'src/drawing.rs'), ('defaults', 'src/helper_functions.rs: ensure_positive_or_default, default_if_empty')],
     observe=['Drawing::normalize and the public record lists'],
     technique='', level='other', note='')
prop('C10', 'Flag accessors read and write their own bit only',
     'Each boolean flag accessor of entities, objects, table records, blocks, classes, header and enumerations reads exactly the bit of the flag word that the DXF reference gives it; its setter changes that bit and no other bit, and the getter then returns the value set.',
     ['inputs'], 'for every value of the flag word, both flag values, every accessor',
     'The tests set a few flags on zero words.',
     ['src/block.rs', 'src/class.rs', 'src/enums.rs', 'src/entity.rs', 'src/table.rs', 'src/generated.rs'],
     [('flag helpers', 'src/block.rs: flag, set_flag'), ('generated accessors', 'build/*_generator.rs output: fn <flag>, set_<flag>')],
     observe=['flag getters and setters'],
     technique='', level='other', note='')
prop('C11', 'Enumerations map to their DXF numbers and back',
     'Every enumeration value is written as the number the DXF reference gives it and that number is read back as the same value; no two values share a number; a number without a value is reported or replaced by the documented default, never mapped to another value.',
     ['inputs'], 'for every enumeration, every value and every number',
     'The tests touch a few values.',
     ['src/enums.rs', 'src/helper_functions.rs', 'src/dxb_item_type.rs'],
     [('enumerations', 'src/enums.rs: enum_from_primitive'), ('number to value', 'src/helper_functions.rs: enum_from_number')],
     observe=['Drawing::save, Drawing::load, num_traits conversions'],
     technique='', level='other', note='')
prop('C12', 'Colours and line weights keep their raw value and meaning',
     'A colour or line weight written to a file comes back with the same raw value; exactly one of by-layer, by-block, by-entity, turned-off and index holds for the values the reference defines; constructors and setters produce the value that the matching query recognises; a layer with a negative colour is off and keeps its index.',
     ['inputs'], 'for every raw value and every index',
     'The tests try a few values.',
     ['src/color.rs', 'src/line_weight.rs', 'src/entity.rs', 'src/drawing.rs'],
     [('colour', 'src/color.rs'), ('line weight', 'src/line_weight.rs')],
     observe=['Color, LineWeight, Layer accessors'],
     technique='', level='other', note='')
prop('C13', 'Versions have unique names, the historical order, and gate content by it',
     'Every version is written under its own code name and read back as itself; unknown names are reported; versions compare in the order of their release; content that a version introduces is absent from files of earlier versions and present from it on.',
     ['inputs'], 'for every version and every pair of versions',
     'The tests name a few versions.',
     ['src/enums.rs', 'src/header.rs', 'src/drawing.rs', 'src/entity.rs', 'src/object.rs'],
     [('version names', 'src/enums.rs: AcadVersion'), ('gating', 'src/drawing.rs: code_pairs')],
     observe=['AcadVersion, Drawing::save'],
     technique='', level='other', note='')
prop('C14', 'Entities keep every field through save and load',
     'Every entity of every kind saved in a version that has the kind comes back with every field that the record layout of that version carries unambiguously, with its common fields, vertices, attributes and attached text, in text and binary files.',
     ['inputs'], 'for every entity kind, field, value, version and file format',
     'The tests read and write a few fields of some kinds; loss shows only for particular fields, values, versions or combinations.',
     ['src/entity.rs', 'src/entity_iter.rs', 'src/helper_functions.rs'],
     [('readers', 'src/entity.rs: EntityType::apply_custom_reader, Entity::read'), ('writers', 'src/entity.rs: Entity::add_code_pairs, add_custom_code_pairs'), ('children', 'src/entity_iter.rs: collect_entities')],
     observe=['Drawing::save, Drawing::save_binary, Drawing::load'],
     technique='', level='other', note='')
prop('C15', 'Objects keep every field through save and load',
     'Every object of every kind saved in a version that has the kind comes back with every field that the record layout of that version carries unambiguously, in text and binary files.',
     ['inputs'], 'for every object kind, field, value, version and file format',
     'The tests read and write a few fields of some kinds; loss shows only for particular fields, values, versions or combinations.',
     ['src/object.rs', 'src/object_iter.rs', 'src/table_cell_style.rs', 'src/section_type_settings.rs', 'src/section_geometry_settings.rs', 'src/helper_functions.rs'],
     [('readers', 'src/object.rs: ObjectType::apply_custom_reader, Object::read'), ('writers', 'src/object.rs: Object::add_code_pairs')],
     observe=['Drawing::save, Drawing::save_binary, Drawing::load'],
     technique='', level='other', note='')
prop('C16', 'Header variables keep their values through save and load',
     'Every header variable comes back with the value it was saved with, in every version that has it, in text and binary files; variables are written under their own names and codes.',
     ['inputs'], 'for every header variable, value, version and file format',
     'The tests check a few variables.',
     ['src/header.rs', 'src/helper_functions.rs', 'src/drawing.rs'],
     [('reader', 'src/header.rs: Header::read'), ('writer', 'src/header.rs: Header::add_code_pairs')],
     observe=['Drawing::header, Drawing::save, Drawing::load'],
     technique='', level='other', note='')
prop('C17', 'Table records, blocks and classes keep every field through save and load',
     'Every application id, block record, dimension style, layer, line type, style, UCS, view, view port, block and class comes back with every field that the record layout of the version carries unambiguously, in text and binary files, once each.',
     ['inputs'], 'for every record kind, field, value, version and file format',
     'The tests read and write a few fields of some kinds.',
     ['src/table.rs', 'src/block.rs', 'src/class.rs', 'src/drawing.rs'],
     [('tables', 'src/table.rs'), ('blocks', 'src/block.rs: read_block, add_code_pairs'), ('classes', 'src/class.rs: read_classes, add_code_pairs')],
     observe=['Drawing::save, Drawing::save_binary, Drawing::load'],
     technique='', level='other', note='')
prop('C18', 'Extended data and extension groups survive as trees on every record',
     'The extended data (applications, items of all kinds, nested control groups) and the extension data groups (any pairs, nested) attached to any record come back unchanged and attached to the same record when the drawing is saved in a version that holds them, and their presence changes nothing else of the record.',
     ['inputs'], 'for every tree of items up to the supported nesting depth, on every kind of record, text and binary',
     'The tests attach a few flat lists.',
     ['src/x_data.rs', 'src/extension_data.rs', 'src/entity.rs', 'src/object.rs', 'src/block.rs', 'src/table.rs'],
     [('extended data', 'src/x_data.rs: XData::read_item, add_code_pairs'), ('extension groups', 'src/extension_data.rs: ExtensionGroup::read_group, add_code_pairs')],
     observe=['x_data, extension_data_groups of loaded records'],
     technique='', level='other', note='')
prop('C19', 'Loading any bytes ends with a drawing or an error',
     'Loading any sequence of bytes, however damaged, returns a drawing or an error in time proportional to the input: no panic, no endless loop, no stack overflow. A drawing that loads can be normalized and saved without panic.',
     ['inputs'], 'for every byte sequence',
     'The tests load well-formed files.',
     ['src/drawing.rs', 'src/code_pair_iter.rs', 'src/code_pair_put_back.rs', 'src/x_data.rs', 'src/extension_data.rs', 'src/thumbnail.rs', 'src/object.rs', 'src/entity.rs', 'src/dxb_reader.rs', 'src/helper_functions.rs'],
     [('readers', 'all of the files above')],
     observe=['Drawing::load'],
     technique='', level='other', note='')
prop('C20', 'Unknown content and comments are skipped without side effects',
     'Comments and sections, tables, entities, objects and header variables that the crate does not know may appear anywhere they are legal in a file; the drawing loaded is the one loaded from the same file without them.',
     ['inputs'], 'for every file and every place and kind of unknown content',
     'The tests skip one unknown record in one place.',
     ['src/code_pair_put_back.rs', 'src/drawing.rs', 'src/entity.rs', 'src/object.rs', 'src/header.rs', 'src/table.rs'],
     [('comments', 'src/code_pair_put_back.rs: next'), ('sections', 'src/drawing.rs: swallow_section'), ('tables', 'src/drawing.rs: swallow_table')],
     observe=['Drawing::load'],
     technique='', level='other', note='')
prop('C21', 'Records keep their order, number and children, independent of their neighbours',
     'The entities, objects, table records and block contents of a drawing come back in the same order and number, each exactly as it would come back alone; vertices and attributes return to their polyline or insert, with or without a closing SEQEND.',
     ['inputs'], 'for every sequence of records',
     'The tests save one record at a time.',
     ['src/entity_iter.rs', 'src/entity.rs', 'src/object_iter.rs', 'src/drawing.rs', 'src/block.rs'],
     [('grouping', 'src/entity_iter.rs: collect_entities'), ('record boundaries', 'src/entity.rs: Entity::read; src/object.rs: Object::read')],
     observe=['Drawing::save, Drawing::load'],
     technique='', level='other', note='')
prop('C22', 'DXB files keep the entities they can hold',
     'Saving as DXB and loading back keeps the order, layer, colour and geometry (to single precision) of arcs, circles, 3D faces, lines, points, polylines with bulges and widths, solids and traces, from the model or, when that is empty, from the first block with its base point; other kinds are left out without effect on the rest. Files in integer mode, with scale factors and with line and trace extensions load as the format prescribes.',
     ['inputs'], 'for every drawing and every well-formed DXB file',
     'The tests write and read one entity.',
     ['src/dxb_writer.rs', 'src/dxb_reader.rs', 'src/dxb_item_type.rs'],
     [('writer', 'src/dxb_writer.rs'), ('reader', 'src/dxb_reader.rs')],
     observe=['Drawing::save_dxb, Drawing::load'],
     technique='', level='other', note='')
prop('C23', 'The thumbnail survives pixel for pixel',
     'A thumbnail saved in a version that has it (R2000 and later) comes back with the same size and pixels, in text and binary files, without effect on the rest of the drawing; thumbnails of other programs with any header size and palette decode as the bitmap they contain; damaged ones are reported.',
     ['inputs'], 'for every image',
     'The tests save one image.',
     ['src/thumbnail.rs', 'src/drawing.rs'],
     [('reader', 'src/thumbnail.rs'), ('writer', 'src/drawing.rs: add_thumbnail_pairs')],
     observe=['Drawing::thumbnail'],
     technique='', level='other', note='')
prop('C24', 'Write and read failures are always reported',
     'When the writer or the reader fails at any byte (error, nothing accepted, full device) the save or load call returns an error instead of reporting success with part of the file; writers that accept a few bytes at a time or are interrupted receive the complete file.',
     ['crash points', 'inputs'], 'for every drawing, every format and every failing byte',
     'The tests write to memory only.',
     ['src/drawing.rs', 'src/code_pair_writer.rs', 'src/dxb_writer.rs', 'src/helper_functions.rs', 'src/code_pair_iter.rs'],
     [('writers', 'src/code_pair_writer.rs, src/dxb_writer.rs'), ('files', 'src/drawing.rs: save_file_internal, save_file_dxb')],
     observe=['return value of save*, load*'],
     technique='', level='other', note='')
prop('C25', 'Dates, durations, identifiers and matrices convert without loss',
     'Dates (to the second), durations, UUIDs and transformation matrices written to a file are read back equal; out-of-range dates are clamped or reported, never a panic; the identity matrix is the identity.',
     ['inputs'], 'for every representable date, duration, identifier and matrix',
     'The tests convert one date.',
     ['src/helper_functions.rs', 'src/transformation_matrix.rs', 'src/point.rs', 'src/vector.rs'],
     [('dates', 'src/helper_functions.rs: as_datetime_local, as_double_local, ...'), ('matrix', 'src/transformation_matrix.rs')],
     observe=['Header dates, SunStudy dates, Drawing::save, Drawing::load'],
     technique='', level='other', note='')
prop('C26', 'Equivalent files load as the same drawing',
     'Line ends (CR LF, LF, mixed), a byte order mark, blanks around group codes and numbers, a missing EOF record or final line end, the size of the pieces in which the bytes arrive, and whether they come from memory or disk make no difference to the drawing that is loaded.',
     ['inputs', 'schedules'], 'for every file and every way to deliver its bytes',
     'The tests load in-memory files with CR LF line ends.',
     ['src/helper_functions.rs', 'src/code_pair_iter.rs', 'src/drawing.rs'],
     [('lines', 'src/helper_functions.rs: read_line'), ('numbers', 'src/helper_functions.rs: parse_*'), ('format detection', 'src/drawing.rs: load_with_encoding')],
     observe=['Drawing::load, Drawing::load_file'],
     technique='', level='other', note='')
