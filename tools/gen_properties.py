"""Writes /verif/properties.jsonl (edit the statements here)."""
import json
import pathlib

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(text.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(
            files=['src/csvw/' + f for f in files],
            state=[dict(name=n, meaning=m, where='src/csvw/' + w) for n, m, w in state],
            mechanism=[dict(name=n, where='src/csvw/' + w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))


prop('C01', 'DSV rows survive writing and reading under every dialect',
     """Rows of text cells written with UnicodeWriter and read back with UnicodeReader under the same
     dialect (delimiter, quote character, quote doubling or escaping, line terminator, encoding) are
     the same rows, cell for cell, whatever characters the cells contain, whether the file is
     given as path, text stream or iterable of (text or bytes) lines, and with dialect properties given as keyword
     arguments taking precedence over those of the dialect. A row which the dialect cannot
     represent makes the writer raise an error instead of being silently altered. (Except for the
     documented limitations: a leading byte order mark, cells starting with the comment prefix,
     and cells containing the escape character when minimal quoting is used.)""",
     ['inputs', 'configurations'],
     """All rows of up to 3 cells over an alphabet of the characters that are special in any dialect,
     and all dialects within the deviation bound.""",
     """The tests write a handful of harmless rows with three encodings; the interaction of a special
     character with a dialect setting and with the kind of source is never enumerated.""",
     ['dsv.py', 'dsv_dialects.py'],
     [('UnicodeWriter', 'dsv.py'), ('UnicodeReader.__enter__/_next_row', 'dsv.py'),
      ('Dialect.as_python_formatting_parameters', 'dsv_dialects.py')],
     observe=['UnicodeWriter.read()', 'bytes of the file', 'rows of UnicodeReader'])

prop('C02', 'Reader applies skip, comment, blank-row and trim settings exactly',
     """For any text and dialect, the reader yields, in order, exactly the rows that are left after
     dropping the rows within the first skipRows lines, the rows whose first raw cell starts with the
     comment prefix, and (only if skipBlankRows) the rows without content; each remaining row loses
     its first skipColumns cells and has its cells trimmed as requested. Each comment and
     each non-empty row skipped at the top is kept in the reader's comments with its (0-based) line
     number, and the line number reported for a row by UnicodeReaderWithLineNumber is the 1-based number of the last
     text line the row occupies, however many multi-line, skipped or comment rows come before it.
     Text in which a quoted cell is not terminated, or is followed by other text, is rejected with
     csv.Error instead of being read as something else.""",
     ['inputs', 'configurations'],
     'All files of up to 4 rows over an alphabet of row kinds, and all dialects within the bound.',
     """The tests check two dialects on one 5-line file; the settings interact (a multi-line comment
     in the skipped lines, blank rows before the header) and the line number is a running sum.""",
     ['dsv.py', 'dsv_dialects.py'],
     [('UnicodeReader.__next__', 'dsv.py'), ('UnicodeReaderWithLineNumber', 'dsv.py'),
      ('Dialect.trimmer', 'dsv_dialects.py')],
     state=[('lineno', 'running count of physical lines', 'dsv.py'),
            ('comments', 'comments seen so far', 'dsv.py')],
     observe=['rows', 'reader.comments', 'line numbers'])

prop('C03', 'Dict and namedtuple readers agree with the plain reader',
     """For any rows, in any supported encoding, the dict and namedtuple readers (also via iterrows) yield one item per non-empty
     data row, in order, assigning to each field name the cell in the same position as in the plain reader's row;
     surplus cells go to restkey and missing cells get restval (None in namedtuples). When field names
     are not given they are taken from the first row; a repeated field name is warned about and its last column wins; and for every
     header the namedtuple fields are the normalized names, which are valid Python attribute names (if they are not
     distinct or start with an underscore, ValueError is raised).""",
     ['inputs', 'configurations'],
     'All headers and row shapes up to 3 columns and 3 rows, with and without explicit field names.',
     'The tests use one or two fixed files; ragged rows in combination with options are not covered.',
     ['dsv.py', 'utils.py'],
     [('UnicodeDictReader.item', 'dsv.py'), ('NamedTupleReader', 'dsv.py'),
      ('normalize_name', 'utils.py')],
     observe=['items of the readers'])

prop('C04', 'In-place file edits compose like list operations',
     """After any sequence of add_rows, rewrite and filter_rows_as_dict calls on a file, the rows
     read from it are those obtained by applying the same operations to a list of rows: appended
     rows come last, the visitor sees each row exactly once with its index and its result replaces
     the row (None removes it), a filter keeps the header and exactly the matching rows (dropping
     blank lines, uncounted) and returns the number of removed rows. No other content changes, nor do
     the permissions of the file. If the file is reached through a symbolic link, the target of the link is edited.""",
     ['histories', 'inputs'],
     'All operation sequences up to the depth bound over an alphabet of operations and cell values.',
     'One test runs one fixed sequence of four calls.',
     ['dsv.py'],
     [('rewrite', 'dsv.py'), ('add_rows', 'dsv.py'), ('filter_rows_as_dict/DictFilter', 'dsv.py')],
     state=[('file content', 'rows of the DSV file', 'dsv.py')],
     observe=['rows of the file after each operation', 'return value'])

prop('C05', 'A failing or interrupted in-place edit never damages the file',
     """If rewrite, add_rows or filter_rows_as_dict fails at any point (the visitor or filter raises,
     the input is malformed or not decodable, a cell cannot be encoded, the storage is full after any
     number of bytes) or the process dies between any two file-system operations, then the file still has
     either its complete old or its complete new content, byte for byte. When the operation
     raised, it is the old content, and no temporary file is left behind; other files in the directory
     never change. This includes files reached through symbolic links, which stay links.""",
     ['crash_points', 'fault_sequences'],
     """Every fault site of every operation on the history: each visitor call, each written byte
     count, each audited file-system event.""",
     'No test makes any of the operations fail.',
     ['dsv.py'],
     [('write to a temporary file, then move', 'dsv.py')],
     state=[('temporary file', 'new content before it is moved into place', 'dsv.py')],
     observe=['bytes of the file after the failure'])

prop('C06', 'Cells are parsed according to the column description',
     """Reading a cell with a column follows the CSVW rules for parsing cells: an empty cell becomes
     the default; a missing value in a required column is an error; a string equal to a null marker becomes None; with a separator the
     string is split into a list (an empty string giving the empty list), empty items become the default and
     null items None; then each value is converted by the column's datatype. Nothing else about the cell
     is changed.""",
     ['inputs', 'configurations'],
     'All column descriptions within the deviation bound, and all cells over an alphabet.',
     'The tests read fewer than ten cells; the properties interact pairwise.',
     ['metadata.py'],
     [('Column.read', 'metadata.py'), ('Description.inherit', 'metadata.py')],
     observe=['Column.read', 'values of Table.iterdicts'])

prop('C07', 'Inherited properties come from the nearest description that sets them',
     """The value of an inherited property (null, default, datatype, separator, required,
     aboutUrl, propertyUrl, valueUrl) which takes effect for a column is the one set on the column or else on
     its schema, else on its table, else on the table group, else the default of the specification; a more distant setting never overrides
     a nearer one. The dialect of a table is its own or else the table group's or else the default dialect.""",
     ['configurations'],
     'All placements of each property on any subset of the four levels, through to reading data.',
     'Only inheritance of aboutUrl and null by one level is tested.',
     ['metadata.py'],
     [('Description.inherit/inherit_null', 'metadata.py'), ('Table._get_dialect', 'metadata.py'),
      ('parent links set on construction', 'metadata.py')],
     observe=['values read from a table', 'JSON conversion'])

prop('C08', 'Cell values survive formatting and parsing for every datatype',
     """For every built-in datatype and every value in its value space, formatting the value and parsing the
     result gives the same value again (for URIs: up to normalization), and so does writing and reading it through a column
     including None and lists of values as long as the formatted values do not contain the separator or a null marker.
     Formatting a decimal never uses scientific notation and never changes its numeric value; numbers given as another type of number (int, float, Decimal)
     keep their value, too, and date and time objects are formatted as the corresponding datetime.""",
     ['inputs', 'configurations'],
     'Every datatype with a dense boundary set of values, atomic and list-valued.',
     'Tests round-trip one or two example values per datatype.',
     ['datatypes.py', 'metadata.py'],
     [('to_python/to_string of each datatype', 'datatypes.py'), ('Column.write', 'metadata.py')],
     observe=['Datatype.formatted/parse', 'Column.write/read'])

prop('C09', 'Invalid lexical values are rejected, valid ones get the right value',
     """For the numeric, boolean, binary, NMTOKEN, JSON and string-format datatypes, a string is accepted exactly if it belongs to
     the lexical space of the datatype, and then the value is the one the string denotes (exactly, for
     integers and decimals of any length); each bounded integer type accepts exactly the integers in its range. Any other string raises ValueError.""",
     ['inputs'],
     'All strings up to length 4 over the characters with a meaning in any lexical space, and all boundary values of each type.',
     'The tests try about fifteen invalid strings.',
     ['datatypes.py'],
     [('to_python of each datatype', 'datatypes.py'), ('integer.range', 'datatypes.py')],
     observe=['Datatype.read'])

prop('C10', 'Date and time formats parse and format as specified',
     """For every date, time, and date-time format the specification recognizes, with or without
     fractional seconds and time zone marker, a point in time written in that format (by an independent
     formatter) is parsed to exactly that point in time and formatting it gives the same string again;
     text which has the shape of the format but names no existing date or time, or which lacks or adds
     characters, raises ValueError. An unrecognized format is reported when the datatype is created.""",
     ['inputs', 'configurations'],
     'All 14 date formats x 4 time formats x separators x fractions x time zone markers, with every day of chosen years and boundary times.',
     'Six formats are tested with one date each.',
     ['datatypes.py'],
     [('dt_format_and_regex', 'datatypes.py'), ('dateTime.to_python/_parse', 'datatypes.py'),
      ('with_tz', 'datatypes.py')],
     observe=['Datatype.parse/formatted'])

prop('C11', 'Number formats are honoured when parsing and formatting',
     """For a decimal or integer datatype with a number pattern and/or group and decimal characters,
     formatting a number yields its digits grouped, padded and rounded as the pattern says, using the given characters, and parsing that string gives back
     the (rounded) number; strings which violate the pattern (misplaced or doubled group separators, too many or too few digits)
     are rejected, and a percent or permille sign scales the value.""",
     ['inputs', 'configurations'],
     'All patterns of a family x group and decimal characters x a dense set of numbers; all strings with a misplaced separator.',
     'Four patterns are tested with one number each.',
     ['datatypes.py'],
     [('decimal.to_python/to_string', 'datatypes.py'), ('NumberPattern.is_valid', 'datatypes.py')],
     observe=['Datatype.parse/formatted'])

prop('C12', 'Length and value constraints accept exactly the conforming values',
     """A datatype accepts a value exactly if it satisfies each length constraint (length, minLength, maxLength, in characters or bytes) and
     each value constraint (minimum, maximum, min/maxInclusive, min/maxExclusive) that is set, including bounds of zero. Creating a datatype whose constraints
     contradict each other or do not apply to the base datatype raises ValueError; every other combination is accepted.""",
     ['inputs', 'configurations'],
     'All combinations of constraints over small bounds, and all values around the bounds, per base datatype.',
     'Six combinations are tested; zero bounds, exclusive bounds and dates are not.',
     ['metadata.py'],
     [('Datatype.validate', 'metadata.py'), ('Datatype.__attrs_post_init__', 'metadata.py')],
     observe=['Datatype.read', 'Datatype.fromvalue'])

prop('C13', 'Metadata survives serialization',
     """Writing a table group or table description to a file and reading it back gives an equal
     description which reads the same data; serializing again gives the same JSON,
     whether or not defaults are omitted. No property set to a valid, non-default value
     is lost or changed by serialization at any level (table group, table, schema, column, datatype,
     dialect, foreign key, common properties, natural language titles).""",
     ['inputs', 'configurations'],
     'All descriptions with up to 3 properties deviating from the minimal one, at all levels.',
     'Two fixture files are round-tripped.',
     ['metadata.py', 'utils.py', 'dsv_dialects.py'],
     [('DescriptionBase.asdict/_iter_dict_items', 'metadata.py'), ('attr_asdict', 'utils.py'),
      ('fromvalue/partition_properties', 'metadata.py')],
     observe=['asdict()', 'to_file/from_file'])

prop('C14', 'Invalid metadata is reported, not silently accepted',
     """A metadata property with a value of the wrong type or outside its domain is either rejected with ValueError
     (where the specification demands an error) or reported with a warning and replaced by its default, so that the
     effective description is the one without the property (an unknown datatype counts as string, an invalid URI template as the
     empty one; a column name which is not a valid URI template variable and a boolean given as the string "true" or "false" are
     reported, but kept); valid metadata causes neither warning nor error. Unknown properties are warned about and ignored.""",
     ['inputs', 'configurations'],
     'Every property of every description object x an alphabet of wrong-typed and boundary values.',
     'The W3C validation suite, which samples this, is not available in the repository; the unit tests cover five cases.',
     ['metadata.py', 'dsv_dialects.py', 'utils.py'],
     [('utils.converter', 'utils.py'), ('attrs converters/validators', 'metadata.py'),
      ('valid_common_property', 'metadata.py')],
     observe=['TableGroup.fromvalue: exception, warnings, resulting description'])

prop('C15', 'Rows written to a table are the rows read from it',
     """Rows (dicts, lists or tuples) written with Table.write under any table schema, dialect and target are read back by iterating
     the table as the same values, in the same order, with missing keys read as null; the return value is the number of rows (or, without file name, exactly the
     bytes that would have been written as UTF-8). In strict mode a row with an unspecified key raises ValueError; otherwise the key is ignored.""",
     ['inputs', 'configurations'],
     'All schemas, dialects and row sets within the deviation bound over alphabets chosen to collide.',
     'The tests round-trip a few rows with the default dialect.',
     ['metadata.py', 'dsv.py'],
     [('Table.write', 'metadata.py'), ('Table.iterdicts', 'metadata.py')],
     observe=['rows read', 'return value', 'bytes of the file'])

prop('C16', 'Columns are matched by header name, in any order',
     """When a data file has a header, each cell is read with the column description whose name, title or
     property URL equals its header, in whatever order the columns come, and appears under that column's name; columns
     absent from the file read as None, columns unknown to the schema appear unchanged under their header (with a warning), and a missing
     required column raises ValueError. Without header, and in non-strict mode, cells are matched to columns by position; virtual columns get
     their expanded value URL.""",
     ['inputs', 'configurations'],
     'All permutations, subsets and extensions of the header, for schemas of up to 3 columns with names and titles.',
     'Two headers are tested.',
     ['metadata.py'],
     [('Table.iterdicts header matching', 'metadata.py'), ('Schema.get_column', 'metadata.py')],
     observe=['rows read', 'warnings', 'exceptions'])

prop('C17', 'Errors in a row are reported precisely and do not affect other rows',
     """When a table is iterated with a log, exactly the rows containing an invalid or missing required cell are left out,
     every such cell is reported once with file name, line number and column, and all other rows are yielded with the values they would
     have on their own; without a log, iteration yields the rows before the first bad one and then raises ValueError naming
     the place. In non-strict mode every row is yielded, invalid cells with their text, and a warning is issued.""",
     ['inputs', 'histories'],
     'All files of up to 4 rows over an alphabet of good and bad rows, times reading modes.',
     'One file with one bad row is tested.',
     ['metadata.py'],
     [('Table.iterdicts error handling', 'metadata.py'), ('log_or_raise', 'metadata.py')],
     observe=['rows', 'log calls', 'exceptions', 'warnings'])

prop('C18', 'The same data reads the same from every kind of source',
     """A table yields the same rows and line numbers whether its data is a plain file, a zip archive next to where the file would be,
     a file name or open file passed in, or fetched by HTTP, in any supported encoding and with any line ends within or between cells; if the source is
     missing, fails or is damaged (e.g. an HTTP error status, whatever the content of the error page; a corrupt archive) an error is raised, and nothing else is taken for the data. Any number of iterations over
     the same table, interleaved in any way with each other, with writing other tables or with abandoned iterations, each yield the complete, correct rows.""",
     ['configurations', 'schedules', 'inputs'],
     'All sources x encodings x line ends x cell contents; all interleavings of two iterators over up to 3 rows each.',
     'One zipped fixture and one mocked URL are read; iterators are never interleaved.',
     ['metadata.py', 'dsv.py'],
     [('Table.iterdicts source handling', 'metadata.py'), ('Table.write _zipped', 'metadata.py')],
     observe=['rows', 'line numbers'])

prop('C19', 'Primary key violations are found exactly',
     """check_primary_key returns True exactly if no two rows of the table have equal values in all primary key columns;
     otherwise it raises ValueError, or with a log reports each row that repeats an earlier key, with its line number, and returns False. Keys compare
     by value after datatype conversion; a table without primary key always passes.""",
     ['inputs', 'configurations'],
     'All tables of up to 4 rows over 3 values and nulls, single and composite keys, several datatypes.',
     'One duplicate in one single-column key is tested.',
     ['metadata.py'],
     [('Table.check_primary_key', 'metadata.py')],
     observe=['return value', 'exception', 'log calls'])

prop('C20', 'Referential integrity violations are found exactly',
     """check_referential_integrity succeeds exactly if every foreign key value (each item of a list-valued foreign key; composite keys
     compared as a whole; rows with a null in the key are exempt unless strict) occurs in the referenced columns of the referenced table, for
     all foreign keys of all tables; otherwise it raises ValueError or, with a log, reports each dangling reference and returns False. In strict mode it additionally
     fails for null foreign keys and for references to non-unique keys.""",
     ['inputs', 'configurations'],
     'All pairs of small tables over a colliding alphabet, all shapes of foreign keys, several foreign keys per table and target.',
     'Two key shapes are tested with one dangling value each.',
     ['metadata.py'],
     [('TableGroup.check_referential_integrity', 'metadata.py'), ('TableGroup.validate_schema', 'metadata.py')],
     observe=['return value', 'exception', 'log calls'])

prop('C21', 'Data survives a round trip through the SQLite database',
     """Rows written to a Database for a table group are read back as the same rows: same tables, same order, same keys and same values,
     including None versus empty list, list-valued columns and list-valued foreign keys with their items in order, for every
     supported datatype, separator, composite key, name translation, also for tables without described columns, and irrespective of the order of the tables in the group
     (a null list-valued foreign key is read as an empty list; tables whose primary key is a single integer column are read in
     the order of the key).""",
     ['inputs', 'configurations'],
     'All table groups and rows within the deviation bound over datatypes, separators, nulls, key shapes and translations.',
     'One example value per datatype and three list cases are tested.',
     ['db.py'],
     [('Database.write/read', 'db.py'), ('TYPE_MAP/ColSpec', 'db.py'), ('association tables', 'db.py')],
     observe=['Database.read()'])

prop('C22', 'The database enforces exactly the declared constraints',
     """Writing rows to a Database fails with sqlite3.IntegrityError if they violate a declared constraint which is translated to the database (required columns, primary keys,
     foreign keys, list-valued foreign keys, minimum/maximum, lengths), and succeeds otherwise; deleting a referenced row also deletes the ones
     which reference it; tables are
     created in an order that satisfies all references for every acyclic reference graph, and cyclic references raise
     ValueError.""",
     ['inputs', 'configurations'],
     'All reference graphs over up to 4 tables; all rows around the bounds of each constraint.',
     'Twelve value/constraint pairs and two foreign key violations are tested.',
     ['db.py'],
     [('TableSpec.sql/ColSpec.check', 'db.py'), ('schema()', 'db.py'), ('PRAGMA foreign_keys', 'db.py')],
     observe=['exceptions of Database.write', 'sqlite_master'])

prop('C23', 'Database files are never clobbered or half-filled',
     """Writing to a database file that exists raises ValueError and leaves the file untouched unless force is given, in which case the
     result is exactly what writing to a fresh file gives; when writing fails for any reason, no row of
     the failed write is left in the database. Every successful write on one Database object is visible
     to a following read, whatever sequence of writes and failures came before.""",
     ['histories', 'fault_sequences'],
     'All sequences of write/forced write/failing write/read up to the depth bound, for file and in-memory databases.',
     'One forced overwrite of an empty file is tested.',
     ['db.py'],
     [('Database.write', 'db.py'), ('Database.connection', 'db.py')],
     observe=['Database.read()', 'bytes of the file', 'exceptions'])

prop('C24', 'JSON conversion follows the csv2json rules',
     """CSVW.to_json yields for every table not suppressed, one row object per data row with consecutive row numbers and the source line in
     its URL, describing the subject given by aboutUrl with one property per non-null, non-suppressed column (named by propertyUrl or column name,
     valued by valueUrl or the typed cell value), lists kept in order, plus virtual columns, notes,
     comments and annotations; minimal mode yields exactly the subject objects.""",
     ['inputs', 'configurations'],
     'All table descriptions within the deviation bound over the properties that affect conversion, times small data.',
     'The W3C JSON test suite is not in the repository; three conversions are run without checking their content.',
     ['metadata.py', 'jsonld.py'],
     [('CSVW.to_json/_table_to_json/_row_to_json/_describes', 'metadata.py'), ('group_triples/format_value', 'jsonld.py')],
     observe=['CSVW.to_json()'])

prop('C25', 'Validation accepts exactly the valid datasets',
     """CSVW(url, validate=True).is_valid is True exactly if metadata and data have none of the problems that can be planted in a valid
     dataset (invalid metadata properties, invalid or missing required cells, mismatching headers, duplicate primary keys, dangling, null or ambiguous foreign keys), in any
     combination; problems that make the metadata unusable raise ValueError. The csvwvalidate command exits with 0, 1 and 2 respectively.""",
     ['inputs', 'configurations'],
     'All combinations of up to 3 problems from the alphabet of problems, for table groups and single tables.',
     'Three datasets are validated in tests.',
     ['metadata.py', '__main__.py'],
     [('CSVW.__init__/is_valid', 'metadata.py'), ('csvwvalidate', '__main__.py')],
     observe=['is_valid', 'exit code', 'output'])

prop('C26', 'Metadata is located in the specified order of precedence',
     """For a CSV URL the metadata used is, in this order: the one supplied by the user, the one linked from the
     Link header, the first of the locations listed in /.well-known/csvm (or the default
     locations if there is none) that exists, is JSON and describes the URL, else none (only the header row is used); whatever the web server answers for
     each request. A metadata document that does not describe the file is skipped with a warning.""",
     ['fault_sequences', 'configurations'],
     'All combinations of server answers for each of the requests.',
     'Metadata location is only exercised by the W3C tests, which are not in the repository.',
     ['metadata.py'],
     [('CSVW.locate_metadata', 'metadata.py')],
     observe=['CSVW.t', 'CSVW.warnings', 'rows'])

prop('C27', 'Links and URI templates resolve against the right base',
     """A relative link is resolved against the location of its metadata document (or @base, or the @base of the context), giving a path for local and a URL for remote
     metadata, while absolute URLs are unaffected; URI templates are expanded with the row's column values
     and the variables _row and _name, resolved against the table URL, and prefixed names are expanded to the namespace and
     back. This holds for every combination of where the metadata lives and how the base is given.""",
     ['inputs', 'configurations'],
     'All combinations of base kinds, link shapes and template shapes from the alphabets.',
     'Five links and one template are tested.',
     ['metadata.py'],
     [('Link.resolve', 'metadata.py'), ('TableLike.base/expand', 'metadata.py')],
     observe=['Link.resolve', 'TableLike.expand', 'CSVW.to_json URLs'])

prop('C28', 'Frictionless data packages convert faithfully',
     """For every data package, the table group made from it has one table per tabular file resource, in order, with the same path, column names, titles,
     primary key, missing values and dialect, with each field type mapped to the corresponding datatype (with its decimal, group, true and false characters) and each
     required, length, bound and (for texts) pattern constraint enforced when data is read, foreign keys pointing to the right table (also self-references), and the
     package's metadata kept as common properties.""",
     ['inputs', 'configurations'],
     'All packages within the deviation bound over field types, formats, constraints, keys and dialects.',
     'One package is converted.',
     ['frictionless.py'],
     [('convert_column_spec', 'frictionless.py'), ('convert_table_schema/convert_foreignKey', 'frictionless.py'),
      ('DataPackage.to_tablegroup', 'frictionless.py')],
     observe=['TableGroup.asdict()', 'values and errors when reading data'])

prop('C29', 'Reading, checking and converting never change the dataset',
     """Any sequence of read-only operations (iterating, checking keys and integrity, serializing,
     validating, converting to JSON or markdown, locating columns, loading into a database) on a table group leaves its serialized metadata and the data
     files unchanged, and each operation gives the same result as on a freshly loaded dataset. Changing a property of a description
     or dialect takes effect in all operations that follow.""",
     ['histories'],
     'All sequences of up to 3 operations (incl. one mutation) from the alphabet of operations.',
     'Each test performs one operation on a fresh object.',
     ['metadata.py', 'dsv_dialects.py', 'utils.py', 'db.py'],
     [('lazily computed and cached values', 'dsv_dialects.py'), ('CSVW.to_json', 'metadata.py')],
     observe=['asdict()', 'results of each operation'])

prop('C30', 'A table group can be written and copied to another directory',
     """TableGroup.write puts the data of each table named and the metadata such that loading the metadata file
     gives back exactly the rows written, zipped or not; TableGroup.copy to any directory yields byte-identical data files and metadata that reads the same rows, both through the
     object copied and through the new metadata file, without touching the original.""",
     ['configurations', 'histories'],
     'All table groups and rows within the deviation bound; sequences of write and copy.',
     'One group with one table is written and copied.',
     ['metadata.py'],
     [('TableGroup.write/copy', 'metadata.py'), ('TableLike.to_file', 'metadata.py')],
     observe=['rows read from the target', 'files in source and target directory'])

prop('C31', 'Markdown documentation covers every table and column',
     """The markdown rendered for a table group contains one section per table, in order, listing every column exactly once in order with its name, datatype
     (with list separator, choices, regex and bounds), description, primary key membership and the foreign key target with a link to an
     existing section anchor; the texts in nested common properties of tables are shown as text, not markup. Rendering succeeds for every valid description.""",
     ['configurations'],
     'All descriptions within the deviation bound over the properties that are rendered.',
     'Two fixture files are rendered and checked for one substring each.',
     ['utils.py', '__main__.py'],
     [('metadata2markdown', 'utils.py')],
     observe=['text returned by metadata2markdown', 'csvw2markdown'])

prop('C32', 'Command line tools report and write exactly what the data contains',
     """csvwvalidate exits with status 0 and prints OK exactly if the dataset is valid, with 1 if validation found problems and 2 if the input cannot be
     processed (missing or unreadable files, documents which are no CSVW metadata), printing FAIL and, if asked for, the problems. csvw2json prints the
     JSON conversion of the dataset, csvw2sqlite and csvw2datasette write databases with exactly the rows of all tables (also for CSV files without metadata,
     where the command accepts them), csvw2markdown prints the documentation, csvwdescribe prints metadata which describes all the given files with their
     columns and delimiters. This holds from whatever directory, with relative or absolute paths; the input files are never changed, an existing database
     is only replaced by csvw2sqlite.""",
     ['configurations', 'inputs'],
     'All kinds of datasets (with and without metadata) x problems x tools x ways to give the path and the options, within the deviation bound.',
     'The tests call each tool once or twice on fixtures, with parsed arguments, and look whether there is any output.',
     ['__main__.py', 'metadata.py', 'db.py', 'frictionless.py'],
     [('csvwvalidate', '__main__.py'), ('csvw2json', '__main__.py'), ('csvw2sqlite', '__main__.py'), ('csvw2datasette', '__main__.py'),
      ('csvwdescribe', '__main__.py')],
     observe=['exit status and output of the commands', 'the files written'])

prop('C33', 'Concurrent use gives the same results as sequential use',
     """Operations which read descriptions (reading rows, converting to JSON, checking keys and references, parsing and formatting cells, writing rows to files
     or to a database, serializing metadata, rendering markdown), loading of descriptions and reading, writing and rewriting of DSV files, executed in
     two threads at the same time, on the same or on different description objects and on different output files, yield the results each of them yields when
     executed alone, wherever the threads are switched; and they leave the shared description as it was. (Except for validation with CSVW(validate=True) and is_valid.)""",
     ['schedules', 'configurations'],
     'All ordered pairs of 14 operations, all points of preemption (before each line) of one thread by the other; all pairs of calls for two preemptions.',
     'No test uses threads; interference needs a switch at one particular line.',
     ['metadata.py', 'dsv.py', 'datatypes.py', 'jsonld.py', 'db.py', 'utils.py', 'frictionless.py'],
     [('Table.iterdicts', 'metadata.py'), ('CSVW.to_json', 'metadata.py'), ('rewrite', 'dsv.py'), ('Database.write', 'db.py')],
     observe=['results of both threads', 'the description afterwards'])

prop('C34', 'Files and database connections are closed, whatever happens',
     """When an operation has ended - normally, by an exception, or because a generator was closed before it was exhausted - each file and each connection to a
     database file which it opened has been closed explicitly, i.e. while the exception and the objects involved still exist, without depending on the garbage
     collector: reading DSV files (iterrows, the readers as context managers) and tables (also zipped ones), writing, rewriting and extending files, checking keys
     and references, loading, copying and writing of datasets, conversion (JSON, markdown, frictionless packages), reading and writing SQLite database files, and the
     commands. This holds for malformed or invalid data and archives, failing callbacks and row iterators, files which cannot be opened, created or removed, and full disks.
     File objects passed in by the caller are left open.""",
     ['fault_sequences', 'inputs', 'histories'],
     'All operations x kinds of data (plain and zipped) x each failing file system event, size limit, callback call and number of rows consumed, within the deviation bound.',
     'A leaked descriptor is invisible in the results, and CPython mostly cleans up before a test could notice; the leaks are in the paths of failures.',
     ['dsv.py', 'metadata.py', 'db.py', 'frictionless.py', '__main__.py'],
     [('UnicodeReader.__exit__', 'dsv.py'), ('UnicodeWriter.__exit__', 'dsv.py'), ('Table.iterdicts', 'metadata.py'), ('Table.write', 'metadata.py'),
      ('Database.connection', 'db.py')],
     observe=['file objects, connections and descriptors after the operation', 'files passed in by the caller'])

prop('C35', 'Results do not depend on the environment of the process',
     """The same operations on the same files yield the same results - parsed and formatted values, rows, messages (as a set, for validations), JSON, markdown, the
     SQL schema and rows, and the bytes of written text files, incl. all orders within them - in every process, whatever its hash seed (PYTHONHASHSEED), locale variables
     (LC_ALL, LC_TIME, LC_NUMERIC, LANG, LANGUAGE - incl. unknown ones), time zone, default text encoding, current date and time, current directory (given absolute paths),
     temporary directory, warnings filter (PYTHONWARNINGS=ignore, once, always), decimal context (precision, rounding) and garbage collector settings.""",
     ['configurations'],
     'All environments with up to two (thorough: three) settings which differ from the default x a fixed catalogue of about 80 operations.',
     'Tests run in one environment only; dependencies on it show up for users elsewhere.',
     ['datatypes.py', 'metadata.py', 'dsv.py', 'db.py', 'frictionless.py', 'jsonld.py', 'utils.py', '__main__.py'],
     [('format_with_tz', 'datatypes.py'), ('decimal', 'datatypes.py'), ('json_open', 'metadata.py'), ('UnicodeReader.__enter__', 'dsv.py'),
      ('schema', 'db.py'), ('DataPackage', 'frictionless.py')],
     observe=['results of the operations', 'bytes of the files written'])

prop('C36', 'Built or edited metadata acts like the same metadata in a file',
     """A table group which is built or edited step by step - adding (constructed, or made from JSON), inserting, reordering, renaming and removing tables and columns,
     virtual columns, titles, keys (add_foreign_key rejects unknown columns with ValueError and changes nothing), schemas, dialects, inherited and common properties - serializes
     to the equivalent JSON, and in all that can be done with it acts like a table group read from a file with that JSON: rows written (and the bytes of the files), read back,
     primary keys and references checked, databases written. The same holds for copies of it (copy.deepcopy, pickle, fromvalue(asdict()), to_file/from_file).""",
     ['histories', 'inputs'],
     'All sequences of up to 3 (thorough: 4) of about 38 operations from 3 starts, all kinds of copies after up to 2, with rows of all kinds of columns.',
     'Tests build small groups in a single way; stale lookup tables and shared state need an edit after a use.',
     ['metadata.py', 'db.py'],
     [('TableGroup/Table/Schema/Column', 'metadata.py'), ('Table.add_foreign_key', 'metadata.py'), ('NaturalLanguage', 'metadata.py'), ('Database', 'db.py')],
     observe=['asdict()', 'files written', 'rows read', 'results of checks'])

if __name__ == '__main__':
    out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
    for p in P:
        assert len(p['title']) <= 80, p['id']
    out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P), encoding='utf8')
    print(len(P), 'properties')
