"""Hand-written part of DESIGN.md, per property: what is compared with what, and why tests fall short."""
T = {}


def t(pid, oracle, reach):
    T[pid] = (' '.join(oracle.split()), ' '.join(reach.split()))


t('C01', """Writes rows with UnicodeWriter and reads the bytes back with `reader`, for every dialect
  (delimiter, quote, escape, doubleQuote, skipInitialSpace, encoding, line terminator, header), target and source.
  Oracle: the rows themselves, plus `ref_parse` (checks/common.py), a parser of its own, applied to the bytes.""",
  """Quoting defects need a special character next to another one under one particular dialect;
  the dense harness has all strings of up to two such characters in every position, for all dialects within the bound.""")
t('C02', """Files of up to three (wide: more) lines of every kind (comment, blank, quoted multi-line, short, padded) are read
  under every dialect (skipRows, header rows, skipColumns, skipBlankRows, commentPrefix, trim). Oracle: a line-level model
  computing rows, comments and line numbers. All short texts over the characters with a meaning: well-formed
  ones are read as an automaton says, others must be rejected.""",
  """The settings interact (a comment within skipped rows, a blank line after trimming, line numbers behind multi-line cells).""")
t('C03', """Dict and namedtuple readers, over all headers (duplicates, keywords, empty), row lengths, rest keys;
  `normalize_name` for every Unicode code point in context. Oracle: the plain reader plus a dict model; `str.isidentifier` and `keyword`.""",
  'All code points and all shapes of rows cannot be listed in tests.')
t('C04', """Sequences of add_rows, filter_rows_as_dict, rewrite on one file. Oracle: the same operations on a list of rows;
  permissions of the file and the other files of the directory are part of the state.""",
  'A history of edits can go wrong where each single edit is right.')
t('C05', """Fault enumeration: exceptions of the callback at its k-th call, process death (os._exit in a forked child)
  before each line of csvw or stdlib code executed, failure of each audited file-system event, storage full after n bytes (RLIMIT_FSIZE),
  unreadable input, unwritable rows at each position. Oracle: the file is either the old or the new one, no litter is left behind after exceptions.""",
  'Crash points are not reachable by unit tests at all.')
t('C06', """Column.read (directly and through files) for every combination of null, default, separator, required, datatype, and every
  cell of an alphabet. Oracle: `ref_cell`, written from the cell parsing rules of the W3C model.""",
  'The rules interact: e.g. default and null and separator in a required column.')
t('C07', """Each inherited property is placed on every subset of the levels (group, table, schema, column) with a value naming its level;
  observed in reading, writing, JSON, database. Oracle: nearest level wins. Dialects likewise (table, group, default).""",
  'Tests set a property at one level; shadowing needs all subsets, for every observer.')
t('C08', """parse(format(v)) == v and column.read(column.write(v)) for every datatype, format and value of dense domains.
  Oracle: the value itself, by type.""", 'Dense domains for all datatypes, in lists with nulls.')
t('C09', """All strings up to a length over the alphabet of each datatype. Oracle: recognisers and value functions written from the XML Schema grammar.""",
  'Over-acceptance is only seen on invalid texts next to valid ones; all short strings are enumerated.')
t('C10', """Every date, time and date-time format of the specification with all zone markers: formatted and parsed for every day of the
  boundary years and boundary times; spoiled texts are judged by an independent recogniser built from the format; all candidate formats are recognised or reported.""",
  'The number of combinations of formats, zones and values is far beyond what tests list.')
t('C11', """A reference implementation of number patterns (UAX 35 subset) formats every number and judges every short text over digits, signs, separators.""",
  'Rounding, grouping and padding interact; texts which should be rejected are never in tests.')
t('C12', """All combinations of length and value constraints (also inclusive/exclusive and contradictory ones) with all values at, between and next to the bounds.
  Oracle: comparison of exact values computed independently.""", 'Boundary errors need a value exactly at the bound, for each datatype and kind of bound.')
t('C13', """Descriptions with every property of every object, loaded, serialized (asdict, to_file, with and without defaults) and loaded again, twice.
  Oracle: normal form of the input computed by the harness; same reading behaviour.""", 'Tests round-trip a few fixtures; each property in each place needs a case.')
t('C14', """Each property of each object with each of some 40 JSON values, alone, next to valid ones and in pairs. Oracle: a table of validity predicates
  written from the metadata vocabulary; accepted values must take effect, invalid ones must give an error or a warning and have no effect, inputs must not be mutated.""",
  'The vocabulary has about 70 property places; tests cover few invalid values.')
t('C15', """Table.write then iterdicts for schemas x dialects x rows x ways of writing (file, zip, text, group), and histories of writes. Oracle: list of rows with the null/default rules of C06.""",
  'The combinations of schema features with dialects.')
t('C16', """All schemas of three columns with names, titles (languages), virtual columns x headers x rows; column lookup; edits of schemas between reads. Oracle: name/title matching model.""",
  'Order and subset of columns and titles multiply.')
t('C17', """Rows with errors of every kind in every position, in strict, logging and non-strict mode, with interleaved good rows. Oracle: row list plus (line, column) of each error.""",
  'Errors after multi-line cells, comments, skipped rows need exact positions.')
t('C18', """One text in every encoding, BOM, line end, from path, str, file object, zip, HTTP, and all interleavings of two iterations, checks and writes on tables sharing a description; all HTTP statuses and error pages; archives damaged at every byte.
  Oracle: the same rows; each iterator is independent.""", 'Schedules of several live iterators are a state space, not a case.')
t('C19', """All files of up to three rows over an alphabet with equal and different key cells x key definitions; dense longer files. Oracle: counting model (which rows are duplicates, which messages).""",
  'Needs all equality patterns.')
t('C20', """All graphs of references between up to three tables (composite, list-valued, self-references) x all small contents. Oracle: set inclusion model; log messages.""",
  'All contents of referencing and referenced rows, incl. nulls and duplicates.')
t('C21', """Every datatype x separator x null marker x value, and foreign keys of all kinds (list-valued, composite, to non-keys), written to SQLite and read back in another object. Oracle: the rows.""",
  'Combinations of types, lists and relations, with name translation.')
t('C22', """The database accepts a row exactly if the model says the declared constraints hold; all graphs of 4 tables in all orders. Oracle: constraint model; `ref` values; SQL executed by SQLite itself.""",
  'CHECK constraints are wrong only for certain values; order of creation needs all graphs.')
t('C23', """Histories of writes (forced or not, failing or not) and reads on one or two Database objects; process death at each line, each SQLite call failing, each file-system event failing, storage full. Oracle: the file holds the old or the new data, never a part.""",
  'Fault points.')
t('C24', """JSON conversion of tables with every part of the algorithm (about/property/value URLs, virtual columns, lists, languages, suppressed output, notes, several subjects with all reference graphs),
  every datatype x value, metadata-less data. Oracle: an implementation of csv2json (standard and minimal mode) in the check.""",
  'All reference graphs between subjects in a row; datatypes x lists x formats.')
t('C25', """A valid dataset changed by up to two defects out of a large list, and all contents of small tables, validated through CSVW.is_valid, from local files and HTTP. Oracle: expected verdict by construction and by counting models.""",
  'A verdict must be right for all combinations, e.g. a second validation, filters of warnings.')
t('C26', """All answers of a web server (missing, wrong type, not JSON, not describing the file, redirects by site-wide configuration, Link headers) at each step of locating metadata. Oracle: a model of section 5 of the specification.""",
  'The protocol has several steps with about eight answers each.')
t('C27', """Every way to give a base (location, @base, local context) x links x kinds of links; all operators of RFC 6570 in templates; all prefixed names. Oracle: urllib-based model, own template expander.""",
  'Resolution depends on several inputs at once.')
t('C28', """Every frictionless field type x format x constraint; packages with keys, dialects, encodings, metadata, other resources. Oracle: reading the data with a model of the frictionless semantics.""",
  'The conversion is a large table of independent cases which interact through the null values and dialects.')
t('C29', """Histories: up to two read-only operations out of all (iterate, check keys, validate, convert, serialize, database, markdown, access) then every operation; or an operation, a change, an operation. Oracle: the same on a fresh object / on the changed description loaded anew.""",
  'Caches and hidden state show up only in sequences.')
t('C30', """Write, copy and write again to other directories (zipped, nested URLs, @base), reading everything in between. Oracle: the rows; every copy is independent; only the expected files exist.""",
  'Histories over several directories.')
t('C31', """Markdown of rich descriptions is parsed by the check and compared with the description, incl. anchors of links.""",
  'Tests look for one substring.')
t('C32', """The commands run with all kinds of datasets, problems, paths and options; csvwdescribe with the real frictionless command. Oracle: verdict by construction, rows by construction, the API for the documentation.""",
  'Tests only look for any output.')
t('C33', """Two real threads under a controlled scheduler (line tracer): each ordered pair of 14 operations on shared objects, the first preempted before each line it executes; with two preemptions at all pairs of calls. Oracle: the results of the operations executed alone, and the unchanged description.""",
  'A race shows only if the switch happens at one particular line.')
t('C34', """About 60 operations (the whole API, the commands) on good and bad datasets, plain and zipped; in each, every audited file system event fails once, storage is full at each of eight sizes, each callback fails at each call, generators are abandoned (closed, or an exception thrown in) after each row. Monitor: all file objects and connections which were created, and /proc/self/fd, looked at while the exception still exists.""",
  'Leaks occur only on the paths of failures, and the garbage collector hides them from tests.')
t('C35', """One process per environment (dimensions: hash seed, locale variable and value, time zone, text encoding, warnings filter, time, decimal context, garbage collector, directories), up to two deviations at a time; each runs a catalogue of about 80 operations (every datatype, all operations of C33, validation, databases, commands). Oracle: the outcome in the default environment (the correctness of which the other properties decide).""",
  'One test run is one environment.')
t('C36', """All histories of edits of a table group, with a plain JSON document edited in lock-step as model; after each history the group is serialized, written, read, checked (also with a row dropped or repeated) and put into a database. Oracle: the model - the expected rows follow from its columns - and a group freshly read from the model.""",
  'Stale caches and shared mutable state need a particular order of edits and uses.')
