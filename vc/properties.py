"""The properties (source of properties.jsonl)."""
PROPERTIES = [
 dict(id='P01', title='Stream and table names survive their packed encoding',
  statement='Every stream name, and every table name within the format\'s length limit, is stored under a packed name that decodes back to exactly the name given; hence two different names are never stored under the same packed name. A table name that is too long is refused, never shortened, and the packed name of a table carries the table marker that stream names do not.',
  quantifier=(['inputs'], 'all UTF-8 names that do not use the code points the packing itself uses (U+3800 to U+4840)'),
  why_tests_cant='The packing pairs characters and depends on every pair and on multi-byte neighbours; tests name a handful of streams.',
  anchors=dict(files=['libmsi/table.c'], mechanism=[('packed name codec', 'encode_streamname, decode_streamname, utf2mime, mime2utf')],
   observe_at=['names listed by msiinfo streams / msiinfo tables and the _Streams table after reopening'])),
 dict(id='P02', title='The string pool gives each text one stable id',
  statement='Within an open database every distinct non-empty text has exactly one id and every id one text: adding or looking up a text finds the id whose text is byte-for-byte that text, and looking up the id gives the text back. Adding a text never changes the text of an id already in use, even one used only by temporary rows, and use counts never wrap, so a text in use is never treated as unused.',
  quantifier=(['inputs', 'histories'], 'all reachable pools and all texts added to them'),
  why_tests_cant='The invariant has to hold after every sequence of insertions, including pools that are full or grow, and for any number of uses.',
  anchors=dict(files=['libmsi/string.c'], mechanism=[('string pool', '_libmsi_add_string, _libmsi_id_from_string_utf8, msi_string_lookup_id')],
   state=[('string_table', 'texts by id with their use counts, and ids sorted by text', 'libmsi/string.c')],
   observe_at=['string values read back from any table'])),
 dict(id='P03', title='Saving and loading the string pool loses nothing',
  statement='The string pool written at commit loads again with the same code page and, for every text used by stored rows, the same id, text and use count, whatever the length of the texts, including texts of 64 KiB and more. Ids not used by stored rows stay unused, and the width of the string references in tables is the one the saved pool announces.',
  quantifier=(['inputs', 'histories'], 'all pools: any number of texts, any lengths, unused ids in any places, any valid code page'),
  why_tests_cant='Texts beyond 64 KiB, holes among the ids and empty pools with a code page take special encodings that tests do not combine.',
  anchors=dict(files=['libmsi/string.c'], mechanism=[('pool writer and reader', 'msi_save_string_table, msi_load_string_table, string_totalsize')],
   state=[('_StringPool, _StringData', 'the stored pool', 'libmsi/string.c')],
   observe_at=['string values and code page after commit and reopen'])),
 dict(id='P04', title='A malformed string pool cannot corrupt memory',
  statement='Opening a database whose string pool streams contain arbitrary bytes reads nothing outside those streams and corrupts no memory. Every text the pool then offers is terminated, lies within the stored data and is found again by looking it up.',
  quantifier=(['inputs'], 'all contents and sizes of the two pool streams'),
  why_tests_cant='The streams are attacker controlled; tests only open well-formed files.',
  anchors=dict(files=['libmsi/string.c'], mechanism=[('pool reader', 'msi_load_string_table, msi_addstring, init_stringtable')],
   observe_at=['libmsi_database_new on a crafted file'])),
 dict(id='P05', title='Saving and loading a table loses no row, cell or column',
  statement='After a commit, the database that is opened again has exactly the tables of the catalogue, each with the same columns (name, type, order) and exactly its persistent rows, and every cell (integer, string reference, binary marker, missing value) holds what it held before, for both widths of string references. Temporary rows are not saved, wherever they lie among the others.',
  quantifier=(['inputs', 'histories'], 'all tables: any columns, any rows, any mix of persistent and temporary rows, both widths of string references'),
  why_tests_cant='The stored form is column-wise with widths that depend on types and on the size of the string pool; tests use small tables without temporary rows.',
  anchors=dict(files=['libmsi/table.c'], mechanism=[('table writer and reader', 'save_table, read_table_from_storage, _libmsi_database_commit_tables, table_calc_column_offsets')],
   state=[('_Tables, _Columns, table streams', 'the stored tables', 'libmsi/table.c')],
   observe_at=['rows and columns queried after commit and reopen'])),
 dict(id='P06', title='Malformed table streams cannot corrupt memory',
  statement='Opening and reading a table whose catalogue and stream contain arbitrary bytes (duplicate, missing or out of range column numbers, arbitrary type words, streams that are no multiple of the row size) reads nothing outside the streams and corrupts no memory: the table is refused, or every cell of every row it then has can be read.',
  quantifier=(['inputs'], 'all contents and sizes of the catalogue and table streams'),
  why_tests_cant='The streams are attacker controlled; tests only open well-formed files.',
  anchors=dict(files=['libmsi/table.c'], mechanism=[('table reader', 'get_tablecolumns, table_get_column_info, read_table_from_storage, table_view_fetch_int')],
   observe_at=['SELECT on a crafted file'])),
 dict(id='P07', title='Cell values are stored and returned exactly, or refused',
  statement='A value written to a cell by an insertion or an update is what reading the row returns: integers of the whole range of the column\'s width, texts byte for byte, missing values as missing. A value the column cannot represent makes the operation fail; it is never truncated, wrapped, or turned into a missing value. This holds for tables of any number of columns.',
  quantifier=(['inputs'], 'all column types and all values'),
  why_tests_cant='Values are stored with an offset and in two widths; the boundary values and masks of many columns are not sampled.',
  anchors=dict(files=['libmsi/table.c', 'libmsi/libmsi-query.c', 'libmsi/libmsi-record.c'], mechanism=[('cell access', 'table_view_set_row, table_view_set_int, get_table_value_from_record, table_view_fetch_int, msi_view_get_row')],
   observe_at=['records fetched after INSERT, UPDATE and libmsi_query_get_column_info'])),
 dict(id='P08', title='Insertion keeps primary keys unique and NOT NULL columns filled',
  statement='A row can be inserted exactly if no row has the same primary key, every column that is not nullable has a value, and the values fit their columns; otherwise the insertion fails. Hence no two rows of a table ever have the same primary key, for keys of one or several columns of any type.',
  quantifier=(['inputs', 'histories'], 'all tables in key order or not and all inserted rows, with and without the temporary flag'),
  why_tests_cant='The key comparison runs over every row and column combination, including missing values and negative integers.',
  anchors=dict(files=['libmsi/table.c'], mechanism=[('validation', 'table_validate_new, msi_table_find_row, msi_row_matches, find_insert_index, compare_record')],
   observe_at=['result of INSERT and rows selected afterwards'])),
 dict(id='P09', title='Row operations change only the row they address',
  statement='Inserting, updating or deleting a row leaves every other row, its order and its persistence as they were and changes the number of rows by exactly the rows inserted or deleted; fields not named in an update stay as they were; an operation that is refused leaves the whole table as it was; the texts of persistent rows stay in persistent use, so that they are saved.',
  quantifier=(['inputs', 'histories'], 'all tables, rows and operations'),
  why_tests_cant='Frame conditions: tests look at the row they changed, not at all others.',
  anchors=dict(files=['libmsi/table.c'], mechanism=[('row operations', 'table_view_insert_row, table_create_new_row, table_view_set_row, table_view_delete_row')],
   state=[('LibmsiTable', 'rows and their persistence', 'libmsi/table.c')],
   observe_at=['rows selected after INSERT, UPDATE, DELETE'])),
 dict(id='P10', title='A SELECT returns exactly the rows that satisfy its condition',
  statement='A SELECT without DISTINCT returns each row of its table, or each combination of rows of its tables, that satisfies the WHERE condition, exactly once, and no other. Comparisons (=, <>, <, >, <=, >=, IS NULL, IS NOT NULL, AND, OR, NOT and parentheses with their precedence) have their SQL meaning for integers of the whole range, texts, missing values, named columns of either table and wildcards; the n-th wildcard of the text is the n-th field of the record, whatever the number of tables. A condition that cannot be evaluated is reported, not skipped.',
  quantifier=(['inputs'], 'all conditions over all tables and all parameters'),
  why_tests_cant='Conditions are evaluated lazily while the tables are joined in an order of the engine\'s own choice; tests use few conditions and fixed values.',
  anchors=dict(files=['libmsi/where.c', 'libmsi/sql-parser.y', 'libmsi/select.c'], mechanism=[('condition evaluation and join', 'where_view_execute, check_condition, where_view_evaluate, add_row, ordertables')],
   observe_at=['rows fetched from a SELECT query'])),
 dict(id='P11', title='ORDER BY orders by its columns in their order and loses no row',
  statement='The rows of a SELECT with ORDER BY come in non-decreasing order of the named columns (integers by value with missing values first, texts by the ids the database gave them), the first named first and each further one among rows equal so far, with rows equal in all of them in table order; they are the same rows that the query returns without ORDER BY. An unknown or ambiguous column in ORDER BY is refused.',
  quantifier=(['inputs'], 'all tables, joins, conditions and lists of columns'),
  why_tests_cant='The tests order by one column of few rows; ties and further columns are not sampled.',
  anchors=dict(files=['libmsi/where.c', 'libmsi/sql-parser.y'], mechanism=[('ordering', 'where_view_sort, compare_entry, add_row')],
   observe_at=['order of rows fetched from a SELECT query'])),
 dict(id='P12', title='DISTINCT returns each combination of values once',
  statement='The rows of a SELECT DISTINCT are pairwise different in the selected columns, and every combination of values of the query without DISTINCT is among them, at the place where it first occurs. Executing the query again gives the same rows again.',
  quantifier=(['inputs', 'histories'], 'all tables, selected columns and repeated executions'),
  why_tests_cant='The tests select few rows once; prefixes that are equal and repeated execution are not sampled.',
  anchors=dict(files=['libmsi/distinct.c'], mechanism=[('duplicate elimination', 'distinct_view_execute, distinct_insert')],
   observe_at=['rows fetched from a SELECT DISTINCT query'])),
 dict(id='P13', title='Queries read and change exactly the columns and rows they name',
  statement='The n-th field of a fetched row is the n-th selected column. An INSERT puts each value, constant or wildcard, in the column named for it and leaves the others without a value; an UPDATE sets exactly the named columns of exactly the rows that satisfy its condition; a DELETE removes exactly the rows that satisfy its condition. Nothing else in any table changes, and a query that names unknown tables or columns changes nothing.',
  quantifier=(['inputs'], 'all tables, conditions, column lists, constants and parameters'),
  why_tests_cant='The mapping of columns, wildcards and rows is by position and shifts while rows are deleted; tests use one row and columns in table order.',
  anchors=dict(files=['libmsi/select.c', 'libmsi/insert.c', 'libmsi/update.c', 'libmsi/delete.c', 'libmsi/libmsi-query.c'], mechanism=[('column mapping', 'select_view_create, select_view_get_row, msi_arrange_record, msi_query_merge_record, update_view_execute, delete_view_execute')],
   observe_at=['rows selected after a query'])),
 dict(id='P14', title='A query text is read as the language defines, or refused',
  statement='Every query text is split into the tokens it consists of: keywords in any case and only whole words, names and texts between their quotes byte for byte, numbers by their value. Numbers too large or no integers, quotes without an end, unknown characters and texts that are no query are refused with an error. No text makes the reader look outside it.',
  quantifier=(['inputs'], 'all query texts'),
  why_tests_cant='Malformed texts and every spelling of every token cannot be sampled.',
  anchors=dict(files=['libmsi/tokenize.c', 'libmsi/sql-parser.y'], mechanism=[('tokenizer and literals', 'sql_get_token, sqlite_find_keyword, sql_unescape_string, sql_atoi, sql_lex')],
   observe_at=['result of libmsi_query_new'])),
 dict(id='P15', title='A record returns what was last put in each of its fields',
  statement='Each field of a record holds the integer, text, stream or missing value last set in it, and reading, copying and cloning return exactly that; operations on one field never change another, fields the record does not have are refused, and a record has copies of texts and references to streams of its own, released exactly once when the field is overwritten or cleared. A text of an optional minus sign and digits is read as an integer as that number modulo 2^32; any other text is no integer. Copying a text out never writes past the given size.',
  quantifier=(['inputs', 'histories'], 'all records, field numbers, values and orders of operations'),
  why_tests_cant='Ownership and frame conditions hold for every combination of old and new kinds of fields; tests look at the field just set.',
  anchors=dict(files=['libmsi/libmsi-record.c'], mechanism=[('fields', 'libmsi_record_set_*, libmsi_record_get_*, _libmsi_record_copy_field, _libmsi_record_clone, _libmsi_free_field')],
   observe_at=['the libmsi_record_* functions'])),
 dict(id='P16', title='msibuild runs each statement of a query text once',
  statement='The text given to msibuild -q is split into the statements it consists of: at semicolons and before each word that begins a statement (ALTER, CREATE, DELETE, DROP, INSERT, SELECT, UPDATE, in any case), never within quoted names and texts or within other words. Each statement is run once, in order and as written; white space around statements and empty statements are no statements; after a statement that fails no further one is run.',
  quantifier=(['inputs'], 'all texts'),
  why_tests_cant='Every combination of separators, quotes and words would have to be sampled; the tests give one statement at a time.',
  anchors=dict(files=['tools/sqldelim.c'], mechanism=[('statement splitter', 'sql_get_statement, sql_skip_token, sqlite_find_keyword')],
   observe_at=['tables after msibuild -q'])),
 dict(id='P17', title='Summary information survives saving, and a damaged stream is harmless',
  statement='Every property of the summary information holds a value of the type defined for it; setting one stores exactly that value and changes no other property, a value of another type or of an unknown property is refused with an error, and reading a property as another type gives no value. Saving writes every property that is set once, with its type, and loading the stream gives back exactly the numbers, times and texts that were saved. A summary information stream of any size and contents is read without looking outside it and never leaves a property with a value of a wrong type.',
  quantifier=(['inputs'], 'all sets of properties, values and streams'),
  why_tests_cant='Offsets, sizes, counts and types in a stream are arbitrary 32 bit numbers; tests load streams that were written correctly and set a few properties.',
  anchors=dict(files=['libmsi/libmsi-summary-info.c'], mechanism=[('property set stream', 'suminfo_persist, write_property_to_data, load_summary_info, read_properties_from_data'), ('access', '_libmsi_summary_info_set_property, _summary_info_get_property')],
   observe_at=['libmsi_summary_info_get_* after libmsi_summary_info_new', 'the \\005SummaryInformation stream'])),
 dict(id='P18', title='A commit replaces a package whole or not at all',
  statement='After an interrupted or failed commit the package file holds either everything as it was before or everything as committed.',
  quantifier=(['crash_points'], 'all crash points and I/O errors'),
  why_tests_cant='Every write is a crash point.',
  anchors=dict(files=['libmsi/libmsi-database.c'], mechanism=[('commit', 'libmsi_database_commit, _libmsi_database_commit_streams')],
   observe_at=['the package file after a crash'])),
 dict(id='P19', title='Extraction writes only below the chosen directory',
  statement='msiextract creates files only below the directory it is given, whatever names the package contains, and each with the bytes of the file in the cabinet.',
  quantifier=(['inputs'], 'all packages'),
  why_tests_cant='File names in packages are arbitrary.',
  anchors=dict(files=['tools/msiextract.vala'], mechanism=[('path mapping', 'tools/msiextract.vala')],
   observe_at=['the file system after msiextract'])),
 dict(id='P20', title='wixl builds the package its source describes',
  statement='Every component, file, directory, feature and property of a source appears in the tables of the package with the attributes given, and references are resolved or reported.',
  quantifier=(['inputs'], 'all sources'),
  why_tests_cant='Combinations of elements cannot be sampled.',
  anchors=dict(files=['tools/wixl'], mechanism=[('builder', 'tools/wixl/builder.vala')],
   observe_at=['tables of the package'])),
 dict(id='P21', title='Exporting a table and importing it again loses nothing',
  statement='msiinfo export followed by msibuild -i gives a table with the same columns, keys and rows.',
  quantifier=(['inputs'], 'all tables'),
  why_tests_cant='Cell texts, escapes and types are arbitrary.',
  anchors=dict(files=['libmsi/libmsi-database.c'], mechanism=[('text archive', 'libmsi_database_export, libmsi_database_import')],
   observe_at=['tables after msibuild -i'])),
 dict(id='P22', title='A transform changes exactly what it lists, and a malformed one is harmless',
  statement='Applying a transform adds, changes and deletes exactly the rows it lists; a malformed transform is refused without memory errors.',
  quantifier=(['inputs'], 'all transforms'),
  why_tests_cant='Masks, rows and names in a transform are arbitrary.',
  anchors=dict(files=['libmsi/table.c'], mechanism=[('transforms', 'msi_table_apply_transform, table_load_transform')],
   observe_at=['tables after a transform is applied'])),
]
NA = {
 'P18': 'the replacement of the file is done by libgsf (gsf_outfile_msole) and the kernel; no contract on a function of /repo expresses what survives a crash in them, and a proof over models of both would not be about the real code',
 'P19': 'the code is Vala; the only C is generated at build time around GObject, GCab and GFile calls whose effects (path canonicalisation, symbolic links, file creation) would all be assumed contracts, so that the property itself would be assumed',
 'P20': 'the code is Vala over libxml and libmsi; the C generated from it is object-oriented dispatch through GObject class structures, which CBMC cannot verify by contract, and no deductive verifier for Vala is available',
 'P21': 'not decided: export and import go through GString, GFile and stdio with unbounded text assembled into SQL; their contracts were not completed, and parts of the path (SQL text, tables, pool) are decided by P02 to P14 only',
 'P22': 'not decided: the transform reader mixes stream access, the string pool of the transform and GObject records in one function of several hundred lines; its contract was not completed',
}
