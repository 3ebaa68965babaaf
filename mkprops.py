#!/usr/bin/env python3
"""Rewrites properties.jsonl (run by hand after editing the list below)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def p(id, title, st, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over.split(), 'text': text},
              'why_tests_cant': why, 'anchors': {'files': files.split(),
                                                 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})


ALL = 'src/pdb/mod.rs src/pdb/io.rs src/pdb/string.rs src/pdb/offset_array.rs src/pdb/bitfields.rs src/pdb/ext.rs ' \
      'src/anlz.rs src/setting.rs src/util.rs src/xor.rs src/device.rs src/xml.rs'

p('C01', 'Reading malformed or truncated input never panics',
  'For every byte sequence given to any reader of the library (databases, analysis files, setting files, XML, '
  'encrypted streams), and for every value so obtained given to its accessors, iterators and lookups, the library '
  'returns a value or an error; it never panics, overflows an integer or indexes out of bounds.',
  'inputs', 'every byte sequence, every argument of the public reading functions, with overflow checks on',
  'Tests read well-formed exports; a panic needs a specific length, offset, index or flag that only corrupt or '
  'unusual files contain.',
  ALL, [('every reader, row iterator, lazy page loader and accessor', 'src/**: binrw readers, pdb/io.rs Database, '
         'pdb/mod.rs Page/DataPageContent/RowGroup'), ('hand-written parsers', 'src/pdb/string.rs, src/util.rs, src/xor.rs')])
p('C02', 'Printing any value that can be read never panics',
  'Formatting any value that the library can produce from a file, with its debug or its display representation, '
  'completes without a panic and without a formatting error of its own (which would make to_string and println panic), whatever the field values are.',
  'inputs', 'every value of every public type, including values only corrupt files produce',
  'Tests print few values; an unusual id, empty marker or out-of-range field only shows up in other people\'s files.',
  ALL, [('Debug/Display implementations', 'src/pdb/mod.rs, src/setting.rs, src/pdb/string.rs, src/util.rs')])
p('C03', 'Writing any in-memory value never panics',
  'Serialising any value of a public type, allocating a row of any size in any page, and building any string value '
  'either succeeds or returns an error; none of them panics, whatever the values are.',
  'inputs histories', 'every in-memory value and every page state an allocation can meet',
  'Tests write back what they have read; oversized strings, full pages and lengths beyond their field appear only '
  'in values that applications build.',
  ALL, [('binrw writers', 'src/**'), ('row allocation', 'src/pdb/mod.rs DataPageContent/Page allocate/insert row'),
        ('string encoding', 'src/pdb/string.rs')])
p('C04', 'The command line tool never panics on the content of its files',
  'Every subcommand of the command line tool, given any file contents, ends normally or with a reported error; it '
  'does not panic for a reason that depends on the files it was given.',
  'inputs configurations', 'every subcommand, every accepted combination of arguments and every file content',
  'No test runs the binary; values such as dangling ids, cyclic trees and missing entries never reach it.',
  "src/main.rs src/device.rs",
  [('subcommands', 'src/main.rs list_playlists, export_playlists, dump_*')])
p('C05', 'The nesting of the input never decides how deep the call stack gets',
  'No reader, accessor or subcommand calls itself to a depth chosen by the file: every recursion in the code is either '
  'over nesting that an earlier step has bounded, or visits each entry of the file at most once per path, so hierarchical data that is '
  'cyclic (a playlist folder that contains itself) or deeply nested ends in a result or an error, not in a stack overflow.',
  'inputs', 'every file content, in particular parent/child tables with cycles and deeply nested elements',
  'Fixtures contain shallow, acyclic trees; a stack overflow needs a cyclic or enormous one and aborts the process.',
  'src/main.rs src/xml.rs src/pdb/mod.rs src/anlz.rs',
  [('recursive playlist walks', 'src/main.rs list_playlists, export_playlists'), ('nested XML playlist nodes', 'src/xml.rs PlaylistGenericNode')])
p('C06', 'Every loop over the contents of a file ends',
  'For every finite input, every loop of the library and of the tool ends: walks along linked pages end even when the links '
  'form a cycle, sections that claim no length can not stall a parser, an error ends an iteration instead of being retried '
  'for ever, and no loop runs for a number of rounds that a single corrupt length field can make astronomically large.',
  'inputs histories', 'every input, every way the pages of a table may be linked',
  'A hang only shows up for files whose links or lengths are inconsistent; tests use well-formed fixtures and would time out rather than fail.',
  'src/pdb/io.rs src/anlz.rs src/xor.rs src/pdb/offset_array.rs src/main.rs src/util.rs src/xml.rs',
  [('page chain walk', 'src/pdb/io.rs PageIterator::next'), ('section list', 'src/anlz.rs ANLZ::parse_sections'),
   ('key cycling', 'src/xor.rs XorStream')])
p('C10', 'Each table type is read as one row kind, and typed access agrees with it',
  'For every table type, the reader decodes rows of a page of that type as exactly one row kind, different table types '
  'never share a row kind, and a row is handed out as a typed row (shared or mutable) exactly when it is of that kind. '
  'The table a typed row kind is looked up in is the one whose pages are decoded as that kind.',
  'inputs', 'every table type and every row kind, for all file contents',
  'Tests read a few example databases; a swapped mapping for a table type that is empty in the fixtures, or a typed '
  'accessor that answers for the wrong kind, never shows up there.',
  'src/pdb/mod.rs src/pdb/ext.rs src/pdb/io.rs',
  [('row dispatch on the page type', 'src/pdb/mod.rs Row/PlainRow/ExtRow #[br(pre_assert)]'),
   ('typed row accessors', 'src/pdb/mod.rs impl RowVariant for *')])

p('C07', 'Only flush, close and export-playlists change anything outside',
  'Opening, reading, iterating and listing never modify anything: the stream of a database is only written to by flush and '
  'close of a database opened for writing (not by open, by loading pages or when it is dropped), readers never write, writers '
  'only write to the stream they are given, the library never changes the file system, starts processes or uses the network, '
  'and of the commands of the tool only export-playlists does, which only creates directories and files.',
  'inputs', 'every function of the library and every command of the tool, whatever it is given, through all calls it makes',
  'A test would have to compare the whole file system before and after each call for every input; an effect on a rare path '
  '(an error, a repair, a cache) is never exercised.',
  'src/pdb/io.rs src/device.rs src/setting.rs src/main.rs src/util.rs src/xor.rs src/anlz.rs src/pdb/mod.rs',
  [('database opened for reading or writing', 'src/pdb/io.rs Database'), ('commands', 'src/main.rs main'),
   ('device export', 'src/device.rs DeviceExportLoader')])

p('C08', 'Exported playlists stay inside the output directory',
  'Whatever names the playlists and folders of a database have (with separators, empty, "." or "..", absolute), exporting its '
  'playlists creates directories and files only inside the output directory the user gave. Each folder and playlist becomes '
  'exactly one path component there.',
  'inputs', 'all databases, all playlist and folder names, all paths of the tool from its start',
  'The fixtures contain harmless names; that every name in every nesting is made harmless before it is joined to a path is a '
  'statement about all strings.',
  'src/main.rs',
  [('components', 'src/main.rs export_playlists path_component'), ('walk', 'src/main.rs export_playlists walk_tree')])

p('C09', 'Failures are reported, never swallowed',
  'Whenever reading, writing, seeking, parsing, decoding or formatting fails inside of an operation, the operation itself '
  'fails: the error is returned, kept or converted, never ignored, replaced by a default or by skipping the item. Exceptions: '
  'load_settings prints a warning for a file it can not load, the tool prints errors (dump-pdb per table), the trial read '
  'that detects encryption, and the optional parent of #[br(try)].',
  'inputs', 'every call that can fail, in every function and closure, and every way on from its failure',
  'Tests rarely make the n-th read or seek fail; a swallowed error shows as silently missing rows or a half-written file.',
  'src/pdb/io.rs src/pdb/mod.rs src/pdb/offset_array.rs src/pdb/string.rs src/anlz.rs src/setting.rs src/device.rs '
  'src/util.rs src/xor.rs src/main.rs',
  [('error type', 'src/util.rs RekordcrateError'), ('fallible iteration', 'src/pdb/io.rs PageIterator, iter_rows'),
   ('warnings', 'src/device.rs load_settings')])

p('C12', 'What is read from a file is written back as the same bytes',
  'For every type that can be read and written, writing a value that was read moves the same items in the same order: every '
  'field, length, count, flag, magic number and padding that the reader consumed is emitted again with the byte order, width '
  'and value it had, also where it is not kept in memory but recomputed. Exceptions are only the checksum and filler bytes.',
  'inputs', 'every path of every reader, every value it can answer with, every path of the corresponding writer',
  'Round-trip tests cover the fixtures and a few literals; a length that is recomputed wrongly for one encoding, one variant '
  'or one byte order corrupts only files that contain it.',
  'src/pdb/mod.rs src/pdb/ext.rs src/pdb/string.rs src/pdb/bitfields.rs src/anlz.rs src/setting.rs src/util.rs',
  [('declarative readers and writers', 'src/**: #[binrw] types'), ('recomputed lengths', 'src/pdb/string.rs LongBody, '
    'short_string_header; src/anlz.rs calc/try_calc; src/setting.rs SettingData::size')])

p('C11', 'Every structure is decoded as the published file format lays it out',
  'For every type that is read from a file, each form the reader accepts is one of the published format: the same items in the '
  'same order with the same width and byte order, the same magic numbers, codes and value restrictions, lengths and padding '
  'computed from the same earlier items, sub-structures chosen by the same tags and given the same arguments, and each item '
  'ends in the field that has its meaning. Bit fields and offset tables assign the published bits and strings to each field.',
  'inputs', 'every path of every reader, i.e. every byte sequence it accepts; every bit field; every offset table',
  'A reader and writer that are wrong in the same way still round-trip, and fixtures contain few codes, flags and variants: a '
  'swapped pair of fields, a wrong code or a wrong bit shows only on exports that contain it.',
  'src/pdb/mod.rs src/pdb/ext.rs src/pdb/string.rs src/pdb/bitfields.rs src/pdb/offset_array.rs src/anlz.rs src/setting.rs src/util.rs',
  [('declarative readers', 'src/**: #[binrw] types, #[bitfield] types'), ('offset tables', 'OffsetArrayItems impls in src/pdb'),
   ('dispatch on tags', 'src/anlz.rs Content, src/pdb PlainRow/ExtRow/PageType, src/setting.rs SettingData')])

p('C16', 'Every setting is loaded from its file and shown under its own label',
  'For every combination of present, missing and unreadable setting files, load_settings yields for each setting exactly the '
  'value that the *SETTING.DAT file of its type holds, or none when that file could not be read; each file is looked for under '
  'PIONEER by the name of its type. Printing the settings shows each setting once, under its own label, with its own value or '
  '<missing>; every value is shown as what it is called in the preferences of Rekordbox, and no two values of a setting alike.',
  'inputs', 'all 16 combinations of readable files, all field values, all combinations of present settings line by line',
  'Tests compare a few files that hold defaults; two swapped settings of equal default, or a label with the value of its '
  'neighbour, show only for values no fixture contains.',
  'src/device.rs src/setting.rs',
  [('loading', 'src/device.rs DeviceExportLoader::load_settings, Settings::set_*'),
   ('printing', 'src/device.rs impl Display for Settings; src/setting.rs derived Display'),
   ('dispatch on the type', 'src/setting.rs SettingData')])

p('C15', 'Setting files state their true length and checksum',
  'For every content of the four kinds of *SETTING.DAT file: a file is accepted as a kind only with the data of that kind and '
  'with a stated data length that is the number of bytes of that data; writing a setting states that same length, and puts '
  'into the file the CRC-16/XMODEM of the data section (for DJMMYSETTING.DAT, of everything before the checksum) as it is '
  'in this very file. A file name decides the kind if and only if it is the name of the kind.',
  'inputs', 'all contents of all four kinds, all paths through reader, writer and checksum',
  'The fixtures hold one or two files per kind, mostly with defaults; a checksum over one byte too few, or of the wrong part, '
  'shows only where those bytes differ, and a length that is not checked only for files nobody has recorded.',
  'src/setting.rs',
  [('length', 'src/setting.rs Setting::len_data, SettingData::size, SettingType::expected_data_size'),
   ('checksum', 'src/setting.rs Setting::calculate_checksum'), ('names', 'src/setting.rs SettingType::from_filename')])

p('C23', 'XML documents are read and written name by name as the format lists them',
  'For every Rekordbox XML document, each attribute and element of the published list is read, unchanged and in order, into the '
  'field of its meaning, whatever its value; absent optional ones read as absent, absent lists as empty, attributes that are not '
  'known are skipped, and a playlist node is a folder or a playlist exactly by its type. Writing a document states each present '
  'field once under the same name and type of node, leaves absent ones out, and counts are the numbers of children written, so '
  'that what is written reads back as the same document.',
  'inputs', 'all documents, all combinations of present and absent attributes, all field values, any nesting',
  'The tests read two exports in which nearly every attribute is present, and compare only a document with itself after writing '
  'and reading: a name that is wrong in both directions, a count that is never read, an absent attribute go unnoticed.',
  'src/xml.rs',
  [('reading', 'src/xml.rs derived Deserialize; PlaylistGenericNode::deserialize'),
   ('writing', 'src/xml.rs derived Serialize; Serialize of Playlists, PlaylistFolderNode, PlaylistPlaylistNode')])

p('C24', 'Pages of a database are read from and written to their own place',
  'Page n of a database is the page_size bytes at n * page_size: asking for a page, or iterating over the pages of a table '
  'from its first page along the links to its last page, answers with that very page, which is read once from its own place '
  'with the page size and kind of this database, is kept, and is answered as it is when it has been loaded already. Opening '
  'makes room for every page below the first unused one that the file reaches. Flushing writes the header, padded to a page, '
  'at the start of the file and each loaded page into its own place, where it takes exactly a page, and leaves the places of '
  'pages that are not loaded as they are.',
  'inputs', 'all page numbers, page sizes (index pages: multiples of 4), page lists and load states; all paths',
  'The tests use one database with one page size; an offset that is wrong for large numbers, a page in the wrong slot or a '
  'page that comes out a few bytes too long shows only with other files or after a particular order of loads and flushes.',
  'src/pdb/io.rs, src/pdb/mod.rs',
  [('loading', 'src/pdb/io.rs Database::load_page, read_page'), ('iterating', 'src/pdb/io.rs PageIterator, Database::iter_pages_for_table'),
   ('opening', 'src/pdb/io.rs LazyDatabase'), ('flushing', 'src/pdb/io.rs Database::flush, LazyPage'),
   ('page size', 'src/pdb/mod.rs Page, DataPageContent, IndexPageContent, EmptyIndexEntries')])

p('C18', 'The playlist tree is the one stored in the database',
  'Whenever reading the playlist tree of a database succeeds, the result has at every level, in the order of the database, exactly '
  'one node for every row whose parent is that level (parent 0 at the top): nothing is left out, added, or put elsewhere. A node is '
  'a folder if and only if its row is marked as one, and has the id and the name of its row.',
  'inputs', 'all databases: any number of rows with any ids, parents, names and flags',
  'The fixtures hold a few folders of harmless shape; that no row is lost, doubled or reordered for any number of rows and any '
  'nesting is a statement about all tables.',
  'src/device.rs, src/pdb/mod.rs',
  [('rows by parent', 'src/device.rs get_playlists'), ('walk', 'src/device.rs get_playlists get_child_nodes'),
   ('folder flag', 'src/pdb/mod.rs PlaylistTreeNode::is_folder')])

p('C19', 'Exported playlists list their tracks in order',
  'Whenever exporting playlists succeeds, every playlist at any depth of the tree has become one file, begun anew, that holds one '
  'line for every entry of this playlist whose track is in the database, ordered by entry index, and nothing else. The line is the '
  'path of the export followed by the stored file path of the track with this id, character for character.',
  'inputs', 'all databases: any number of playlists, folders, entries and tracks with any ids and indices',
  'No test runs the export; that no entry is lost, doubled, reordered or given the path of another track is a statement about all '
  'databases, and the rows of the fixtures happen to be in order already.',
  'src/main.rs',
  [('entries by playlist, sorted by index', 'src/main.rs export_playlists'), ('tracks by id', 'src/main.rs export_playlists'),
   ('walk over the tree', 'src/main.rs export_playlists walk_tree')])

p('C20', 'Iterating over a table gives all of its rows in order',
  'A table that is asked for by page type is the first one in the header with exactly this type, one that is asked for by number is '
  'the one with this number, its pages are those from its first to its last page, and being told that there is no such table means '
  'that there is none. Iterating over the rows of a type goes through the pages of the table of this type in their order, gives every '
  'row of every data page once and by ascending offset, and passes over the pages without rows. A row of another kind is reported as '
  'an error and never left out silently.',
  'inputs', 'all lists of tables, all page types, all pages and all rows',
  'The tests count rows of two sound databases; that no row, page or table is skipped under some condition on its contents is a '
  'statement about all databases.',
  'src/pdb/io.rs, src/pdb/mod.rs',
  [('choice of the table', 'src/pdb/mod.rs Header::find_table, Header::find_table_mut, PageType'),
   ('pages of the table', 'src/pdb/io.rs Database::iter_pages, Database::iter_pages_for_table'),
   ('rows of the pages', 'src/pdb/io.rs Database::iter_rows, src/pdb/mod.rs PageContent, Row::as_variant_mut')])

p('C22', 'Allocating a row reserves its own room and slot, or changes nothing',
  'Allocating room for a row answers None, and leaves the page as it was, only if the page holds no rows, the row (rounded up '
  'to 4 bytes, with 6 more for its slot) does not fit, its place is taken, the row groups do not match the row count, or it can '
  'not be counted. Otherwise the row gets the place at the end of the used part, which grows by the rounded size, the free size '
  'shrinks by that and 2 bytes (and 4 for the row group that every 16th row starts), one more row is counted, and the next slot '
  'of the last group holds the offset, not yet present. Inserting the row then stores it at this offset, marks this very slot as '
  'present and counts one more valid row; nothing else of the page changes in either step.',
  'inputs', 'all pages (any sizes, counts, groups and rows) and all row sizes; all paths',
  'The tests allocate a handful of rows in one page; a wrong slot shows with the 17th row, a missed limit with full pages, and a '
  'page that is changed although nothing was allocated only in those cases that fail late.',
  'src/pdb/mod.rs, src/pdb/bitfields.rs',
  [('allocation', 'src/pdb/mod.rs Page::allocate_row'), ('slots', 'src/pdb/mod.rs RowGroup::insert_offset, mark_offset_present'),
   ('counts', 'src/pdb/bitfields.rs PackedRowCounts')])

p('C17', 'The XOR stream keeps bytes, key and position in step',
  'Whatever the XOR stream reads or writes, each byte is XORed with the byte of the repeating key that belongs to its place, '
  'counted from where the stream started and kept through short reads, short writes and seeks in both directions; it transfers '
  'exactly what the inner stream does, answers its counts, positions and errors, and a failed operation leaves key and position '
  'alone (an empty key changes nothing). The song structure of analysis files is read and written through it with the published '
  '19-byte key plus the number of entries, modulo 256, exactly if it is taken as encrypted. It is taken so if and only if the two '
  'bytes of its mood are a valid mood when they are decrypted with this key.',
  'inputs', 'all keys, buffers, positions and seeks; all short or failing operations of the inner stream; all numbers of entries',
  'The tests read and write whole buffers with one key; a key that is out of step shows only after a short read or write or a '
  'seek that is not a multiple of its length, a wrong key byte only with certain numbers of entries.',
  'src/xor.rs, src/anlz.rs',
  [('XOR stream', 'src/xor.rs XorStream: read, write, flush, seek, with_key'),
   ('song structure', 'src/anlz.rs SongStructureData: get_key, check_if_encrypted, read_encrypted, write_encrypted')])

p('C14', 'Values behind offsets are at their own offsets',
  'Wherever a format stores values behind a table of offsets (database rows and the strings and numbers of their tails), each '
  'value is read from and written to the base plus its own offset, whatever the number, order and distance of the offsets, and '
  'is kept together with that offset; of a row group exactly the slots whose presence bit is set give an offset, from slot 0 up. '
  'When the offsets are to be calculated, the values follow the table in order, each at the next place its alignment allows with '
  'zeros in between, and the table states exactly these places, in offsets of the stated size. The stream ends up at the base '
  'again when rows are read or written, and the slots of a row group always take 32 bytes.',
  'inputs', 'all offset tables, bases, numbers of values, alignments, sizes of values and presence flags',
  'The tests use a few tables whose offsets ascend and whose values follow at once; a base, restore or pairing that is wrong '
  'shows only for other distances, orders, alignments or gaps among the slots.',
  'src/util.rs, src/pdb/offset_array.rs, src/pdb/mod.rs',
  [('rows at offsets', 'src/util.rs parse_at_offsets, write_at_offsets'),
   ('offset arrays', 'src/pdb/offset_array.rs OffsetArrayContainer read_options, write_options'),
   ('row groups', 'src/pdb/mod.rs RowGroup: present_rows_offsets, write_row_offsets')])

P.sort(key=lambda x: x['id'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
