"""Write /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['src/pywriter/' + f for f in files],
            mechanism=[dict(name=n, where='src/pywriter/' + w) for n, w in mech],
            state=[dict(name=n, meaning=m, where='src/pywriter/' + w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

p('C01', 'A project written to a .yw7 file reads back with the same data',
  'Writing a novel to a .yw7 file and reading that file into a fresh novel gives back every project setting and every attribute of every chapter, scene, character, location, item and project note, with the same IDs, the same order and the same assignment of scenes to chapters. '
  'Only the documented normal form may differ: an empty text, tag list or assignment list may come back as "not set", a time of day without date is kept to the minute, a date without time of day gets midnight and excludes a day number, and derived counts are recomputed. '
  'This holds for a new file as well as for a novel that was read from a file, changed in any attribute, and written back.',
  ['inputs', 'histories'],
  'All novels (any combination of set, empty and unset attributes, any sizes of the collections, any IDs) and all read-modify-write histories.',
  'The tests write a handful of fixed projects with most attributes at one value; they never write items of a scene, durations, day/time combinations, viewpoint lists or custom fields in combination and compare them after re-reading.',
  ['yw/yw7_file.py', 'model/scene.py', 'model/chapter.py', 'model/novel.py', 'pywriter_globals.py'],
  [('element tree building', 'yw/yw7_file.py:Yw7File._build_element_tree'), ('readers', 'yw/yw7_file.py:Yw7File._read_*')],
  [('novel', 'in-memory project', 'model/novel.py')], ['Yw7File.write', 'Yw7File.read'])
p('C02', 'Scene and chapter types keep their meaning in the .yw7 encoding',
  'The type of each scene and chapter (normal, notes, to do, unused) is written in the yWriter 7 encoding and read back as the same type, and all encodings of older yWriter versions are read as documented. '
  'After reading, every scene in a chapter that is not of the normal type has the type of its chapter, and scenes in normal chapters keep their own type. '
  'Changing a type and writing leaves no remains of the old encoding in the file.',
  ['inputs', 'histories'], 'All types, all combinations of the encoding elements in an existing file, all chapter/scene arrangements.',
  'The tests cover a few encodings in fixed files and never a type change on a file that already carries another encoding.',
  ['yw/yw7_file.py'], [('type encoding tables', 'yw/yw7_file.py:build_scene_subtree, build_chapter_subtree'), ('type decoding', 'yw/yw7_file.py:_read_scenes, _read_chapters'), ('inheritance', 'yw/yw7_file.py:adjust_scene_types')],
  [('scType / chType', 'type of scene or chapter', 'model/scene.py, model/chapter.py')], ['Yw7File.read', 'Yw7File.write', 'the XML file'])
p('C03', 'Any text survives the .yw7 file, and the file stays well-formed XML',
  'Whatever text stands in a text attribute - markup characters, quotes, entities such as "&amp;", vertical bars, XML-like tags, raw yWriter markup, any Unicode letter - the written .yw7 file is well-formed XML, and reading it gives exactly that text; writing and reading again does not change it further. '
  'Excluded are characters that XML 1.0 does not allow, carriage returns, and blank lines at the beginning or end of a text.',
  ['inputs', 'histories'], 'All texts over the XML character set (minus the exclusions) in all text attributes and custom fields, any number of write/read cycles.',
  'The tests use a few fixed texts with hardly any special characters, mostly in scene contents only.',
  ['yw/yw7_file.py'], [('CDATA insertion', 'yw/yw7_file.py:_postprocess_xml_file, _CDATA_TAGS'), ('escaping', 'yw/yw7_file.py:_convert_from_yw'), ('control character removal', 'yw/yw7_file.py:read')],
  [], ['the .yw7 file', 'Yw7File.read'])
p('C04', 'Rewriting a project keeps what PyWriter does not manage',
  'When a project that was read from an existing .yw7 file is written back, every XML element of the project, of the scenes and of the chapters that PyWriter does not manage is still there with its content, in the same scene or chapter. '
  'Attributes that are "not set" in memory leave the stored value untouched, foreign project variables are kept, and no managed element appears twice within its parent.',
  ['inputs', 'histories'], 'All existing projects with arbitrary additional elements; all read-modify-write histories.',
  'The tests compare whole files for a few projects; unknown elements, foreign project variables and unset attributes occur in hardly any of them.',
  ['yw/yw7_file.py'], [('in-place update of the element tree', 'yw/yw7_file.py:_build_element_tree')],
  [('tree', 'XML element tree read from the file', 'yw/yw7_file.py')], ['the .yw7 file'])
p('C05', 'A failed or interrupted write never loses the previous file',
  'When an existing file is overwritten by writing a project or exporting an ODF or text document, then at every moment its previous content is complete either under its own name or under the name with ".bak" appended. '
  'If generating or writing the new file fails, the error is reported and the previous file is back in place under its own name with unchanged content; if it succeeds, the file is complete and the .bak file has the previous content. '
  'The temporary files of an export are removed in either case.',
  ['crash_points', 'fault_sequences', 'inputs'], 'Every file system call of the write may be the last one executed (crash) or may fail, for project files and for all ODF and text exports, with and without an existing file and backup.',
  'No test makes a file system call fail or stops in the middle of a write.',
  ['yw/yw7_file.py', 'file/file_export.py', 'odf/odf_file.py'], [('backup and restore', 'yw/yw7_file.py:_write_element_tree; file/file_export.py:write; odf/odf_file.py:write')],
  [('<path>, <path>.bak', 'file and backup', 'file system')], ['file system'])
p('C06', 'A project that is open in yWriter is neither read nor written',
  'While a lock file for the project exists, reading and writing that project end with an error, no file is created, changed, renamed or removed, and the novel in memory does not take over anything from the file. '
  'Without a lock file the lock check never prevents reading or writing.',
  ['inputs', 'fault_sequences'], 'All project paths and novels; lock present or absent for read, write, import and export.',
  'One test does not even create a lock file; nothing checks the absence of effects.',
  ['yw/yw7_file.py'], [('is_locked', 'yw/yw7_file.py:is_locked, read, write')], [('<path>.lock', 'lock file placed by yWriter', 'file system')], ['file system', 'Error exception'])
p('C07', 'Every conversion ends with exactly one verdict and never overwrites unasked',
  'Running a conversion never raises an exception: it ends with exactly one result message, which starts with "!" and leaves the new-file path unset if anything went wrong, and otherwise names the written file, which exists and is the new-file path. '
  'An existing target is only overwritten after the user agreed; creating a new project never touches an existing project file; after a failure or refusal the target is unchanged. '
  'The user interface shows failures as errors with the marker removed and everything else as success.',
  ['inputs', 'fault_sequences', 'configurations'], 'All source paths, suffixes, user answers, and all failures of reading, checking or writing.',
  'The tests run successful conversions only, with a user interface that always says yes.',
  ['converter/yw_cnv_ui.py', 'converter/yw_cnv_ff.py', 'converter/new_project_factory.py', 'ui/ui.py', 'ui/ui_cmd.py'], [('conversion protocol', 'converter/yw_cnv_ui.py'), ('consent', 'converter/yw_cnv_ui.py:check'), ('message protocol', 'ui/ui.py:set_info_how')],
  [('newFile', 'path of the converted file or None', 'converter/yw_cnv_ui.py')], ['ui messages', 'converter.newFile', 'file system'])
p('C08', 'A newly generated ID is never in use',
  'Each ID generated for a new chapter, scene, character, location, item or project variable is a positive decimal number that no existing element of that kind has, and it is the smallest such number. '
  'Creating an element with it never replaces an existing element.',
  ['inputs', 'histories'], 'All sets of existing IDs (with gaps, non-numeric and leading-zero IDs) and all sequences of creations by import, splitting and project variables.',
  'Tests create elements in empty or gapless collections only.',
  ['model/id_generator.py', 'model/splitter.py', 'odt_r/odt_r_import.py', 'odt_r/odt_r_outline.py', 'odt_r/odt_r_characters.py', 'ods_r/ods_r_charlist.py', 'yw/yw7_file.py'], [('create_id', 'model/id_generator.py:create_id')],
  [], ['create_id', 'Splitter.split_scenes', 'document readers'])
p('C09', 'Splitting scenes at dividers loses and invents no text',
  'Splitting a novel at the "#", "##" and "###" lines keeps every other line of every scene, in order, exactly once; scenes without divider are unchanged, and every existing scene and chapter stays in the novel in the same order. '
  'Each divider line starts exactly one new part, chapter or scene right behind the text before it, with the title and description given in the line, and text after a part or chapter divider gets its own scene in the new chapter. '
  'The result tells whether the structure changed, and new scenes inherit type, date and duration from the split scene.',
  ['inputs'], 'All novels and all scene texts, i.e. all sequences of divider and text lines.',
  'The tests import a few documents with one or two dividers in a simple order.',
  ['model/splitter.py'], [('split_scenes', 'model/splitter.py:Splitter.split_scenes')], [], ['Splitter.split_scenes', 'import of split documents'])
p('C10', 'Exports contain exactly the right chapters and scenes, in order and numbered',
  'An export contains each chapter and scene for whose kind it has a template (part, chapter, notes, to do, unused, not exported) exactly once, in the order of the project, and nothing else; scenes are placed in their own chapter. '
  'Chapter and scene numbers count 1, 2, 3 and so on over the regular chapters and scenes only, and word and letter totals are the running sums of the regular scenes up to and including the current one. '
  'Characters, locations, items and project notes appear exactly once in list order, unless a filter excludes them.',
  ['inputs', 'configurations'], 'All novels (types, levels, not-to-be-exported marks, filters, empty chapters, unset contents) and all export formats, including formats defined by arbitrary templates.',
  'The tests export a few projects where every document type sees few of the type combinations.',
  ['file/file_export.py', 'odt_w/odt_w_export.py', 'odt_w/odt_w_proof.py', 'odt_w/odt_w_manuscript.py', 'odt_w/odt_w_notes.py', 'odt_w/odt_w_todo.py', 'file/filter.py'], [('chapter processing', 'file/file_export.py:_get_chapters'), ('scene processing', 'file/file_export.py:_get_scenes')],
  [], ['exported file'])
p('C11', 'Exported ODF documents are well-formed and carry the text unchanged',
  'Every ODT and ODS document exported from any project is a ZIP archive that names its type in a mimetype entry, its manifest entries exist, and all its XML parts are well-formed. '
  'Texts, titles, names, tags and metadata appear with exactly the characters of the project - special characters escaped once, line breaks as paragraphs - and yWriter bold and italics markup becomes formatting of exactly the marked passages, never visible text. '
  'Raw inline code is left out of the final manuscript.',
  ['inputs', 'configurations'], 'All project texts without XML-forbidden characters, in all attributes, for all document types; in scene texts the yWriter markup and comments are balanced and properly nested; with any other markup the documents are still well-formed.',
  'The tests compare two or three fixed projects that contain hardly any special characters outside scene texts.',
  ['odf/odf_file.py', 'odt_w/odt_writer.py', 'odt_w/odt_w_formatted.py', 'ods_w/ods_writer.py', 'odt_w/odt_w_proof.py', 'odt_w/odt_w_xref.py'], [('markup conversion', 'odt_w/odt_writer.py:_convert_from_yw'), ('packing', 'odf/odf_file.py:write')],
  [], ['exported ODF file'])
p('C12', 'Importing a document changes only what that kind of document carries',
  'Importing an edited document changes only the attributes that kind of document carries (for example, a scene description document changes scene descriptions and titles of scenes it mentions, and nothing else), and only for elements marked in the document. '
  'Elements and attributes that do not occur in the document keep their values; an unknown ID in a document creates a new element and never changes an existing one, and the chapters and scenes a text document mentions get its type (normal, notes, to do). '
  'List documents of characters, locations and items may in addition delete and reorder their own kind of elements.',
  ['inputs'], 'All novels and all documents of each importable kind, including documents that leave out elements, contain unknown IDs, or carry additional formatting.',
  'The tests import complete, well-behaved documents and compare one project file each.',
  ['odt_r/odt_r_manuscript.py', 'odt_r/odt_r_proof.py', 'odt_r/odt_r_scenedesc.py', 'odt_r/odt_r_chapterdesc.py', 'odt_r/odt_r_characters.py', 'odt_r/odt_r_items.py', 'odt_r/odt_r_locations.py', 'ods_r/ods_r_scenelist.py', 'ods_r/ods_r_charlist.py', 'ods_r/ods_r_loclist.py', 'ods_r/ods_r_itemlist.py'], [('tag handlers', 'odt_r/*.py:handle_starttag, handle_endtag, handle_data'), ('row readers', 'ods_r/*.py:read')],
  [], ['novel after import'])
p('C13', 'Exporting a document and importing it unchanged leaves the project as it was',
  'For every importable document kind, exporting a project and importing the unchanged document leaves the carried attributes (scene text with its bold, italics and quotation markup, titles, descriptions, notes, tags, character data, list entries and their order) as they were. '
  'Only documented normalisation may occur (white space at line ends, repeated blanks, empty versus unset, a scene rating of 1 for none, highlighting removed), and a second round trip changes nothing more.',
  ['inputs', 'histories'], 'All novels and all importable document kinds; texts are free of divider lines, comments consist of one line, and tags contain no comma.',
  'Round-trip tests exist for one small fixed project.',
  ['odt_r', 'odt_w', 'ods_r', 'ods_w'], [('ODT parsing', 'odt_r/odt_parser.py'), ('text conversion', 'odt_r/odt_r_formatted.py, odt_w/odt_writer.py')],
  [], ['novel after export and import'])
p('C14', 'Cross references list exactly the real occurrences',
  'For each character, location, item and tag, the cross references list exactly the scenes of the chapters in which it occurs, each once and in project order; each tag also lists exactly the characters, locations and items that carry it. '
  'Elements that occur nowhere have an empty list, and generating twice gives the same result.',
  ['inputs', 'histories'], 'All novels: any assignment of characters, locations, items and tags, any scene types, repeated generation.',
  'One test with one fixed project.',
  ['model/cross_references.py', 'odt_w/odt_w_xref.py'], [('generate_xref', 'model/cross_references.py:CrossReferences.generate_xref')], [], ['CrossReferences', 'exported _xref document'])
p('C15', 'Word and letter counts always match the scene text',
  'After any assignment of a scene text - by reading a project, importing a document, or splitting - the word count and the letter count of the scene are those of the current text: words are separated by white space and dashes, and markup, comments and raw code do not count. '
  'Both counts are zero for an empty text and never negative, and plain words without markup are counted exactly.',
  ['inputs', 'histories'], 'All texts and all sequences of assignments.',
  'Only totals in a few expected export files depend on the counts.',
  ['model/scene.py'], [('sceneContent setter', 'model/scene.py:Scene.sceneContent')], [('wordCount, letterCount', 'derived counts', 'model/scene.py')], ['Scene attributes'])
p('C16', 'The language list matches the text, and the document locale is always valid',
  'Scanning a novel for languages yields each language code that occurs in a scene-text language tag exactly once, in order of first occurrence, and nothing else. '
  'Checking the locale keeps a valid language and country, replaces an empty locale by that of the system, and an invalid one by the "no language / no country" codes; after writing, the project has exactly one language and one country variable and one pair of variables for each language used.',
  ['inputs', 'histories'], 'All scene texts, all locale settings (set, empty, unset, ill-formed), all existing project variables.',
  'One test project with one language; the locale branches are not compared.',
  ['model/novel.py', 'yw/yw7_file.py'], [('get_languages', 'model/novel.py:get_languages'), ('check_locale', 'model/novel.py:check_locale'), ('project variables', 'yw/yw7_file.py:_build_element_tree')], [('languages', 'language codes used', 'model/novel.py')], ['Novel', 'PROJECTVARS in the .yw7 file'])
p('C17', 'Configuration settings survive being written and read',
  'Writing a configuration and reading it into another configuration object with the same keys restores every setting and every option, with options as truth values. '
  'Reading a missing, incomplete or foreign file leaves the settings it does not define at their previous values and never adds unknown keys.',
  ['inputs', 'configurations'], 'All sets of lower-case identifier keys, all trimmed single-line values, all subsets of keys present in a valid INI file.',
  'There is no test of the configuration class at all.',
  ['config/configuration.py'], [('read / write', 'config/configuration.py:Configuration')], [('settings, options', 'current configuration', 'config/configuration.py')], ['INI file', 'Configuration attributes'])
p('C18', 'Spreadsheet tables are read cell by cell into the right rows and columns',
  'Reading an ODS table yields every row with exactly as many cells as expected, each cell with the text shown in the spreadsheet, including empty cells, repeated cells, multi-paragraph cells and text with special characters. '
  'Rows are matched by their ID column: a row never changes an element with another ID, rows without ID are ignored, and a table with too few columns is refused.',
  ['inputs'], 'All tables: any pattern of empty and repeated cells, any cell text, any number of rows and columns.',
  'The tests read three fixed tables as written by LibreOffice.',
  ['ods_r/ods_parser.py', 'ods_r/ods_reader.py'], [('get_rows', 'ods_r/ods_parser.py:OdsParser'), ('row validation', 'ods_r/ods_reader.py:OdsReader.read')], [], ['OdsParser.get_rows', 'OdsReader.read'])
p('C19', 'Purging removes exactly the custom data and language markup',
  'Resetting custom variables clears exactly the custom fields of the project and its elements, and reports whether anything was cleared; nothing else changes. '
  'Removing language tags removes exactly the opening and closing language tags from all scene texts and leaves the tagged text and all other markup unchanged.',
  ['inputs'], 'All novels and texts, any custom fields on any element.',
  'Not covered by any test.',
  ['yw/yw7_purge.py'], [('purge', 'yw/yw7_purge.py')], [], ['novel after purge'])
p('C20', 'File names select the right document kind and the right project',
  'A source file is recognised as the document kind whose suffix and extension its name ends with; exporting with a suffix creates a file next to the project whose name is the project name plus that suffix and extension. '
  'Importing a document always targets the project whose name is the document name without that one suffix, in the same directory, and is refused if that project does not exist or the document is not meant to be written back.',
  ['inputs', 'configurations'], 'All directory and file names, including names that contain suffixes of other or the same document kinds several times.',
  'All tests use one plain project name in one directory.',
  ['converter/import_target_factory.py', 'converter/import_source_factory.py', 'converter/export_target_factory.py', 'converter/export_source_factory.py', 'converter/new_project_factory.py', 'file/file.py'], [('factories', 'converter/*_factory.py'), ('filePath setter', 'file/file.py:File.filePath')], [], ['make_file_objects', 'YwCnvFf.run'])
p('C21', 'Tag lists convert between list and text without loss',
  'Converting a list of distinct, trimmed, non-empty entries without divider to text and back gives the same list. '
  'Converting any text to a list yields its trimmed non-empty entries, each once, in order of first occurrence; converting is idempotent, and unusable input yields an empty result instead of an error.',
  ['inputs'], 'All texts, all lists, all dividers.',
  'No test addresses the helpers; the test projects have a few plain tags.',
  ['pywriter_globals.py'], [('string_to_list, list_to_string', 'pywriter_globals.py')], [], ['string_to_list', 'list_to_string'])
p('C22', 'A document imported as a new project keeps all its chapters, scenes and text',
  'Importing a work in progress makes one chapter per heading of the first two levels (first level: a part) with the text of the heading as title, and one scene per stretch of text between headings and "* * *" lines; '
  'each scene holds exactly its paragraphs, quotations and list items in order, with bold, italics, language and comments (a comment at its beginning is its title). '
  'Importing an outline makes the chapters likewise and one scene per third-level heading, and the text under a heading is the description of its chapter or scene. '
  'Everything keeps the order of the document, no ID is used twice, and title, author, description and language of the project are those of the document.',
  ['inputs'], 'All documents in which text follows a heading of the first two levels; divider lines consist of "* * *", texts are free of the lines that split scenes, comments consist of one line, a passage in another language is not within a paragraph in a third.',
  'The tests import one small document of each kind, without quotations, lists, languages or comments.',
  ['odt_r/odt_r_import.py', 'odt_r/odt_r_outline.py', 'odt_r/odt_parser.py'], [('tag handlers', 'odt_r/odt_r_import.py:handle_starttag, handle_endtag, handle_data, handle_comment'), ('tag handlers', 'odt_r/odt_r_outline.py:handle_starttag, handle_endtag, handle_data')], [], ['novel after import', 'new project file'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w', encoding='utf-8') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
