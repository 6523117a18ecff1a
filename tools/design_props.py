"""Per property: what is specified and proved, what the bounded stage does, what is assumed or left."""
PROPS = {
'C01': ('the real `Yw7File.write` (with `_build_element_tree` and all its helpers) and `Yw7File.read` (with all `_read_*` methods) executed on a symbolic element tree for one arbitrary element of each kind among arbitrarily many others: a new file, an element in an existing file (arbitrary stored content), a new element in an existing file, a missing container, an empty collection; every attribute, the order of the IDs, the custom fields, the scenes of a chapter, and the project settings come back, for every combination of set, empty, and not set; frame: `write` does not change the elements in memory; `write` and `read` never raise',
        'random novels (all attributes set/empty/unset, all collections) written and read by the real Yw7File, then random changes of any attribute, written and read again; every attribute compared with the documented normal form',
        'XML on the byte level, escaping (C03); the order of the children of an element'),
'C02': ('encoding: after `write`, over any stored content, the elements that encode the type are those of the documented table (four types, not set, for scenes and chapters), and `read` gives the type back; decoding: an arbitrary stored encoding is read as documented; `adjust_scene_types` with invariants over unbounded chapters and scenes, and its place in `read` (after everything is there, last change of the types)', 'all encodings of the documented tables (exhaustive over the element combinations), random type changes over two generations of a file', ''),
'C03': ('the real `write` with `indent`, `_write_element_tree` and `_postprocess_xml_file` on a ghost file; the library serialises the tree by contract (escaping of `& < >`), the tree itself and its texts are arbitrary. What is in the file after `write` is a term over the serialised tree; `pyvc/rewrite.py` compiles the term, from the source of every run (replacements, regular expressions with callbacks, loops over lines with a carried state, `unescape`, split and join), to a finite transducer over all strings, composes it with the XML reader (CDATA, entities, line ends) and compares the result with the reading of the tree: exact equality of the two functions, or a shortest text on which they differ, which is replayed on the real code. `read` gives the text of the file to the parser unchanged. `indent` changes text and tail of elements that have children, and tails, to white space only',
        'texts from a token set of markup, entities, CDATA ends, tags, XML-like elements, Unicode; file parsed by an independent parser, two generations', 'library serialiser and parser (contracts)'),
'C04': ('`read` and `write` on an arbitrary tree, for an arbitrary scene, an arbitrary chapter, and the project: the element of the file is kept in its section; all operations name the tag they work on, so the set of touched tags is known, and every child outside the managed set is proved unchanged with its contents; managed tags appear once (obligation at each insertion); an attribute that is not set leaves its element as it is (an empty element may be added); `Fields` keeps its foreign fields; root: sections are kept; project variables: those of the file come first with their contents (loop invariants)', 'files with random unknown elements at project, scene, chapter level, random changes; every unknown element must survive in place, managed elements at most once', ''),
'C05': ('`write` of every writer class (grouped by the combination of methods): at each of the operations a failure is possible; at every crash point the old content is complete under one of two names; '
        'after a failure it is in place; after success file complete, backup holds the old content, temporary directory gone; `_set_up` and `write_content_xml` work in the temporary directory only (own contract); `__del__`; '
        'frame: file operations stand in functions under contract only',
        'each operation of the real code made to fail in turn (fault injection), state of the files observed at every operation', 'power loss within a system call; failure of the restoring rename'),
'C06': ('`read`, `write` and `is_locked` of Yw7File and DataFiles on the ghost file system: if the lock file exists Error is raised and neither files nor the novel change; without it the lock check never raises; frame: nobody else opens project files for writing',
        'random directories with lock files and names that look alike', 'the lock file appears while reading or writing'),
'C07': ('`export_from_yw`, `import_to_yw`, `create_yw7` with reading and writing by contract (each may raise anything): one message, failure <=> unset new-file path, target unchanged after failure, existing files written only after agreement to a question that names them; `run` of the three converters over the contracts of factories and protocol; contract of the factories (nothing but Error) proved; `set_info_how` of all five user interfaces for arbitrary messages', 'all converters and kinds with real files, fault injection, refusing and agreeing user interfaces', ''),
'C08': ('`create_id`: loop invariant (all smaller numbers are in use); result positive, unused, minimal, for any collection. The places that make elements: `split_scenes` on any novel stores a new element under an ID that was asked for the collection that gets it, and replaces nothing (loops as in C09); a new project variable gets the smallest ID that the variables of the file and the new ones before it do not have (loop invariants as in C16); the importers of new projects (`OdtRImport`, `OdtROutline`): each handler, from an arbitrary state, keeps the invariant that the IDs of chapters and scenes are 1 .. counter (which counter is found among all), so that a new ID is unused and minimal. Elements that documents name by ID are in C12', 'random ID sets; creation through importers and splitter', 'termination argued (finite collection)'),
'C09': ('`split_scenes` on an arbitrary novel (unbounded chapters, scenes per chapter, lines per scene). A ghost document follows the lines as documented: current chapter and scene, the lines behind the last divider, the IDs of the scenes of the current chapter and of the chapters. Obligations: each text written is that of the ghost and goes to its current scene; each list of scenes stored is that of the ghost; `create_id` is asked only when the scene (chapter) before is written (stored); per line: text is kept in order, a scene or chapter starts exactly for its divider, with title, description, level, type and the inherited attributes; marks on the split scene only; a scene without divider keeps text and marks; frame of everything else; the result. The loop invariants tie the variables of the function to the ghost and are found Houdini-style, so that names and structure of the code do not matter', 'independent model of the documented splitting on random scene texts', '`str.strip(chars)` uninterpreted; `join(split(t)) = t` assumed'),
'C10': ('`FileExport._get_text` with everything it calls (`_get_chapters`, `_get_scenes`, headings, elements) for an arbitrary project, arbitrary templates (each may be empty) and arbitrary filters. The specification is a function by recursion over the lists of chapters and scenes (which template, which number, which totals, which order); the loops are cut by invariants found Houdini-style over the integers, flags and collected lines of the loop (roles found, not named). `Filter`, the two document classes that override the text, and the mappings of 17 document classes (the keys and the values for an arbitrary element) are units of their own. If the unbounded proof fails, projects of given sizes are executed symbolically without invariants, and only a counterexample found there is a violation', 'all template subsets with marker templates, random novels, independent oracle', ''),
'C11': ('the real `_convert_from_yw` of each writer, compiled from the source to a transducer (the loop over the lines by path exploration with automata for the conditions) and compared exactly with the meaning of the text: one-liners and plain texts read back unchanged (entities, paragraphs); texts with bold and italics across lines, with a language, with comments (also within markup, across lines, and with unbalanced marks or single comment markers around them), with invisible marks: the document, read by an independent reader of paragraphs, spans and annotations, shows each character with its formatting, for every text with balanced and nested marks of any length. `_remove_inline_code`: texts without codes unchanged, codes removed. Templates, headers and footers of all writers: each is well-formed, and each value of the mapping of an arbitrary element stands where its conversion fits (text with paragraphs directly in a paragraph, one-liners in text or attribute, nothing unconverted but numbers, IDs, dates). `write` with `_set_up` on a ghost directory for every document class: type, parts named in the manifest, constant parts well-formed, the generated text is content.xml, title, author and description in meta.xml for every text', 'all ODF exports of random novels parsed by an independent ODF reader; texts and runs of formatting compared', 'the passes over the whole text in `_get_text` (quotations, notes and comments of the final manuscript), the cross reference document, headers with more than two languages: bounded only; one representative language'),
'C12': ('each handler (`handle_starttag`, `handle_endtag`, `handle_data`, `handle_comment`) of each of the ten text document readers is a step, executed from an arbitrary state of the reader on an arbitrary novel for an arbitrary tag with arbitrary attributes, or a section with an arbitrary ID: each attribute of an arbitrary element is kept unless the document kind carries it and the element is the current one or the one the section names (and, for titles, unless the chapter has none or the text has a title comment); an unknown ID makes a new element at the end of the list (or of the current chapter), a known one never; the element named gets the type of the document and is the current one; the current element is always one that is marked (inductive invariant of the state machine); `read` changes nothing else; the parser uses its client for calls of the handlers only (structural); the four list documents as in C18', 'document exported from novel B and imported into novel A which shares IDs; every attribute compared', ''),
'C13': ('nothing yet', 'export - import - compare, twice, for all importable kinds', ''),
'C14': ('`generate_xref` over unbounded lists of elements, chapters and scenes, started with the remains of an earlier run: fold invariants for each table at an arbitrary key (loops over IDs), a pointwise rule for the loops over the tags and IDs of a scene (an iteration changes the entry of its key only), no exception, every element has an entry, the novel is unchanged; lemmas: what is in the fold', 'independent oracle over random novels, generating twice', ''),
'C15': ('the setter of `Scene.sceneContent` establishes count = measure(text) for every value; frame: no other store to the counts or the text in the package (structural scan); lemmas: plain words, empty text, never negative',
        'hand-written scanner as oracle on random texts', 'meaning of the regular expressions (bounded)'),
'C16': ('get_languages: generator loop invariant (codes yielded, followed by the codes of the rest, are the codes of the text), fold of distinct codes, arbitrary scene of an unbounded project, frame of scenes and novel; lemmas: each code once, in order, nothing else. check_locale: every combination of codes and system locale. Yw7File.write: project variables with Houdini-style loop invariants (roles of the collected lists and flags are found, not named) over an unbounded list of existing variables and an unbounded list of languages: Language, Country and a pair of tags per language used, each title and ID once; other variables untouched', 'random texts with tags, random locales and system locales, project variables after writing', 'create_id by contract (C08)'),
'C17': ('`set`, `write`, `read` of Configuration with configparser by contract on a ghost file: write then read returns every setting and option (for arbitrary values within the escaping contract), options are recognised by their words, missing entries keep the defaults, unknown entries change nothing, `write` opens with the same encoding as `read`',
        'random settings and files, all words for options, non-ASCII values in several locales', 'internals of configparser'),
'C18': ('`OdsParser.get_rows` against a recursive specification (rows, cells, paragraphs, repeated rows and cells, annotations) over an unbounded tree: nested loops with Houdini-style invariants on the collected lists; `OdsReader.read` (which cells make a row); the `read` of the four list documents for an arbitrary row of an arbitrary table over an arbitrary novel: the row belongs to the element with its ID, every column reaches its attribute, the other attributes and elements are unchanged, the order of the IDs is that of the rows; lemmas about the specification', 'random tables written with an independent writer, with repeated rows/cells', ''),
'C19': ('`reset_custom_variables` and `remove_language_tags` with loop invariants over unbounded dictionaries of elements: each custom field is cleared, everything else unchanged, result flag exact; texts become sub(tag pattern, "", text)',
        'random novels', 'meaning of the tag pattern (bounded)'),
'C20': ('each factory for an arbitrary base name with every documented suffix and extension: class and path exact; all other names/suffixes refused; `isfile` arbitrary; new-project factory; path setter accepts the own kind only and else changes nothing; `run` hands on path and suffix', 'all suffix/extension pairs with adversarial project names', ''),
'C21': ('`string_to_list` and `list_to_string` with loop invariants; lemmas for round trip, idempotence, order, distinctness; unusable input', 'random lists and texts', ''),
'C22': ('every element the parser `OdtParser` meets (`startElement`, `endElement`, `characters`: which handlers it calls with what, for paragraphs, quotations, list items, headings, spans, comments, sections and the styles it learns; 278 obligations) and every handler of `OdtRImport` and `OdtROutline` from an arbitrary state of the reader over an arbitrary novel: `handle_starttag` for headings (one chapter with a new ID at the end of the list, level, type, no scenes), paragraphs, list items and quotations with and without language (a scene if and only if none is open in a chapter; its ID is new, it is the last scene of the current chapter), third-level headings, marks, blanks and meta data; `handle_data`, `handle_comment`, `handle_endtag` (what is collected, and that it becomes text, title or description of the current element only); everything else of the novel is unchanged; lemma: an ID above all numbers used is new',
        'random documents written with an independent writer (headings as headings or paragraphs, quotations, lists, formatting, languages, comments, repeated blanks, meta data missing or present), read directly or through the converter and the project file', 'splitting (C09), markup clean-up'),
}
