"""Level, technique and note of each check (see DESIGN.md)."""
B = ('exploration', 'contracts evaluated on the real code over generated inputs (bounded stand-in)', 'Bounded: pre- and postconditions of the property checked at run time on pseudo-random cases of the real code; nothing is proved yet.')
LEVELS = {f'C{i:02}': B for i in range(1, 22)}


def P(what):
    return ('proof', 'deductive verification of the real functions (verification conditions from /repo\'s source, z3 and cvc5); contracts also evaluated at run time (bounded) to find failing inputs', what)


LEVELS['C05'] = P('Every write method, with a failure possible at each file operation, and an obligation at each crash point; file system by contract.')
LEVELS['C06'] = P('read, write and is_locked of all project file classes; file system by contract.')
LEVELS['C15'] = P('The scene text setter and the frame of the count attributes; text measures by lemma over the regular expressions.')
LEVELS['C19'] = P('Both purge functions with loop invariants over unbounded collections.')
LEVELS['C21'] = P('Both list functions with loop invariants; idempotence and round trip as lemmas.')
LEVELS['C17'] = P('read, write and set of Configuration: round trip and defaults for arbitrary settings and options; configparser by contract on a ghost file.')
LEVELS['C07'] = P('Conversion protocol (export, import, create, run of all converters), contract of the factories, and the message methods of the user interfaces, for all failures and answers; reading and writing by contract.')
LEVELS['C20'] = P('All factories and the path setter for arbitrary names; run passes path and suffix.')
LEVELS['C16'] = P('get_languages for any scenes (loop invariants over the tags of a text) and check_locale for any locale; the project variables after writing (loop invariants over the variables of the file and over the languages): one variable for the language and the country, one pair per language used, distinct titles and IDs, foreign variables untouched.')
LEVELS['C01'] = P('Yw7File.write followed by Yw7File.read on a symbolic element tree: every attribute of an arbitrary element of every kind, and the project settings; new files, existing files, new elements in existing files. Byte level of XML by contract (C03).')
LEVELS['C02'] = P('Encoding and decoding tables for scenes and chapters over any stored encoding; inheritance with loop invariants.')
LEVELS['C04'] = P('Yw7File.read and Yw7File.write on an arbitrary element tree: elements that are not managed are untouched, nothing appears twice, what is not set keeps its stored value, foreign project variables are kept.')
LEVELS['C14'] = P('generate_xref for any project: each table at an arbitrary key is the fold of the occurrences over the unbounded lists; frame of the novel.')
LEVELS['C10'] = P('FileExport._get_text down to chapters, scenes and elements for any project, any templates and any filters: the text is that of a recursive specification (loop invariants found Houdini-style over accumulators); the mappings of all document classes for an arbitrary element.')
LEVELS['C18'] = P('OdsParser.get_rows for any event sequence of any table (recursive specification, loop invariants found Houdini-style), OdsReader.read, and the four list documents: an arbitrary row reaches the element of its ID only, column by column, in the order of the rows. ElementTree by contract.')
LEVELS['C08'] = P('create_id by loop invariants for any collection; every place where elements are made: the splitter (any novel), project variables (any list), the counting importers (step invariant: the IDs in use are 1 .. counter).')
LEVELS['C09'] = P('split_scenes on any novel: ghost document over chapters, scenes and lines without bound (loop invariants found Houdini-style); texts, IDs, titles, inheritance, frame. create_id by contract (C08), str.split and join by contract.')
LEVELS['C12'] = P('Each handler of each text document reader as a step from an arbitrary state over an arbitrary novel: only carried attributes of marked elements change; read of all readers; any row of the list documents. Parser calls, splitting (C09) and file access by contract.')
LEVELS['C03'] = P('The whole Yw7File.write with the real _postprocess_xml_file over a file that holds any serialised tree: write and replacements are compiled from the source to a finite transducer and compared exactly with the XML reading of the tree (Parse after write = Parse of the tree, every text, every length); read hands the file text to the parser unchanged; indent touches white space of containers only. Element-tree serialisation and the parser by contract.')
LEVELS['C11'] = P('The text conversions of all document writers as transducers: reading the document back gives the text with its formatting, for every text, one-liners and texts, with marks across lines, languages, comments and invisible marks; raw code; every template and header: each value stands where its conversion fits, fragments are well-formed; packing: type, manifest, metadata. The final passes over the whole text (quotations, notes) and the cross reference are bounded.')
LEVELS['C22'] = P('Each handler of the two readers for new projects as a step from an arbitrary state over an arbitrary novel: a heading adds exactly one chapter or scene with a new ID at the end, text and marks are collected in order, the end of a paragraph or heading stores what was collected in the current element, and nothing else changes. Parser calls, markup clean-up and splitting (C09) by contract; the composition over a whole document is checked by bounded evaluation as well.')
