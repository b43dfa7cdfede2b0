# Executed by make_docs.py.  One prop() call per property.
SAMPLE = 'The tests compare the output for two sample projects byte by byte with stored files'

prop('C01', 'Saving a project and reading it back reproduces every value and the order',
     'After a project has been saved, reading the file again yields every value the project had: project data, chapters, scenes, '
     'characters, locations, items, project notes, their order, types, flags, dates, links and custom fields, whatever characters the '
     'texts contain. This also holds after any sequence of edits, additions, deletions, moves and repeated saves. Only line breaks at the '
     'end of a text and a blank first line are trimmed.',
     ['inputs', 'histories'], 'All projects with XML-representable texts, and all sequences of edits and saves.',
     SAMPLE + '; no test saves hostile texts (markup, CDATA ends, vertical bars, entities) or runs a history of edits.',
     ['yw/yw7_file.py', 'yw/xml_indent.py', 'model/id_generator.py'],
     [('element tree update', 'yw/yw7_file.py:_build_element_tree'), ('CDATA insertion', 'yw/yw7_file.py:_postprocess_xml_file'),
      ('reading', 'yw/yw7_file.py:read')],
     tech='shadow-state monitor over random create/load/edit/save histories, with an independent parser as oracle',
     note='Decides every observed save by comparing a shadow copy with an independent parse of the file and with a re-read; explores random '
          'projects and histories, so unobserved inputs are not covered.')

prop('C02', 'Loading a project interprets the yWriter file correctly',
     'Reading a yWriter 7 project gives every chapter and scene its title, texts, type, export flag, status, tags, dates, duration, links '
     'and field values as the file format defines them, in file order, for UTF-8 and UTF-16 files, with or without optional elements. Scenes in '
     'chapters that are not normal take the chapter\'s type, links to unknown elements are dropped, and characters that XML forbids are '
     'ignored. Reading a file again after another program has changed it gives the changed project, with nothing left of the former '
     'chapters, scenes and elements. A file that cannot be interpreted is rejected with an error message and nothing else happens.',
     ['inputs', 'configurations'], 'All yWriter 7 files: every combination of optional elements, type encodings, dates, encodings; and damaged files.',
     'The tests read two well-formed UTF-8 sample projects; most type, date and encoding combinations never occur in them.',
     ['yw/yw7_file.py'], [('reading', 'yw/yw7_file.py:read'), ('type inheritance', 'yw/yw7_file.py:adjust_scene_types')],
     tech='differential monitor: real reader against an independent format interpreter on generated and damaged files',
     note='Oracle is a separately written interpreter of the documented type/date tables; random and table-driven files.')

prop('C03', 'Data the library does not know survives saving',
     'Project settings, elements inside scenes and chapters, custom fields of the project, of scenes and of chapters, and project variables that are present in a yWriter project but not '
     'handled by this library are still there, unchanged, after the project was loaded, edited and saved. This includes data of scenes '
     'and chapters that were moved or reordered.',
     ['inputs', 'histories'], 'All projects with additional elements at project, scene, chapter, field and root level, and all edits that keep the owner.',
     'The sample projects contain a few such elements, saved once without edits; the byte comparison pins these only.',
     ['yw/yw7_file.py'], [('existing tree is updated in place', 'yw/yw7_file.py:_build_element_tree')],
     tech='tracer-token conservation monitor over load/edit/save histories',
     note='Each unmodelled element carries a unique token which is searched for, with its place, in the saved tree.')

prop('C04', 'Saved projects are well-formed and saving is idempotent',
     'Every saved project is a well-formed UTF-8 XML document in which yWriter finds the sections it requires, with texts held in CDATA sections, '
     'flags and types in the values yWriter uses, and IDs unique per section. Loading and saving it again without edits produces the identical file, no matter how often.',
     ['inputs', 'histories'], 'All projects with XML-representable texts; all numbers of repeated saves.',
     SAMPLE + '; none checks a second save, and no sample text contains markup or a CDATA end.',
     ['yw/yw7_file.py', 'yw/xml_indent.py'],
     [('CDATA insertion', 'yw/yw7_file.py:_postprocess_xml_file'), ('indentation', 'yw/xml_indent.py:indent')],
     tech='strict well-formedness monitor and fixpoint check over repeated saves',
     note='Strict XML parser plus structural assertions on each saved file; byte comparison between the second and later saves.')

prop('C05', 'A failed or interrupted save never loses the project',
     'When a save fails at any file operation, an error is reported and the project file has its previous content. When the process is killed at any '
     'moment of a save, the complete previous content is still found in the project file or in its backup. A successful save leaves the '
     'previous version as backup.',
     ['fault_sequences', 'crash_points'], 'All file-system operations of a save, failing or being the last before a crash; partial writes at any length.',
     'No test injects a failure or a crash.',
     ['yw/yw7_file.py'], [('backup and restore', 'yw/yw7_file.py:_write_element_tree'), ('restore after failed finish', 'yw/yw7_file.py:write')],
     level='fault_enumeration', tech='fault and crash injection at every observed file operation, with a durability oracle',
     note='Every file operation of the observed saves is failed once and crashed once; writes are additionally cut at sampled byte counts. Kernel '
          'write-back order (power loss) is not modelled.')

prop('C06', 'A project that is open in yWriter is neither read nor changed',
     'While a lock file of yWriter lies beside the project, every read, save, export and import back into that project is refused with an '
     'error message, and the project, its backup and existing documents stay byte-identical. Without the lock file the same operation works.',
     ['histories', 'inputs'], 'All operations and document types, with the lock appearing before or during a session.',
     'No test creates a lock file.',
     ['yw/yw7_file.py', 'converter/yw_cnv_ui.py'], [('lock test', 'yw/yw7_file.py:is_locked')],
     tech='byte-snapshot monitor over operations with and without lock files',
     note='All export suffixes and importable documents are run in both lock states.')

prop('C07', 'Every exported document is a valid, complete OpenDocument package',
     'Whatever the project contains, each export yields a zip package whose first entry is the uncompressed mimetype, whose listed parts all exist, '
     'and whose XML parts are well-formed, use only declared style names and namespaces, and carry title and author in the metadata.',
     ['inputs', 'configurations'], 'All projects with XML-representable texts, all document types, all languages.',
     SAMPLE + '; none of their texts contains markup characters in the places where templates insert them unescaped.',
     ['odf/odf_file.py', 'odt_w', 'ods_w', 'file/file_export.py'],
     [('package assembly', 'odf/odf_file.py:write'), ('escaping', 'odt_w/odt_writer.py:_convert_from_yw')],
     tech='strict package and XML validator run on every exported file of hostile projects',
     note='The validator checks zip layout, manifest, strict XML, style and namespace references; hostile texts in every exported field.')

prop('C08', 'Each document holds exactly the chapters, scenes and elements of its kind',
     'Each exported document contains, in project order, exactly the chapters, scenes or story elements its kind calls for by type, export flag and '
     'level, each once; everything else is left out.',
     ['inputs', 'configurations'], 'All combinations of chapter and scene types, levels and flags; all document kinds.',
     SAMPLE + '; only the combinations in the samples are seen.',
     ['file/file_export.py', 'odt_w', 'ods_w'],
     [('chapter and scene selection', 'file/file_export.py:_get_chapters'), ('scene selection', 'file/file_export.py:_get_scenes'),
      ('filters', 'file/filter.py')],
     tech='specification-based monitor on section, heading and row sequences of the exported documents',
     note='An independently written selection rule per document kind predicts the sequence of IDs; compared on random projects.')

prop('C09', 'Exported text is the text of the project',
     'Titles, descriptions, notes and scene texts appear in the documents character by character, one paragraph per line, including characters that are special to XML or to '
     'templates. Bold and italics carry the matching style, comments become annotations, and no text leaks from one scene or field to another.',
     ['inputs'], 'All texts with XML-representable characters and balanced markup.',
     SAMPLE + '; template placeholders, markup characters and most markup nestings never occur in them.',
     ['odt_w/odt_writer.py', 'odt_w/odt_w_formatted.py', 'file/file_export.py'],
     [('markup conversion', 'odt_w/odt_w_formatted.py:_convert_from_yw'), ('template substitution', 'file/file_export.py:write')],
     tech='independent document reader compared with the project on every exported field',
     note='Documents are read back by a separate ODF reader written for the check.')

prop('C10', 'Manuscript and proof documents carry scene texts back unchanged',
     'Exporting a project to a manuscript, notes, todo or proof-reading document and importing the document back without edits leaves the project as it was, '
     'including all markup, comments, notes and language tags in scene texts, blank lines inside and everything not in the document.',
     ['inputs', 'histories'], 'All projects with scene texts in the supported markup; repeated round trips.',
     'The tests import documents edited by hand from one sample; no round trip of other texts is made.',
     ['odt_w', 'odt_r', 'converter/yw_cnv_ui.py'],
     [('reading back', 'odt_r/odt_r_manuscript.py'), ('reading back', 'odt_r/odt_r_proof.py'), ('formatted text parsing', 'odt_r/odt_r_formatted.py')],
     tech='round-trip monitor through the real converters with an independent parser of the project file',
     note='Texts are generated from the markup grammar; deviations allowed by design are listed in DESIGN.md.')

prop('C11', 'Description documents carry descriptions back unchanged',
     'Exporting scene, chapter, part, character, location or item descriptions and importing the document back without edits leaves the project as it was, '
     'and importing an edited document changes exactly the edited descriptions to the new text. A scene description that begins with a comment with a title between tildes gives its scene this title.',
     ['inputs', 'histories'], 'All texts in descriptions; all edited subsets.',
     'The tests import one edited sample per document type.',
     ['odt_r', 'odt_w'], [('scene descriptions', 'odt_r/odt_r_scenedesc.py'), ('chapter descriptions', 'odt_r/odt_r_chapterdesc.py'),
                          ('character descriptions', 'odt_r/odt_r_characters.py')],
     tech='round-trip and edit-frame monitor through the real converters',
     note='Documents are edited by rewriting their XML between export and import.')

prop('C12', 'Lists carry story data back unchanged',
     'Exporting a character, location, item or scene list and importing it back without edits leaves every value that the list shows and every value it does not show '
     'as it was, including texts with markup characters, line breaks, separators, numbers and dates.',
     ['inputs', 'histories'], 'All values in list columns; repeated round trips.',
     'The tests import one edited sample list per type.',
     ['ods_r', 'ods_w'], [('table parsing', 'ods_r/ods_parser.py'), ('row interpretation', 'ods_r/ods_reader.py'), ('table writing', 'ods_w/ods_writer.py')],
     tech='round-trip monitor through the real converters with an independent parser of the project file',
     note='Random hostile values in all columns; designed reinterpretations are listed in DESIGN.md.')

prop('C13', 'Editing a document changes exactly what was edited',
     'When the text of some scenes is changed in an exported document and the document is imported, these scenes get the new text and nothing else in the '
     'project changes: no other scene, element, order, type, link or setting, and no text moves between scenes. A comment with a title between tildes gives its scene this title.',
     ['inputs', 'histories'], 'All edits of scene texts in manuscript and proof documents, all edited subsets, multi-round histories.',
     'The tests import one edited sample document per type.',
     ['odt_r', 'converter/yw_cnv_ui.py'], [('section based assignment', 'odt_r/odt_reader.py'), ('merge into project', 'converter/yw_cnv_ui.py:import_to_yw')],
     tech='edit-frame monitor: random document edits, whole-project comparison after import',
     note='A shadow project predicts the result of every edit sequence.')

prop('C14', 'List rows can be edited, reordered, added and removed',
     'Importing a list of characters, locations or items applies the edited cells to the element of that row, gives the elements the order of the rows, adds an element for each new row with an ID that was not in use, and removes '
     'elements whose rows were deleted; rows without ID are ignored, and scenes only link to elements that still exist. Importing a scene list changes only the scenes of its rows, whatever their order, also if it contains rows of scenes that were deleted from the project.',
     ['inputs', 'histories'], 'All edits, permutations, insertions and deletions of rows.',
     'The tests import one edited sample list per type.',
     ['ods_r'], [('row interpretation', 'ods_r/ods_r_charlist.py'), ('row interpretation', 'ods_r/ods_r_scenelist.py')],
     tech='table-edit monitor: random row edits, whole-project comparison after import',
     note='Rows are rewritten in the package XML between export and import.')

prop('C15', 'Splitting scenes and chapters conserves the text',
     'When imported texts contain chapter or scene headings, the text is divided exactly at these headings: every other line is kept once and in '
     'order, new chapters and scenes follow their origin and get the titles and descriptions given and unused IDs, new scenes get the type of their origin, and scenes that are not in the document stay unchanged. '
     'The user is told exactly when new chapters or scenes were made. Scenes and chapters of the document that were deleted from the project come back with their text, and chapters with their titles.',
     ['inputs', 'histories'], 'All texts with any sequence of headings, in any number of scenes, and repeated splits.',
     'The tests split one sample scene.',
     ['model/splitter.py', 'converter/yw_cnv_ui.py', 'odt_r/odt_reader.py'], [('splitting', 'model/splitter.py:split_scenes'), ('warning', 'converter/yw_cnv_ui.py:import_to_yw'), ('scenes that are not in the project', 'odt_r/odt_reader.py:handle_starttag')],
     tech='conservation and order monitor over random divider placements against a reference splitter',
     note='Reference splitter over the line sequence; known deviations are probed separately.')

prop('C16', 'New projects hold all text of the imported document in its structure',
     'Creating a project from a work in progress keeps every heading and paragraph after the first heading, with its formatting, once and in order, with chapters and scenes where '
     'the headings and dividers are; from an outline, chapters and scenes get the titles of the headings and the paragraphs below as descriptions. The project has the title and author of the document.',
     ['inputs'], 'All documents with arbitrary headings, paragraphs, dividers, lists, quotes and inline markup.',
     'The tests import two sample documents.',
     ['odt_r/odt_r_import.py', 'odt_r/odt_r_outline.py', 'converter/yw_cnv_ui.py'],
     [('document parsing', 'odt_r/odt_r_import.py'), ('outline parsing', 'odt_r/odt_r_outline.py'), ('project creation', 'converter/yw_cnv_ui.py:create_yw7')],
     tech='generated documents with a reference interpretation, compared with the created project',
     note='Documents are generated as real packages with unique words in every paragraph.')

prop('C17', 'Documents only ever go back to their own project',
     'A document is imported into the project whose name and folder it shares, whatever the names look like; a document that would create a project is refused when the project '
     'exists. No import ever replaces or creates another project file.',
     ['inputs', 'configurations'], 'All file and folder names (suffixes inside names, blanks, dots, non-ASCII), all sets of neighbouring projects.',
     'The tests use one fixed file name.',
     ['converter/import_target_factory.py', 'converter/new_project_factory.py', 'converter/yw_cnv_ff.py', 'converter/yw_cnv_ui.py'],
     [('target selection', 'converter/import_target_factory.py:make_file_objects'), ('refusal', 'converter/yw_cnv_ui.py:create_yw7')],
     tech='file-system monitor over imports among neighbouring projects with hostile names',
     note='Every byte below the working folder is compared before and after.')

prop('C18', 'Every conversion ends with an honest report',
     'Every conversion request ends, without an exception escaping, either with a success message naming a file that was really written and holds the result, or with an '
     'error message and no new result; this holds for valid, damaged, unrelated and missing files and unsupported types.',
     ['inputs', 'fault_sequences'], 'All input files including damaged ones, all requested document types, all user answers.',
     'The tests only run successful conversions.',
     ['converter'], [('error handling', 'converter/yw_cnv_ui.py'), ('dispatch', 'converter/yw_cnv_ff.py:run')],
     tech='outcome monitor at the user-interface boundary over valid, damaged and hostile inputs',
     note='A recording user interface and the file system are compared after each conversion.')

prop('C19', 'A failed or declined conversion leaves existing files as they were',
     'If the user declines to overwrite, or a conversion fails at any file operation, the existing project and documents keep their previous content and no working files are left behind.',
     ['fault_sequences', 'inputs'], 'All file operations of all conversions failing once; all declined overwrites; all unreadable inputs.',
     'No test injects a failure or declines.',
     ['odf/odf_file.py', 'converter/yw_cnv_ui.py', 'yw/yw7_file.py'],
     [('backup of documents', 'odf/odf_file.py:write'), ('backup of projects', 'yw/yw7_file.py:_write_element_tree'), ('overwrite question', 'converter/yw_cnv_ui.py:check')],
     level='fault_enumeration', tech='fault injection at every observed file operation of each conversion, with a byte-snapshot oracle',
     note='Each file operation of the observed conversions is failed once; short writes via resource limits.')

prop('C20', 'Conversions touch only their own files',
     'A conversion writes nothing but its target, the backup of its target and private temporary files that are gone afterwards; the source and all neighbouring files stay untouched and the '
     'working directory is unchanged.',
     ['inputs', 'configurations'], 'All conversions, all folder layouts.',
     'No test watches the file system.',
     ['odf/odf_file.py', 'odt_r/odt_parser.py', 'converter'], [('temporary directory handling', 'odf/odf_file.py:_tear_down')],
     tech='file-system trace monitor (interpreter audit events) with a whitelist specification',
     note='Audit events see every open/rename/remove the interpreter performs.')

prop('C21', 'Word and letter counts follow the text',
     'The word and letter counts of a scene are always those of its current text, counted without comments, notes, and bracketed markup, with dashes separating words and hyphens joining them; '
     'saving, loading and editing in any order never leaves a stale count.',
     ['inputs', 'histories'], 'All texts, all sequences of assignments.',
     'Counts only appear in a few sample lists.',
     ['model/scene.py'], [('counting', 'model/scene.py:sceneContent')],
     tech='reference counter compared at every assignment and load',
     note='Reference counter is a hand-written scanner, not regular expressions.')

prop('C22', 'Cross references are exact',
     'The cross reference lists, for every character, location, item and tag, exactly the scenes that mention it, and for every tag exactly the elements that have it, each once and in story order; the exported cross-reference document shows the same, with each scene marked by its type. '
     'Links in exported documents and lists lead to the document exported for that purpose, and to the section or bookmark of the chapter, scene or element that they name.',
     ['inputs'], 'All link structures between scenes, elements and tags.',
     'One sample project is compared.',
     ['model/cross_references.py', 'odt_w/odt_w_xref.py', 'ods_w/ods_w_scenelist.py', 'file/file.py'], [('generation', 'model/cross_references.py:generate_xref'), ('link targets', 'file/file.py:filePath')],
     tech='relational monitor: recomputed relation compared with the generated one and with the document',
     note='Relation recomputed from the plain spec.')

prop('C23', 'References in a project always stay consistent',
     'After any sequence of exports, document edits and imports, every scene belongs to at most one chapter, chapters list only existing scenes, scenes link only to existing story elements, '
     'all IDs are unique, and no scene or chapter disappears unless the document type manages it.',
     ['histories'], 'All histories of conversions over one project.',
     'Tests perform a single conversion each.',
     ['model', 'yw/yw7_file.py', 'ods_r', 'odt_r'], [('ID generation', 'model/id_generator.py:create_id'), ('link filtering', 'yw/yw7_file.py:_read_scenes')],
     tech='invariant monitor over long random histories of exports, edits and imports',
     note='Invariants are evaluated on an independent parse after every step.')

prop('C24', 'Language settings are kept and applied',
     'The language and country of a project are kept by saving and appear as document language; language tags in texts are registered and become text with that language in documents and return as the same tags. '
     'Missing or malformed settings are replaced by the system locale or the "no language" code, never by a crash.',
     ['inputs', 'configurations'], 'All language and country codes, valid or not; all language tags in texts.',
     'One sample uses one language.',
     ['model/novel.py', 'odt_w/odt_writer.py', 'odt_r/odt_parser.py', 'yw/yw7_file.py'],
     [('locale check', 'model/novel.py:check_locale'), ('language collection', 'model/novel.py:get_languages')],
     tech='monitor on document styles and project variables over random language settings',
     note='Oracle is an independent reading of styles and variables.')

prop('C25', 'Resetting custom fields removes exactly these fields',
     'Purging yWriter projects from application specific custom fields removes exactly the known fields, tells whether anything was removed, and leaves every other value of the project as it was.',
     ['inputs'], 'All combinations of custom fields in all elements.',
     'One sample is compared.',
     ['yw'], [('reset', 'yw')],
     tech='conservation monitor on projects with random custom fields',
     note='Every element of the tree is compared before and after.')

prop('C26', 'Settings survive saving and loading',
     'Settings and options written to a configuration file are read back with the same values; settings missing in the file keep their defaults, unknown ones are ignored.',
     ['inputs', 'histories'], 'All setting names and values, all partially filled files.',
     'No test covers the configuration.',
     ['config/configuration.py'], [('reading', 'config/configuration.py:read'), ('writing', 'config/configuration.py:write')],
     tech='round-trip monitor with a shadow dictionary',
     note='Random keys and values including special characters.')

prop('C27', 'Data files hold all characters, locations and items',
     'Exporting the story data as separate data files yields three well-formed files with exactly the project\'s characters, locations and items, all values unchanged, and leaves the project itself untouched.',
     ['inputs'], 'All projects with XML-representable texts.',
     'One sample is compared.',
     ['yw/data_files.py'], [('writing', 'yw/data_files.py')],
     tech='independent parse of the three files compared with the project',
     note='Same parser as for projects.')

prop('C28', 'Opening a document opens exactly this document',
     'Opening a document, directly or as the result of a conversion, calls the opener of the system (the Windows call, xdg-open, or open, whichever is the first one available) exactly once with the path of this document, whatever characters '
     'the path contains. Nothing else is run, no file is changed, and a system without an opener, or an opener that fails, causes no exception.',
     ['inputs', 'configurations'], 'All file and folder names; systems with different openers.',
     'No test opens a document.',
     ['file/doc_open.py', 'converter/yw_cnv_ui.py'], [('call of the opener', 'file/doc_open.py:open_document')],
     tech='recording stand-ins for the openers on simulated systems, with names that would leave traces if they were run as commands',
     note='Random hostile names; the calls are recorded by the stand-ins, side effects by comparing folders.')

prop('C29', 'User interfaces show every report and pass on the answer',
     'Whatever user interface is used (silent, console, message boxes, window, main window), the user sees each report of a conversion completely and without the error marker, failures are displayed '
     'differently from successes, the question before overwriting a file names this file and the answer decides, and warnings are displayed with their text. The main window shows title, author '
     'and path of the open project, shows why a project cannot be opened and has none open then, and restores the previous status text; its menu entries and keys do the same as its methods. '
     'Window icons are set, or reported as missing; the text box scrolls with its scroll bar and offers its formats in the font given.',
     ['inputs', 'histories'], 'All messages, answers, and sequences of conversions and of opening and closing projects.',
     'The tests use the silent user interface only, and never look at it.',
     ['ui'], [('reports', 'ui/ui_cmd.py:set_info_how'), ('reports', 'ui/ui_tk.py:set_info_how'), ('projects', 'ui/main_tk.py:open_project'), ('icons', 'ui/set_icon_tk.py:set_icon'), ('text box', 'ui/rich_text_tk.py')],
     tech='monitor of what a recording stand-in for the widget toolkit and the console displays, during real conversions',
     note='The toolkit is replaced by a recording stand-in, because there is no display; its rendering is not covered.')

prop('C30', 'Programs do their conversion, alone and inlined',
     'Each program built on the library, started with a file, performs exactly the conversion of its kind: the same files with the same contents, and the same report, as the converter itself; it keeps everything else '
     'untouched, also when the user refuses, or the file does not exist. Inlined into a single script it runs without the library and does and displays exactly the same. Inlining preserves the '
     'behaviour of any program and its modules that follow the conventions of the library.',
     ['inputs', 'histories', 'configurations'], 'All projects and documents; all programs with acyclic imports.',
     'No test runs a program or the inliner.',
     ['src/inliner.py', 'src/sample'], [('inlining', 'src/inliner.py:inline_module'), ('programs', 'src/sample/*.py')],
     tech='differential monitor: programs in their own process, as they are, inlined, and as library calls, with a recording stand-in for the widget toolkit; generated programs for the inliner',
     note='The outputs are compared byte by byte except for times and the place of the folder.')

prop('C31', 'Messages are found once, translations are never lost, and users see them',
     'Scanning the sources puts each message exactly once into the template, escaped so that it is looked up again. Updating the translations of a project adds the new messages, keeps each existing translation, takes missing ones from the '
     'dictionary, and adds all of them to the dictionary, which never loses any; success is reported if and only if every message is translated. The previous file is kept as a backup and is put back if writing fails. '
     'A compiled catalog shows each message of its source with its own translation in its context, and nothing else, even when several catalogs are compiled in one run.',
     ['inputs', 'histories', 'faults'], 'All message and translation texts on a single line; all histories of scanning, translating, updating, compiling.',
     'No test covers these tools.',
     ['src/pgettext.py', 'src/translations.py', 'src/msgfmt.py'],
     [('scanning', 'src/pgettext.py:write_pot'), ('updating', 'src/translations.py:main'), ('compiling', 'src/msgfmt.py:make')],
     tech='shadow dictionary over random histories with failing writes; independent catalog parser; lookups with gettext',
     note='Messages with a quotation mark before a closing parenthesis are excluded.')

prop('C32', 'Template-based exporters render their templates with the values of the project',
     'An exporter of an application, consisting of templates and filters, writes the header, each accepted chapter and scene in the order of the project with the template of its kind, the ends of chapters and the dividers of scenes, '
     'then characters, locations, items, project notes, and the footer. Each documented placeholder is replaced by its value, once, values are never interpreted as templates, unknown placeholders stay; '
     'numbers and totals count what is exported. The previous file becomes the backup; a failed export leaves the previous file.',
     ['inputs', 'configurations', 'faults'], 'All sets of templates and filters, all projects with a language.',
     'The tests use the templates of the package only.',
     ['file/file_export.py', 'file/filter.py'], [('rendering', 'file/file_export.py:_get_text'), ('writing', 'file/file_export.py:write')],
     tech='reference renderer following the specification; exact comparison of the output for random template sets, filters, and projects, with injected failures',
     note='The placeholders are those of docs/specifications_for_file_export.md and the ones used by the templates of the package.')

prop('C33', 'Converters of applications use the file classes of the application',
     'A converter made of an application\'s lists of file classes exports a file with the extension of a source class to the file of the same name with the requested suffix and the extension of the first target class with this suffix. '
     'It imports a document with the first class whose suffix and extension end its name into the project of the same name without this suffix, if there is one of a target class. It creates a project with the name of the document from other documents with the first class that fits, '
     'if it can create projects, there is none yet, and the document is not of a kind that is not meant to be written back. '
     'The project is read before the document that changes it, and written last; both share one novel, and options are passed on. The user is asked before a file is overwritten, and warned of new scenes exactly when an import made some. '
     'Anything else is refused with a message, and no file class reads or writes then. Converters do not influence each other, nor does one conversion the next one.',
     ['inputs', 'configurations', 'histories', 'faults'], 'All lists of file classes with any suffixes and extensions, all file names, all sequences of conversions.',
     'The tests use the lists of the package only, with one file name.',
     ['converter/yw_cnv_ff.py', 'converter/yw_cnv_ui.py', 'converter/export_source_factory.py', 'converter/export_target_factory.py', 'converter/import_source_factory.py', 'converter/import_target_factory.py', 'converter/new_project_factory.py', 'file/file.py'],
     [('choice of the operation', 'converter/yw_cnv_ff.py:run'), ('name of the project', 'converter/import_target_factory.py:make_file_objects'), ('operations', 'converter/yw_cnv_ui.py:import_to_yw')],
     tech='online monitor of the calls of recording file classes against a reference model, for random registries, names, histories and failures',
     note='If several classes fit, the first one in the list counts.')

prop('C34', 'Results depend on the input only',
     'Reading, saving, exporting and importing produce the same files and reports from the same files and requests: whatever the locale and its preferred encoding (for projects with a language of their own), the time zone, the hash seed, '
     'the temporary folder, the file creation mask, the working folder, the form of the paths, the memory management, the thread and the mode of the interpreter; whatever the process converted before, with the same or with other converters; '
     'and whatever other processes convert at the same time with the same temporary folder. Documents are dated with the time of their export, in any time zone.',
     ['inputs', 'configurations', 'histories', 'schedules'], 'All files, all environments, all histories of a process, all schedules of parallel processes.',
     'The tests run in one environment, and one conversion at a time.',
     ['yw/yw7_file.py', 'yw/data_files.py', 'odf/odf_file.py', 'file/file_export.py', 'config/configuration.py', 'odt_r', 'model'],
     [('encoding of project files', 'yw/yw7_file.py:read'), ('temporary folder', 'odf/odf_file.py:__init__'), ('date', 'odf/odf_file.py:_set_up'), ('order of languages', 'model/novel.py:get_languages')],
     tech='differential execution monitor: whole folders of conversions in child processes under varied environments, histories and parallelism, byte-wise comparison of all results',
     note='Dates in the meta data, time stamps of package entries, and the folder in links are left out of the comparison; dates are compared with the clock.')
