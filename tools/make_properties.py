import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
W='wiggle_query_language/'
CL=W+'clauses/'
MK=CL+'make/make.py'; MP=CL+'make/transform/make_pre.py'; PM=CL+'make/parse_make/parse_make_statement.py'
DB=W+'graph/database/database.py'; IH=W+'graph/database/indexes/index_helpers.py'; NR=W+'graph/database/indexes/node_relationships_index.py'
WN=W+'graph/state/wiggle_number.py'; Q='wiggle_shell/core/query/query.py'; PP=CL+'parsing_helpers/parse_properties.py'
PH=CL+'regexes/patterns/patterns_helpers.py'; PR=CL+'regexes/patterns/properties.py'; CK=CL+'parsing_helpers/parse_statement_checks.py'
EX=CL+'parsing_helpers/extract_statements.py'; TR=CL+'transform_helpers/relationships.py'; FP=CL+'find/transform/find_pre.py'
SC=CL+'find/short_circuits/find_short_circuits.py'; RP=CL+'report/parse_report/parse_report_statement.py'
SG='wiggle_shell/core/select_gdbms/select_gdbms.py'; SD='wiggle_shell/core/select_gdbms/select_database_file.py'
SI='wiggle_shell/core/select_gdbms/select_index_file.py'; SW='wiggle_shell/core/select_gdbms/select_wiggle_number_file.py'
p('C01','A MAKE stores exactly the graph it describes',
 'Running a well-formed MAKE query adds to the database exactly the nodes and relationships written in it: every node of every pattern (left, middle and right, in every comma-separated pattern and every MAKE statement) with its own label and properties, and every relationship once, on the node it starts from, with its name, properties, direction and both endpoints. Nothing else is added, and the query succeeds.',
 ['inputs','histories'],'every well-formed MAKE query (1-3 nodes per pattern, either direction per relationship, any number of patterns and statements), on a database with any earlier contents',
 'No test runs MAKE end to end; the tests only look at parsed fields of a few patterns, so nothing relates the written pattern to what is on disk.',
 [MK,MP,PM,PH,TR,DB],[('pattern to pre-nodes and relationships',MP+': process_parsed_make_list'),('pre-nodes to stored nodes',MK+': make_nodes, make_node, make_relationship'),('write',DB+': add_item_to_database')],['database file after each query','return/exception of query()'])
p('C02','Property values are stored with exactly the type and value written',
 'Every property given in the documented literal forms (integer, float, true/false, null, single- or double-quoted string, and a list of these) is stored under its own key with exactly that type and value. This holds on nodes and relationships alike, for any number and order of properties, whichever quotes are used, whatever blanks surround keys, values, commas and braces, and for strings that merely look like or contain another literal (for example "12", "true story", "null").',
 ['inputs'],'every property block over the documented literal grammar (strings are not one of the words the language reserves)',
 'Tests parse one long fixed property line with one layout; the value space, layouts and embedded keywords are unbounded.',
 [PP,PR,PH,CK],[('typed alternatives',PR+': ALL_PROPERTIES_KEY_VALUE_REGEX'),('conversion',PP+': handle_*_property')],['properties in the database file','get_property_dict()'])
p('C03','Wiggle numbers are unique and never reused',
 'Within a database every node and every relationship has its own wiggle number, different from every number handed out before, over any sequence of queries and restarts. The stored next number only ever grows, is always greater than every number in use, and after a successful query has grown by exactly the number of nodes and relationships that query created.',
 ['histories','inputs'],'every history of succeeding and failing queries and restarts on one database',
 'The tests increment a counter file directly; none creates nodes through it, over several queries or restarts.',
 [MP,MK,WN,DB],[('allocation',MP+': process_parsed_make_list'),('read/write of the counter',WN),('refusal of duplicates',DB+': add_item_to_database')],['wiggle number file','database file'],
 [dict(name='wiggle number',meaning='next free number',where='wiggle_number_<name>.txt')])
p('C04','Queries never alter or lose data stored earlier',
 'Once a node or relationship has been stored, no later query of any kind - successful, rejected, MAKE, FIND or REPORT - changes, moves or removes any part of it (label, properties, relationships, endpoints, numbers, timestamps).',
 ['histories'],'every history of queries against one database, of any length and size, including across restarts',
 'No test runs two queries against the same database.',
 [DB,MK,IH,NR],[('append-only merge',DB+': add_item_to_database')],['database file after every query of the history'])
p('C05','The indexes always agree with the stored graph',
 'After every query, the node-label index is exactly the set of labels of stored nodes, the relationship-name index is exactly the set of names of stored named relationships, and the node-relationship index maps exactly the nodes with outgoing relationships to the numbers of those relationships. The index file stays readable whatever mix of queries ran (including MAKEs without any relationship).',
 ['histories','inputs'],'every history of successful and rejected queries on one database',
 'Each index is tested alone with hand-made sets, never against a database, and never with nothing to add.',
 [MK,IH,NR,W+'graph/database/indexes/node_labels_index.py',W+'graph/database/indexes/relationship_names_index.py'],[('index update',MK+': add_indexes'),('merge',IH+': add_items_set_to_index_by_name'),('merge',NR+': add_items_to_node_relationships_index')],['indexes file and load_*_index() after every query'])
p('C06','A rejected query changes nothing and leaves the database usable',
 'If a query is rejected because of its text - any clause in it being malformed, in any position, even when other clauses in it are fine - then the database, indexes and wiggle number are exactly as before the query. The next well-formed query then works as if the rejected one had never been entered.',
 ['inputs','histories'],'every query that raises, at any point in a history: malformed MAKE/FIND/REPORT, bad values, duplicate handles, values that cannot be stored, a good MAKE combined with a bad other clause',
 'Tests only check that individual validators raise, never what is left on disk afterwards.',
 [Q,MK,DB,IH,NR,PP],[('parse everything before executing',Q+': parse_query_string / execute_query'),('build nodes before writing',MK+': make'),('refuse unstorable values',PP+': handle_list_property')],['all three files before and after a raising query()'])
p('C07','FIND and REPORT never write',
 'A query without a MAKE leaves the database, index and wiggle-number files byte-for-byte unchanged, whether or not it finds something and whether or not it is valid.',
 ['inputs','histories'],'every FIND / FIND+REPORT query, valid or malformed, on any database contents',
 'FIND is never executed against a database by the tests.',
 [Q,CL+'find/find.py',SC,CL+'report/report.py'],[('read-only loads',SC+': find_short_circuit')],['file bytes before/after, write-mode file opens'])
p('C08','FIND says "no results" exactly when a label or name it needs is absent',
 'FIND with patterns of one, two or three nodes reports "No results" if some node label or relationship name in them is not present in the database, and does not report it when all of them are present. Unnamed relationships require no name, and what a MAKE in an earlier query (or earlier in the same query) stored counts as present.',
 ['inputs','histories'],'every FIND against every reachable database',
 'Only the two set helper functions are tested, with one-element sets; the decision itself is never run.',
 [SC,CL+'find/short_circuits/nodes.py',CL+'find/short_circuits/relationships.py',FP,CL+'find/find.py'],[('short circuit decision',SC+': find_short_circuit'),('labels and names needed',FP+': process_parsed_find')],['result of find() and printed output'])
p('C09','Ill-formed statements are rejected wherever they occur',
 'A query is rejected with an error, whatever the position of the offence (any pattern, any statement, node or relationship, MAKE or FIND), if a statement contains an illegal character (#, %, &, *, $), a relationship that is undirected or points both ways, a relationship name that is not upper case, an unbalanced bracket, a handle used twice in one pattern, a missing comma or colon in properties, a property whose value is a wrongly capitalised boolean or null, a property without a value, or a misspelled (letter-swapped) clause word.',
 ['inputs'],'every well-formed query with one such offence introduced at any place',
 'Tests give each validator one or two single-statement lists; position in multi-statement queries and the combination through query() are not covered.',
 [CK,EX,'models/wql/parsing/parsed_query.py',PP,TR],[('validators',CK+': validate_statement'),('handles',"models/wql/parsing/parsed_query.py: validate_handles"),('spelling',CK+': check_clause_spelling')],['query() raises; files unchanged'])
p('C10','A query is never silently carried out only in part',
 'If a query containing MAKE statements is accepted, then all of its MAKE text took effect: as many nodes and relationships were created as were written, and every label, relationship name, property key and value written is present in what was stored. Likewise the search derived from an accepted FIND holds every node, relationship and property written in it. Text inside a statement that the language cannot represent leads to an error, never to silently dropped or altered parts.',
 ['inputs'],'every text obtained by damaging, truncating, merging or mutating well-formed queries, as well as well-formed ones',
 'Arbitrary damaged input is an unbounded space; the tests contain no case where part of a statement fails to match.',
 [PM,PP,PR,PH,EX],[('pattern matching of the statement',PM+': build_parsed_make'),('property matching',PP+': parse_properties'),('statement extraction',EX)],['token conservation between the query text and the database delta'])
p('C11','Layout, clause case and line breaks between statements do not matter',
 'Two queries that differ only in blanks between tokens, in the number of dashes of a relationship, in the letter case of clause words (MAKE, FIND, REPORT), or in whether statements follow each other on one line or on separate lines have the same effect: the same stored graph, or the same acceptance and FIND outcome.',
 ['inputs'],'every query and every re-rendering of it under those layout changes',
 'Regex tests fix one layout per pattern; relationship direction is never checked with other layouts.',
 [PH,CL+'regexes/patterns/clause_helpers.py',EX,TR,PP],[('statement regexes',CL+'regexes/patterns/clause_helpers.py'),('direction',TR+': relationship_is_left_to_right')],['database delta of each rendering'])
p('C12','Each clause of a query acts only on its own text',
 'In a query made of several statements, MAKE creates what the MAKE statements say and nothing for nodes mentioned in FIND or REPORT, and text inside labels, names, handles or property values is never taken for a clause. A query holding more than one FIND, more than one REPORT, a REPORT without a FIND, or no usable clause at all is rejected; a query consisting only of MAKE statements is accepted.',
 ['inputs'],'every ordering and line layout of MAKE, FIND and REPORT statements, with labels/handles/values that resemble clause words',
 'Tests extract one clause from a few fixed multi-line texts; single-line queries (all the shell can enter) and clause-like words are not covered.',
 [EX,Q,CL+'regexes/patterns/clause_helpers.py',CL+'regexes/report/report_patterns.py',RP],[('extraction',EX+': extract_all_statements'),('execution rules',Q+': execute_query')],['database delta, exceptions of query()'])
p('C13','REPORT may only name handles that the FIND declares',
 'A query with FIND and REPORT is accepted when every handle mentioned in REPORT (alone, with a property as handle.prop, or as wn(handle)) is declared by the FIND, or when REPORT is *, and rejected when REPORT mentions a handle the FIND does not declare. Handles are compared as whole words and need not all be reported.',
 ['inputs'],'every FIND pattern with any handles on nodes and relationships and every REPORT list over them',
 'One matching and one mismatching single-handle case are tested; prefixes, substrings, subsets and multi-handle lists are not.',
 [RP,'models/wql/parsing/parsed_query.py',Q],[('handle check',RP+': check_find_report_handles')],['query() / parse_report_statement_from_query_string() acceptance'])
p('C14','A FIND pattern is understood exactly as written',
 'The search derived from a FIND has exactly the nodes written (left, middle, right; each with its own handle, label and required properties), each relationship attached to the node it starts from with its name, handle and properties, and the exact set of labels and names needed. Criteria given for a handle are merged into that element and no other, as properties that must or must not match.',
 ['inputs'],'every one- to three-node FIND pattern with either relationship direction, any handles and properties, with and without criteria',
 'Only the criteria merge on a hand-built node is tested; the pattern transform has no test.',
 [FP,CL+'find/parse_find/parse_find_statement.py','models/wql/clauses/find/find_pre.py'],[('transform',FP+': process_parsed_find'),('criteria merge',FP+': add_criteria_yes_no_props')],['FindPre returned by process_parsed_find()'])
p('C15','Creating a database yields an empty usable one and never clobbers',
 'Creating a database under a new name makes an empty database with empty indexes and wiggle number 0 that accepts queries at once and can be looked up again under that name. Creating one under a name that is in use (in whole or in any of its files) is refused and leaves every existing file unchanged, whatever other databases exist.',
 ['histories','inputs','configurations'],'every history of create, delete, list and query operations over sets of names (blanks, dots, unicode, shared prefixes)',
 'Each creator is tested once with one name in an otherwise empty folder, with no data in the database being protected.',
 [SG,SD,SI,SW],[('existence checks',SD+': create_new_database'),('creation',SG+': get_new_gdbms_file_paths')],['files under the database folder after each operation'])
p('C16','Database names cannot reach outside the database folder',
 'Whatever name is given, creating, opening or deleting a database only ever creates, changes or removes files inside that database\'s own folder directly under the database folder. Names that would refer to anywhere else (empty, ".", "..", containing a path separator, absolute paths) are refused without touching the file system.',
 ['inputs'],'every name string given to create or delete, at the functions and at the shell prompt',
 'Tests use plain alphanumeric names only.',
 [SG,SD,SI,SW],[('path construction',SD+', '+SI+', '+SW+': create_new_*'),('deletion',SG+': delete_gdbms')],['every write/remove/mkdir the process attempts (audit trace)'])
p('C17','Deleting a database removes exactly that database',
 'Deleting an existing database removes its folder and files completely and touches no file of any other database, whatever characters the names contain. Deleting a name that does not exist is refused and changes nothing, and a deleted name can be created again as an empty database.',
 ['histories','inputs'],'every set of databases (names sharing prefixes, with glob characters, blanks, dots, unicode) and every deletion order',
 'Deletion is only used as test cleanup, with plain names and nothing to compare against.',
 [SG],[('deletion',SG+': delete_gdbms')],['directory tree before/after'])
p('C18','Listing and selecting databases is complete and correct',
 'Listing shows every database in the folder exactly once in alphabetical order and nothing else, and shows none when there are none (or the folder does not exist yet); only the reserved folder names tests and __pycache__ are left out when the choices are displayed. Choosing a listed letter opens exactly that database\'s own three files; unknown letters or databases with missing files are not opened, and the user is asked again.',
 ['inputs','histories','configurations'],'every set of database folders (including stray files, incomplete databases) and every sequence of user choices',
 'One listing of two folders is tested; selection by the user is untested (marked todo).',
 [SG,SD,SI,SW],[('listing',SG+': list_existing_dbms, get_and_display_available_dbms'),('selection',SG+': get_existing_gdbms')],['returned paths, scripted prompts'])
p('C19','Databases are isolated from each other',
 'Queries against one database never change another database\'s data, indexes or wiggle number, and their outcome does not depend on the other\'s contents, however the queries on several databases are interleaved within one session.',
 ['histories'],'every interleaving of query histories over several databases in one process',
 'No test uses two databases.',
 [MK,Q,DB,IH,NR,WN,'models/wigish/dbms.py'],[('all paths come from the selected database',"models/wigish/dbms.py: GDBMSFilePath")],['all files of all databases after each query; paths opened'])
p('C20','A crash during a query never damages the database',
 'If the process dies at any moment while a query runs, then afterwards the database file is readable and holds everything stored before plus either all or none of the nodes of the interrupted query, and the wiggle number exceeds every stored number. The indexes are readable and cover at least everything stored, and further queries work normally without reusing a number.',
 ['crash_points','histories'],'every file-system operation of a MAKE at which the process may be killed, including part-way through a write, on small and large databases',
 'The tests never interrupt anything.',
 [DB,IH,NR,WN,MK],[('order of writes',MK+': make'),('file replacement',DB+', '+IH+', '+NR+', '+WN)],['files after _exit at each intercepted system call'],None,'none in /repo: a preloaded C shim counts and cuts file-system calls')
p('C21','A MAKE is acknowledged only if stored, even when writing fails',
 'If reading or writing files fails during a query (disk full, I/O error, short write), the query reports success only if everything it describes is stored. If it reports an error, the database holds all or none of its nodes, earlier data is intact, all files remain readable, and once the fault is gone further queries in the same session succeed without reusing a number.',
 ['fault_sequences','histories'],'every single file-system operation of a MAKE failing with ENOSPC/EIO, or writing short, once',
 'The tests never make a write fail.',
 [DB,IH,NR,WN,MK],[('error propagation and order of writes',MK+': make')],['query() outcome and files after an injected errno'],None,'none in /repo: preloaded C shim')
p('C22','The shell executes every line and survives every error',
 'In the interactive shell every line entered until "q" is executed as a query against the selected database with the same effect as running it directly, and a line that is rejected produces its error message and leads to the next prompt. No query text ends the session, is skipped, or affects how later lines are executed, and the shell ends only on "q". That includes lines with bytes that cannot be decoded and, whatever the encoding of the terminal, characters that cannot be shown.',
 ['histories','inputs'],'every sequence of well-formed, malformed and hostile lines after creating or selecting any database',
 'The shell loop has no test.',
 ['wiggle_shell/wiggleshell.py',Q,SG],[('loop',"wiggle_shell/wiggleshell.py: start_wiggle_shell")],['prompts consumed, printed output, files after the session'])
p('C23','Adding items to the database is all-or-nothing and refuses duplicates',
 'Adding a batch of records to a database either adds every record unchanged or, if any of their numbers is already present or any record cannot be stored, raises an error and leaves the file readable with its earlier contents unchanged. Loading returns exactly what was added, and wiping requires explicit confirmation and otherwise changes nothing.',
 ['inputs','histories'],'every sequence of batches with overlapping keys, any sizes (growing and shrinking), unstorable records at any place, and confirmed/unconfirmed wipes',
 'One batch of three and one full duplicate are tested; partial overlap, contents after refusal and wipe flags are not.',
 [DB],[('duplicate check and write',DB+': add_item_to_database'),('wipe guard',DB+': wipe_database')],['load_database() and file contents'])
p('C24','The three indexes behave as independent growing sets',
 'Adding to an index makes its contents the union of what was there and what was added, whatever the order, repetition, overlap or emptiness of the additions, and never affects the other two indexes. Wiping an index requires explicit confirmation, empties exactly that index and leaves the others unchanged; the index file stays readable throughout.',
 ['histories','inputs'],'every sequence of additions (including empty ones) and confirmed/unconfirmed wipes over the three indexes in one file',
 'Each index gets two fixed disjoint additions in isolation; emptiness, overlap by content, and the other indexes in the file are not looked at.',
 [IH,NR,W+'graph/database/indexes/node_labels_index.py',W+'graph/database/indexes/relationship_names_index.py'],[('union',IH),('union per node',NR)],['load_*_index() and index file'])
p('C25','Creation times record when an element was created',
 'The creation time stored with each new node and relationship lies between the start and the end of the query that created it, however long the session has been running, and its update time is empty.',
 ['histories'],'every MAKE at any time within a session',
 'No test looks at creation times, let alone of two queries at different times.',
 ['models/wql/data/wiggle_metadata.py',MK],[('default time','models/wql/data/wiggle_metadata.py: WiggleGraphMetalData')],['created_at/updated_at in the database file'])
p('C26','The stored graph is always referentially intact',
 'In every database reachable through queries, each record is filed under its own number, each relationship is stored only on the node it starts from, and both of its endpoints are nodes of the same database and different from each other. Building a node with a relationship that does not touch it, or a relationship from a node to itself, is refused.',
 ['histories','inputs'],'every history of well-formed, damaged and rejected queries; every choice of endpoint numbers in the data model',
 'The two model checks are tested on one accepted and one refused case; no stored graph is ever examined.',
 ['models/wql/data/node.py','models/wql/data/relationship.py',MP,MK],[('model validators','models/wql/data/node.py, models/wql/data/relationship.py'),('endpoint assignment',MP)],['database file after every query; model constructors'])
p('C27','Results do not depend on sessions: state lives only in the files',
 'Running a history of queries in one session, or split over any number of separate processes, or after moving the database files elsewhere between them, gives the same stored graph, indexes, numbers and query outcomes.',
 ['histories','configurations'],'every history and every way to split it into processes or relocate the files',
 'All tests run in one process, and none runs a history.',
 [MK,MP,DB,IH,NR,WN,'models/wql/clauses/make/make_pre.py','models/wql/clauses/find/find_pre.py'],[('no module-level state; models with fresh defaults','models/wql/clauses/make/make_pre.py, models/wql/clauses/find/find_pre.py')],['files after each way of running'])
p('C28','No short query text can hang the system',
 'Every query text of up to 300 characters is accepted or rejected using only a small, bounded amount of work: in no case more than 10 seconds of processor time, which is hundreds of times what any such text needs. So no line typed into the shell can make it hang.',
 ['inputs'],'every query text of up to 300 characters, in particular long runs of one character class, repeated separators and unterminated structures',
 'Tests use short well-behaved texts; super-linear matching only shows on inputs built for it.',
 [PH,PR,CL+'regexes/patterns/relationships.py',EX],[('regular expressions without nested repetition',PH)],['processor time of query()'])
p('C29','Queries touch only their own files and leave nothing behind',
 "A query creates, changes or removes nothing but the three files of the database it is given: after it returns or raises, there is no other file, and no change to strangers' files in the same folder, to permissions or to links. The process that ran it is as before: no open files, threads, changed working directory, environment or other settings are left behind, also when reading or writing failed on the way.",
 ['inputs','histories','configurations','fault_sequences'],"every query of any kind against databases with any other files in their folder, any permissions, linked files, and with files that cannot grow or be opened at that moment",
 'No test looks at the folder or the process after a query, let alone after one that failed half way.',
 [DB,WN,IH,MK,Q],[('replacement files',DB+', '+WN+', '+IH)],['folder tree, audited file operations and process state before/after each query'])
p('C30','A damaged or missing file is never overwritten by a query',
 'If the database, index or wiggle-number file is missing, empty, cut off or otherwise unreadable, every MAKE against it is refused, the damaged file is left exactly as it is and stored nodes in the other files are neither changed nor lost. Once the file is put back, everything is as before and the next MAKE works without reusing a number.',
 ['inputs','histories','crash_points'],'every way of damaging any one of the three files (missing, empty, cut off anywhere, not text, not JSON, JSON of another kind, one of the three indexes missing or no index), followed by any queries, in the same or a new session',
 'The tests only ever use intact files.',
 [DB,IH,NR,WN,MK],[('reading before writing',DB+', '+IH+', '+NR+', '+WN)],['file bytes before/after each query; query() outcome'])
p('C31','Queries of any size are handled exactly and in reasonable time',
 'A well-formed query of any size - many patterns, statements, properties, list elements, labels, or long strings, names, numbers or blanks - is accepted and stored exactly as written, with complete indexes and numbers, and its parts can be found, just as for a small one. It takes no more than 30 seconds of processor time for sizes up to about two thousand parts or 65,000 characters.',
 ['inputs','histories'],'every well-formed query up to about 2,000 patterns, statements or properties, 8,000 list elements, characters of a name or blanks, and strings of 65,000 characters',
 'The largest text in the tests has a handful of patterns.',
 [PH,EX,PM,PP,MP,MK,DB],[('splitting',EX),('patterns',PM),('properties',PP)],['stored delta, indexes, numbers and processor time of query()'])
p('C32','The error of a refused query names the rule it breaks',
 'A query whose only flaw is a documented offence is refused with the error made for that offence, wherever the offence stands and whatever else the query holds: IllegalCharacterError (naming the character), NonDirectedRelationshipError, RelationshipNameSyntaxError (giving the name as written), ClauseSyntaxError for a misspelled clause word (naming the clause meant), ParamSyntaxError for a missing comma or colon, WiggleGraphIllegalPropertyValue for a wrongly capitalised value (naming it) or a missing one (naming the property), MakeDuplicateHandlesError (naming the handle), MultipleClauseStatementsError for more than one FIND or REPORT (naming the clause), FindReportHandleMissmatch (naming the handle), and for a missing or surplus bracket one of these or another error of the language (a WiggleGraphBaseException). Likewise adding a record under a number that is taken raises NodeExistsError naming it, and endpoints that do not fit raise RelationshipToFromError or NodeHasUnrelatedRelationship. No refusal of any text is without a message.',
 ['inputs','histories'],'every well-formed query of any clauses and size with one offence of any kind at any place, in any history',
 'The tests raise each error from one or two hand-written statements passed directly to one checking function; whether another check, or an internal error, comes first for other texts is never seen.',
 [CK,PP,EX,'models/wql/parsing/parsed_query.py',RP,DB,'models/wql/data/node.py','models/wql/data/relationship.py','exceptions/wql/parsing.py'],[('statement checks',CK+': validate_statement'),('property values',PP),('clause words',EX)],['exception and message of query()'])
p('C33','The parsed form of a query says exactly what was written',
 'parse_query_string turns a well-formed query into a form that holds every MAKE statement in order, the FIND and the REPORT if there are any and nothing for clauses that are absent, each with its own text. In every pattern each node and relationship is present in order with its own text, handle, label or name and properties, the numbers of nodes and relationships are right, and the set of handles is exactly those written. Parsing alone touches no file.',
 ['inputs'],'every well-formed query of any number of statements and patterns, in any layout, with any handles',
 'Tests compare the parsed form of a dozen texts; handles of MAKE and the order of statements show nowhere else.',
 [PM,FP,RP,PH,'models/wql/parsing/parsed_query.py',Q],[('patterns to fields',PH),('parsed models','models/wql/parsing/parsed_query.py')],['result of parse_query_string()'])
p('C34','Other processes see whole states while a query runs',
 'At every moment of a MAKE, anyone else who reads the files finds the database, index and number files complete: the database with everything stored before and either none or all of the nodes of the MAKE, the indexes covering at least the database, and a next number beyond every stored one. A FIND that runs in another process at the same time as a MAKE does not fail; it finds what was stored before it started and finds nothing for labels and names that are never stored; and it does not disturb the MAKE, which succeeds and is stored exactly.',
 ['schedules','histories'],'every interleaving of one MAKE (or a sequence of them) with any number of FINDs and loads by other processes, at the level of file-system calls',
 'The tests run one thing at a time.',
 [IH,DB,NR,WN,MK,SC],[('file replacement and order of writes',MK+': make, add_indexes'),('reading',SC+', '+IH+': load_index_set_by_name')],['files and outcomes of other sessions while a query is held at a file-system call'],None,'none in /repo: a preloaded C shim holds the process')
p('C35','A query broken off by an exception leaves nothing half done',
 'If a query is broken off at any point by Ctrl-C (KeyboardInterrupt), lack of memory or the recursion limit, the database holds everything stored before plus either all or none of its nodes (all, if it reports success), all three files are readable, the indexes cover what is stored, and the same session carries on: the next MAKE stores exactly what it describes under new numbers, and is found.',
 ['fault_sequences','histories'],'every step of every query at which such an exception may be raised, once or twice, in a fresh or used session',
 'The tests never break anything off.',
 [MK,DB,IH,NR,WN,Q],[('order of writes',MK+': make'),('file replacement',DB+', '+IH+', '+NR+', '+WN)],['files, outcome and follow-up queries after an injected exception'],None,'none in /repo: sys.settrace')
p('C36','A creation or deletion cut short harms nothing else and can be made good',
 'If the process ends, or a file-system call fails, at any moment while a database is being created or deleted, no other database and no other file changes or appears, files that were there before are never changed by a creation (nor removed), nor changed by a deletion that did not get to them, and the other databases can be listed, opened and searched as before. Reported success means complete: a created database has its three files and is empty and usable, a deleted one is gone. Afterwards, in the same session or a new one, the name can be had again: by creating it, or by deleting what is there and creating it, and what comes of that is an empty, usable database with nothing of the old one in it.',
 ['crash_points','fault_sequences','inputs'],'every file-system call of every creation (directly or through the dialog; of new names, names in use, and over parts of a database) and deletion, cut short before, after or within the call or made to fail, for any name and any other databases',
 'The tests create and delete with nothing going wrong.',
 [SG,SD,SI,SW],[('creation',SG+': get_new_gdbms_file_paths, create_new_dbms'),('deletion',SG+': delete_gdbms')],['folder tree, outcome and follow-up operations after a fault or crash in a creation or deletion'],None,'none in /repo: a preloaded C shim')
p('C37','Each storage operation is all or nothing',
 'Adding records to the database, adding to an index, wiping either, and setting the next number each change their file in one piece: if the process ends or any file-system call fails on the way, the file is complete and holds either exactly what it held before or exactly what the finished operation leaves, and exactly the latter if success was reported; no other file changes. Doing the same again afterwards succeeds and leaves the intended content (records that are stored by then may be refused as already there).',
 ['crash_points','fault_sequences','inputs'],'every file-system call of every storage operation on any contents, cut short before, after or within the call or made to fail',
 'The tests wipe and add with nothing going wrong.',
 [DB,IH,NR,WN],[('file replacement',DB+', '+IH+', '+NR+', '+WN)],['file contents and outcome of the storage functions after a fault or crash'],None,'none in /repo: a preloaded C shim')
p('C38','A failed reading is reported, never answered',
 'If a file cannot be read at that moment (any file-system call of the reading fails), loading the database, an index or the next number, or running a FIND, raises an error or gives exactly the right answer: never an empty or partial result, never "No results" for what is stored. Reading changes no file, and the next reading in the same session is right again.',
 ['fault_sequences','inputs'],'every file-system call of every load function and FIND on any database, failing at any time in a session',
 'The tests only read files that can be read.',
 [DB,IH,NR,WN,SC,Q],[('loading',DB+': load_database, '+IH+': load_index_set_by_name, '+NR+', '+WN),('answer of FIND',SC)],['results of load functions and FIND while a file-system call fails'],None,'none in /repo: a preloaded C shim')
p('C39','Everything holds on databases of any size',
 'A database may grow without limit: with tens of thousands of nodes, labels and names, and under numbers of any size, every well-formed MAKE is accepted and stored exactly, with all nodes stored before kept, indexes complete and numbers new; a FIND says "No results" exactly when a label or name is absent, for the oldest as for the newest; ill-formed queries are refused without a change; loading gives all that is stored, and a number in use cannot be used again. Up to 30,000 nodes no query takes more than 10 seconds of processor time.',
 ['histories','configurations'],'databases of up to 80,000 nodes, with any number of labels and names and any next number, and every query on them',
 'The databases of the tests hold a handful of nodes.',
 [DB,IH,NR,WN,MK,SC],[('adding to what is there',DB+': add_item_to_database, '+IH+': add_items_set_to_index_by_name'),('looking up',SC)],['stored delta, indexes, numbers, answers and processor time of queries on large databases'])
p('C40','A session may be of any length',
 'The thousandth query of a session, and any later one, does what it would do as the first: same outcome, message and effect, also when databases are created and deleted in between, and databases that were used earlier stay as they are. The shell goes on, line by line, until q or its end, however many lines it has refused. A session does not use more and more memory, open files or threads with the queries it has run.',
 ['histories'],'sessions and shell sessions of any number of queries of all kinds, accepted and rejected',
 'No test runs more than a few queries in one process.',
 [Q,MK,'wiggle_shell/wiggleshell.py',EX],[('no state between queries',Q+': query'),('loop of the shell','wiggle_shell/wiggleshell.py: start_wiggle_shell')],['outcome and effect of late queries against a fresh session; memory, descriptors and threads of the process'])
p('C41','Work on different databases at the same time does not interfere',
 'Several processes, or several threads of one process, that each create, query, list and delete databases of their own in one folder at the same time have the same outcomes and leave the same contents as each of them alone, at whatever moments they interrupt each other; databases that nobody uses stay as they are and are listed throughout, and nothing else is left in the folder.',
 ['schedules','histories'],'every interleaving of creations, queries, listings and deletions by any number of processes or threads on different databases',
 'The tests run one thing at a time, on one database.',
 [MK,DB,IH,NR,WN,SG,SD,SI,SW],[('no state shared between databases',MK+', '+MP),('listing and deleting',SG)],['outcomes and contents of concurrent histories against the same histories alone'],None,'none in /repo: a preloaded C shim holds a process; the switch interval of threads is set in the harness')
p('C42','Stored records read back as the same nodes and relationships',
 'Every record that queries store, and every record of that form with other properties or another order of its relationships, can be loaded and built into a Node, which has the number, label, properties (same values, same types) and relationships (same order, numbers, names, endpoints, properties) of the record, lists the names of its relationships in order, and writes out again - once, twice, or into another database through export_node - as exactly the record it was built from.',
 ['inputs','histories'],'every record stored by any history of queries, and variations of it in properties and order',
 'Tests build nodes by hand from a few values; none reads a stored record back.',
 ['models/wql/data/node.py','models/wql/data/relationship.py','models/wql/data/wiggle_metadata.py',DB],[('models','models/wql/data/node.py: export_node, node_relationship_names'),('stored form',MK+': add_nodes_to_graph')],['fields and exported form of nodes built from loaded records'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import subprocess
