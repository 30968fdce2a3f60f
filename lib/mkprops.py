#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the long strings stay readable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p('C01', 'A data operation runs only for a role that was granted it',
  'When a configuration has a roles block, the generated C and Node.js data functions (insert, each query, each update and each delete) complete only if the current role, or one of its ancestors in the role tree, was granted that operation by name or through "all"; an operation granted to nobody is denied to every role. A denied call aborts and changes nothing in the database; a granted call always proceeds. Without a roles block no call is ever denied.',
  ['configurations', 'histories'], 'every role tree, every assignment of operations to roles, every current role, every operation',
  'The suite only compares parser output and type-checks generated TypeScript; no test ever executes generated C or Node.js code, so neither denial nor permission is observed for any role.',
  ['lang-nodejs.c', 'lang-c-source.c', 'parser_roles.c', 'parser_struct.c', 'linker.c', 'linker_resolve.c'],
  [('gen_rolemap / gen_role', 'lang-nodejs.c'), ('gen_func_rolecases, gen_rolemap in open', 'lang-c-source.c'), ('rolemap merging of "all"', 'linker_resolve.c')],
  ['return or abort of each generated function', 'database content after the call'],
  [('role', 'current role of a connection', 'ortctx.#role / struct ort.role')])
p('C02', 'Roles can only be dropped along the documented transitions',
  'A new connection starts in role "default". A role change succeeds exactly when the new role equals the current one, or the current role is "default", or the new role is "none", or the new role is an ancestor (a declared role strictly above, never "all" or "default") of the current one; every other change aborts and leaves the role as it was. The current role reported afterwards is the role last successfully set.',
  ['configurations', 'histories'], 'every role tree and every sequence of role changes, in generated C and Node.js',
  'No test executes the role-changing functions; the accepted transitions for a given tree are a property of every path through it.',
  ['lang-nodejs.c', 'lang-c-source.c'],
  [('gen_ortctx_dbrole, gen_ortctx_dbrole_role', 'lang-nodejs.c'), ('gen_func_role_transitions / gen_func_rolecases', 'lang-c-source.c')],
  ['db_role, db_role_current'], [('role', 'current role of a connection', 'ortctx.#role / struct ort.role')])
p('C03', 'JSON export shows exactly the fields the role may see',
  'Exporting an object obtained from a query as JSON contains, recursively through nested objects, every field except passwords, fields marked noexport for everybody, and fields marked noexport for a role that is the role (or an ancestor of the role) under which the object was obtained. Every exported field carries the stored value (null as null) and nothing else is added. A later change of the connection role does not alter the export of objects obtained before it.',
  ['configurations', 'histories', 'inputs'], 'every configuration with noexport marks and roles, every role at acquisition, every stored value',
  'Tests compare generated text with golden files at most; no object is ever exported under any role.',
  ['lang-nodejs.c', 'lang-c-source.c', 'linker_resolve.c', 'parser_field.c'],
  [('gen_exports / noexport switch', 'lang-nodejs.c'), ('json_*_data, gen_json_out', 'lang-c-source.c'), ('resolve_struct_rolemap_field', 'linker_resolve.c')],
  ['export() result in Node.js', 'json_*_obj output in C'])
p('C04', 'Queries return exactly the rows their constraints select',
  'For every database content and every argument, a generated search, list, iterate or count (C and Node.js) returns exactly the rows that satisfy all of its constraints (comparisons with a null operand or a null column never hold; isnull/notnull test presence; like is SQL LIKE; and/or test shared/any bits), including constraints on fields reached through references. Order, limit, offset, distinct and grouping are honoured; a search yields at most one object and count yields the number of selected rows. Every returned object carries the stored field values, the referenced objects, and the objects behind non-null nullable references.',
  ['inputs', 'histories', 'configurations'], 'every accepted query declaration, database content and argument values',
  'The suite checks the text of some generated SQL; it never runs a query against data, let alone all null/reference/ordering combinations.',
  ['lang.c', 'lang-nodejs.c', 'lang-c-source.c', 'linker_aliases.c', 'linker_resolve.c'],
  [('gen_sql_stmts and join generation', 'lang.c'), ('alias allocation', 'linker_aliases.c'), ('fill / reffind', 'lang-nodejs.c, lang-c-source.c')],
  ['results of generated query functions'])
p('C05', 'Inserts, updates and deletes have exactly their declared effect',
  'A generated insert adds one row carrying exactly the given values (and returns its row identifier); a generated update changes exactly the named columns, by the named modifier (set, inc, dec, concat, strset), of exactly the rows its constraints select; a generated delete removes exactly the rows its constraints select, plus what the declared reference actions prescribe. If a uniqueness, not-null or reference constraint forbids the change, the insert or update reports failure and the database is unchanged. Nothing else in the database ever changes.',
  ['inputs', 'histories', 'configurations'], 'every configuration, database content, operation and argument values, in generated C and Node.js',
  'No test runs any generated write function.',
  ['lang.c', 'lang-nodejs.c', 'lang-c-source.c', 'lang-sql.c'],
  [('gen_sql_stmts insert/update/delete', 'lang.c'), ('gen_insert, gen_update', 'lang-nodejs.c'), ('gen_insert, gen_update', 'lang-c-source.c')],
  ['database content before and after each call', 'return value'])
p('C06', 'Passwords are stored hashed and compared through the hash',
  'A non-null password given to insert or to an update "set" is stored only as a salted hash of itself, never as clear text; only "strset" stores the given bytes as they are. A query constraint eq (neq) on a password selects exactly the rows whose stored hash was made from (not from) the given clear text, and a null stored or given password selects nothing; streq/strneq compare the stored text itself. This holds whatever the position of the password among the other parameters.',
  ['inputs', 'configurations', 'histories'], 'every mix and order of password and other fields, null or not, in inserts, updates and queries of generated C and Node.js code',
  'Password handling lives in generated code that the suite never executes.',
  ['lang-nodejs.c', 'lang-c-source.c', 'lang.c', 'linker.c'],
  [('hashSync / compareSync emission', 'lang-nodejs.c'), ('crypt_newhash / crypt_checkpass emission', 'lang-c-source.c')],
  ['stored column values', 'query results'])
p('C07', 'Transactions are all-or-nothing',
  'Between opening a transaction (immediate, deferred or exclusive) and its commit or rollback, generated functions behave as outside of it; rollback restores exactly the database content at the opening and commit keeps exactly the effects of the calls made. A transaction left open when the connection is closed or lost leaves no trace. Other connections see the effects only after commit.',
  ['histories', 'crash_points'], 'every interleaving of writes, transaction calls and connection loss',
  'No test opens a transaction in generated code.',
  ['lang-nodejs.c', 'lang-c-source.c'], [('gen_ortctx_trans / db_trans_*', 'lang-nodejs.c'), ('gen_transaction / db_trans_*', 'lang-c-source.c')],
  ['database content seen by the same and by another connection'])
p('C08', 'The generated SQL schema enforces the configuration',
  'Executing the output of ort-sql on an empty SQLite database succeeds for every accepted configuration and creates exactly one table per struct with exactly its non-struct fields, in order, of the storage type of the field. The tables enforce exactly the declared not-null, unique (single and multiple column), row identifier and reference constraints with their update and delete actions, and nothing else: a write that satisfies them succeeds and a write that does not leaves the database unchanged. Declared default values take no part in the schema.',
  ['configurations'], 'every accepted configuration',
  'Golden-file tests compare a few schema texts; none is loaded into SQLite and probed.',
  ['lang-sql.c', 'lang.c'], [('gen_field, gen_fkeys, gen_uniques, gen_struct', 'lang-sql.c')],
  ['SQLite catalogue (pragma) and behaviour of inserted probe rows'])
p('C09', 'Schema migration reaches the new schema without losing data',
  'For any two accepted configurations, ort-sqldiff either fails (non-zero exit, as documented for changes it cannot make) or prints SQL which, applied to a database of the old schema, gives the tables, columns and constraints of the new schema for everything it added, keeping every row and value of every table and column that exists in both. Without -d it never emits a statement removing data and fails when a removal would be needed; equal configurations give no statements and a zero exit.',
  ['configurations', 'histories'], 'every pair (and chain) of configurations and every content of the old database',
  'Golden tests compare a handful of outputs as text and never apply them to a database.',
  ['lang-sql.c', 'diff.c', 'sqldiff.c'], [('ort_lang_diff_sql, check_* and gen_diff_*', 'lang-sql.c')],
  ['exit status', 'database schema and content before and after the emitted SQL'])
p('C10', 'ort-diff reports exactly the differences between configurations',
  'For any two accepted configurations ort-diff exits 0 and lists no differences if they declare the same things, and exits 1 otherwise, naming exactly and once the added, removed and modified enumerations, bitfields, items, structs, fields, queries, updates, deletes, inserts, uniques and roles. The result does not depend on formatting, on how the declarations are spread over files or on the order of independent declarations, and swapping the arguments swaps added and removed.',
  ['configurations'], 'every pair of accepted configurations',
  'Golden tests sample single-change pairs; soundness and completeness quantify over all pairs of configurations and combinations of changes.',
  ['diff.c', 'writer-diff.c', 'maindiff.c'], [('ort_diff and per-kind comparators', 'diff.c'), ('ort_write_diff_file', 'writer-diff.c')],
  ['exit status and printed differences'])
p('C11', 'Reformatting preserves meaning and is idempotent',
  'For every configuration that ort accepts, its formatted output is accepted again, declares exactly the same roles, enumerations, bitfields, structs, fields (with all attributes, limits, defaults, labels and comments), queries, updates, deletes, inserts, uniques and role grants, and reformatting that output reproduces it byte for byte.',
  ['inputs', 'configurations'], 'every accepted input document',
  'Each golden test fixes one document; round-trip fidelity quantifies over every combination of constructs, literals and escapes.',
  ['writer.c', 'parser.c', 'parser_struct.c', 'parser_field.c', 'parser_enum.c', 'parser_bitfield.c', 'parser_roles.c'],
  [('ort_write_file', 'writer.c'), ('ort_parse_file / ort_parse_close', 'parser.c')], ['output of ort, ort-diff of input and output'])
p('C12', 'Exactly the well-formed configurations are accepted',
  'A configuration is accepted if and only if it satisfies the documented rules (names unique and not reserved, references resolve to a unique or row identifier field of matching type, null/rowid/unique/action/default/limit rules, enumeration and bit item values unique and in range, constraints and orderings naming searchable fields with fitting operators, role names declared and not granted twice, uniques of at least two fields, no duplicate operations). Rejection is a message and exit status 1, never a crash, hang or partial output; whether a document is accepted does not depend on letter case of identifiers.',
  ['inputs'], 'every input document: generated well-formed ones, single-rule violations of them, and truncated or corrupted text',
  'Each rejection test samples one document and passes on any non-zero exit, including a crash; rules interact with every other construct.',
  ['parser.c', 'parser_struct.c', 'parser_field.c', 'parser_enum.c', 'parser_bitfield.c', 'parser_roles.c', 'linker.c', 'linker_resolve.c', 'linker_aliases.c'],
  [('ort_parse_*', 'parser*.c'), ('ort_parse_close', 'linker.c')], ['exit status, standard error and standard output of ort'])
p('C13', 'Every back end carries the same declared values and names',
  'For every accepted configuration the enumeration item values, bit item indices and masks, struct fields and their order, and the set of data functions with their parameters are the same in every output that carries them (ort, ort-json, C header, Node.js, JavaScript and Rust). Automatically numbered enumeration items get distinct values, larger than every explicitly given value, in declaration order, and never change an explicit one.',
  ['configurations'], 'every accepted configuration',
  'Golden tests check a few outputs of single back ends in isolation.',
  ['parser_enum.c', 'parser_bitfield.c', 'lang-c-header.c', 'lang-nodejs.c', 'lang-javascript.c', 'lang-json.c', 'lang-rust.c', 'linker.c'],
  [('parse_enum_item auto values', 'parser_enum.c, linker.c'), ('constant emission', 'lang-*.c')], ['constants and signatures in generated code'])
p('C14', 'Input validators accept exactly the permitted values',
  'The generated form validators (C and Node.js) accept an input string for a field if and only if it is a value of the type of the field (64-bit integers, bit indices 0 to 64, dates that exist, enumeration values, real numbers, e-mail addresses, texts, binary data) and satisfies every declared limit, numerics by value, texts and binary data by their number of bytes. Input spelled in an unusual way (surrounding white space, leading zeros and the like) may be refused, but is never taken for another value. An accepted input is handed on as exactly its value. There is a validator for every field that is no structure, under the documented name.',
  ['inputs', 'configurations'], 'every field type, every set of limits and every input string',
  'The suite only type-checks the validators; none is run on any input.',
  ['lang-c-source.c', 'lang-nodejs.c'], [('gen_valid_types', 'lang-c-source.c'), ('gen_ortvalid', 'lang-nodejs.c')], ['result of valid_* / ortValid functions'])
p('C15', 'Audits list exactly what each role can do and see',
  'For a given role, ort-audit and ort-audit-json list exactly the insert, query, update and delete operations that role may perform, and for every struct reachable by that role through the results of those operations exactly which fields are exported to it and which are withheld, and by which access paths they are reached. The two tools agree with each other and with what the generated code enforces.',
  ['configurations'], 'every configuration with roles and every role in it',
  'A few golden audits of ort-audit exist (none of ort-audit-json) and none is compared with enforcement.',
  ['audit.c', 'mainaudit.c', 'audit-json.c'], [('ort_audit, audit_*', 'audit.c'), ('print_*', 'mainaudit.c, audit-json.c')], ['output of ort-audit -r and ort-audit-json'])
p('C16', 'Translations survive extraction, update and joining',
  'ort-xliff extraction lists exactly the distinct default labels of the configuration as translation units of a valid XLIFF 1.2 file; updating a translation file keeps all of its units with their translations and identifiers and adds exactly the labels it lacks; joining translation files gives every label that has none for the target language exactly the translation of its default label (with -c also the default label itself), and leaves everything else unchanged. Labels and translations pass through unchanged whatever characters they contain. A file that is no translation file or lacks translations, and a label that is not translated, are refused with an error and no output.',
  ['inputs', 'configurations', 'histories'], 'every configuration, set of labels, translation file and sequence of extract, update and join',
  'A handful of golden files cover single steps with plain text.',
  ['lang-xliff.c', 'xliff.c', 'writer.c'], [('ort_lang_xliff_extract / update / join', 'lang-xliff.c')], ['output of ort-xliff -x, -u, -j'])
p('C17', 'Browser code fills documents from exported data exactly',
  'The generated browser JavaScript, given an exported object, fills every element carrying the documented class of a field with the value of the field, shows or hides the has/no (null or not) elements accordingly, formats enumeration and bitfield labels in the language of the document (falling back to the default language, then to the empty string), fills nested objects through their own elements, repeats list templates once per object and invokes the callbacks given for a structure or field once per object filled, after filling. Elements of other fields are left alone.',
  ['inputs', 'configurations'], 'every configuration, exported object and document',
  'The suite runs the generated code for a handful of fixed documents if a DOM is available and otherwise only type-checks it.',
  ['lang-javascript.c', 'ortPrivate.ts'], [('gen_obj fill functions', 'lang-javascript.c'), ('fillField and helpers', 'ortPrivate.ts')], ['document after fill'])
p('C18', 'The JSON form of a configuration is complete and faithful',
  'For every accepted configuration ort-json emits valid JSON that states every declaration with all of its attributes exactly once, and the supplied TypeScript formatter turns that JSON back into a configuration equal to the original.',
  ['configurations'], 'every accepted configuration, labels and comments with any characters',
  'A few fixed configurations are compared; escaping, numeric limits and combinations of attributes quantify over all configurations.',
  ['lang-json.c', 'json.c', 'ort-json.ts'], [('ort_lang_json', 'lang-json.c'), ('ortJson formatter', 'ort-json.ts')], ['parsed output of ort-json', 'ort-diff of original and reformatted'])
p('C19', 'C objects survive JSON export and re-import',
  'For every object of a generated C API, parsing its JSON export with the generated JSON parser yields an object equal to it in all exported fields (null or not, nested objects and arrays included). Of any other well-formed JSON document, an array or object is read into the fields named in it, unknown names are refused, and a value that does not suit the type of its field (or is out of its range) is refused. No text, malformed or not, makes the parser crash, read outside its input or leak.',
  ['inputs', 'configurations'], 'every configuration, object content and JSON text',
  'No test compiles or runs the generated JSON parser.',
  ['lang-c-source.c', 'jsmn.c'], [('gen_json_parse, jsmn_*', 'lang-c-source.c'), ('json_*', 'lang-c-source.c')], ['output of jsmn_* and json_* functions'])
p('C20', 'Meaning does not depend on file layout or declaration order',
  'Splitting a configuration into several files in any order, reordering its top-level declarations, or splitting its role assignments changes neither acceptance nor the declared structures, constants, function set, permissions or SQL tables.',
  ['configurations', 'inputs'], 'every accepted configuration, split and permutation',
  'Tests give every configuration in a single file in a single order.',
  ['parser.c', 'linker.c', 'linker_resolve.c'], [('deferred resolution', 'linker_resolve.c'), ('multi-file parsing', 'main.c, parser.c')], ['ort-diff between permutations', 'generated outputs'])
p('C21', 'Generated code is well formed for every accepted configuration',
  'For every accepted configuration and every documented option set, the generated C headers and sources (in one unit or several) compile and link together without errors and define what they declare, every SQL statement that generated C and Node.js code uses prepares against the schema printed by ort-sql and is given as many parameters as it has, and the generated TypeScript for Node.js and browser is free of syntax and type errors.',
  ['configurations'], 'every accepted configuration and option set',
  'The suite type-checks TypeScript output of some fixed configurations and compiles no C.',
  ['lang-c-header.c', 'lang-c-source.c', 'lang-nodejs.c', 'lang-javascript.c', 'lang.c', 'lang-sql.c'],
  [('all generators', 'lang-*.c')], ['compiler, type checker and SQLite diagnostics'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
