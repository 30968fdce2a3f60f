"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = ('TLA+ specification OrtRuntime checked with TLC; trace validation: seeded executions of '
      'generated C (ASan/UBSan) and Node.js code, and all executions of the small worlds that TLC '
      'explores (OrtRolesMC, OrtTypesMC, OrtTransMC), are checked event by event against it')
RTN = ('Every event of the recorded executions was allowed by the specification, on the '
       'configurations, contents and arguments generated from the seed. Trusts the stand-ins for '
       'sqlbox, kcgi, bcrypt and better-sqlite3 (thin layers over SQLite), and SQLite itself.')
T = {
    'C01': (RT, 'model_checking', RTN),
    'C02': (RT, 'model_checking', RTN),
    'C03': (RT, 'model_checking', RTN),
    'C04': (RT, 'model_checking', RTN),
    'C05': (RT, 'model_checking', RTN),
    'C06': (RT, 'model_checking', RTN),
    'C07': (RT, 'model_checking', RTN),
    'C08': ('TLA+ specification OrtSchema (over OrtConfig) checked with TLC: the catalogue SQLite '
            'reports for the schema printed by ort-sql must be the one the specification derives, '
            'and every seeded write on it must have the specified outcome',
            'model_checking',
            'Held on the configurations and write histories generated from the seed, and on every '
            'SQLite keyword as a structure or field name. Trusts SQLite.'),
    'C09': ('TLA+ specification OrtEvolve (over OrtForm, OrtCatalogue, OrtDiff) checked with TLC: '
            'all migrations between the variants of a configuration are explored; trace validation '
            'of seeded chains of migrations run with ort-sqldiff on a filled database',
            'model_checking',
            'Held on the chains of migrations generated from the seed and on the pairs of variants '
            'run. Trusts SQLite.'),
    'C10': ('TLA+ specification OrtDiff (over OrtForm) checked with TLC: the report of ort-diff for '
            'a pair of configurations must be the one the specification derives, on seeded edits, '
            'respellings and the variants of OrtEvolveMC',
            'model_checking',
            'Held on the pairs of configurations generated from the seed.'),
    'C11': ('TLA+ specification OrtText (over OrtForm) checked with TLC: what ort writes for a '
            'seeded document must declare the same and be a fixed point',
            'model_checking',
            'Held on the documents generated from the seed, in several spellings and file layouts.'),
    'C12': ('TLA+ specification OrtWellFormed (over OrtForm, and OrtSyntax, a pushdown automaton of '
            'the language) checked with TLC: the verdict of every tool on seeded, mutated and '
            'tabulated documents must be the one the specification derives from the tokens and '
            'statements, with the documented manner of refusal; tools built with ASan',
            'model_checking',
            'Held on the documents generated from the seed; each rule of the specification was also '
            'violated alone (counts in the evidence). Token sequences and statements are made by a '
            'reader of our own. Damaged bytes are judged only for an orderly answer.'),
    'C13': ('TLA+ specification OrtNames (over OrtForm) checked with TLC: constants, layouts, '
            'function signatures and roles read from the outputs of ort, ort-json, ort-c-header, '
            'ort-nodejs, ort-javascript and ort-rust must be those the specification derives',
            'model_checking',
            'Held on the configurations generated from the seed. C constants are those a compiled '
            'program sees; the others are read from the syntax tree (TypeScript) or text (Rust).'),
    'C15': ('TLA+ specification OrtAudit (over OrtForm) checked with TLC: the reports of ort-audit, '
            'ort-audit -v, ort-audit-json and ort-audit-json -s for every kind of role must be those '
            'the specification derives; OrtRuntimeTrace for what generated code permits and exports '
            'by the same operators', 'model_checking',
            'Held on the documents generated from the seed.'),
    'C14': ('TLA+ specification OrtValid (over OrtForm, OrtValues) checked with TLC: all fields and '
            'all input of a small world explored, and all of it given to the generated validators '
            'of both languages; seeded documents with input around limits and type bounds likewise; '
            'every answer must be a step of the specification',
            'model_checking',
            'Exhaustive for the small world; else held on the input generated from the seed. kcgi(3) '
            'and the validator package are stand-ins.'),
    'C16': ('TLA+ specification OrtTranslate (over OrtForm) checked with TLC: all configurations, '
            'files and steps of a small world explored, and each step taken with ort-xliff; seeded '
            'chains of extraction, translation, edits, update and join with ort-xliff must be '
            'behaviours of the specification; tools built with ASan, output against the schema',
            'model_checking',
            'Exhaustive for the small world; else held on the chains generated from the seed.'),
    'C17': ('TLA+ specification OrtFill (over OrtForm) checked with TLC: what every call does to a page; all calls of '
            'a small world explored and made of generated browser code (all pairs of them, if thorough), and random '
            'objects, pages and calls on seeded documents: page and callbacks must be those of the specification',
            'model_checking',
            'Exhaustive for the small world; else held on the pages generated from the seed. The DOM is a stand-in '
            '(harness/dom.js). Two sources of the text of one element, and lists in lists, are not generated.'),
    'C18': ('TLA+ specification OrtText (over OrtForm) checked with TLC: ort-json and ort-json.ts '
            'run on seeded documents must state the same configuration and the derived facts',
            'model_checking',
            'Held on the documents generated from the seed. ort-json.ts is transpiled and run.'),
    'C19': ('TLA+ specification OrtImport (over OrtDecimal, OrtValues) checked with TLC: the '
            'generated JSON parser, compiled with sanitizers, must read every document as the '
            'specification reads it; all states of OrtImportMC (small documents, mutated at every '
            'place) are run on the real parser, and random documents and exports are judged',
            'model_checking',
            'Exhaustive for the small world; else held on the documents generated from the seed. '
            'Malformed documents need only not crash the parser.'),
    'C20': ('TLA+ specification OrtSpread (over OrtNames, OrtForm, OrtSchema) checked with TLC: a '
            'configuration may change its layout at any time, and what every tool says of it must '
            'be what it says of the first layout; OrtReadTrace for the verdict on rearranged '
            'documents, OrtRuntime for generated code from several files', 'model_checking',
            'Held on the configurations and layouts generated from the seed.'),
    'C21': ('TLA+ specification OrtProgram (over OrtNames, OrtConfig) checked with TLC: units are '
            'compiled, linked, given to the database and the type checker, and what compiler, '
            'linker, SQLite and TypeScript say of it is judged against the specification (what a '
            'unit provides, the shape of every statement); all configurations and ways of making '
            'programs of OrtProgramMC, and random ones', 'model_checking',
            'Exhaustive for the small world; else held on the configurations and partitions '
            'generated from the seed. Names that clash are listed findings. Rust is experimental '
            'and not compiled.'),
}
NA = {}
m = dict(version=1, setup_cmd='python3 lib/setup.py',
         hooks=dict(guard='none', enable='No hooks: the checks build the unmodified sources.',
                    source_commits=[]),
         checks=[dict(property=p, quick_cmd='VERIF_TIER=quick python3 checks/%s.py' % p,
                      thorough_cmd='VERIF_TIER=thorough python3 checks/%s.py' % p,
                      technique=t, level=l, level_note=n) for p, (t, l, n) in sorted(T.items())],
         not_applicable=[])
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p not in T:
        m['not_applicable'].append(dict(property=p, reason=NA.get(
            p, 'Not claimed yet: the machinery for it is being built.')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
