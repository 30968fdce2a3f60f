// Check the types of TypeScript programs: [{files, dom}] on standard input, [[diagnostics]] on standard output.
'use strict';
const fs = require('fs'), path = require('path');
const BASE = '/opt/veriftools/node/node_modules';
const ts = require(path.join(BASE, 'typescript'));
const types = ['better-sqlite3', 'bcrypt', 'validator'].map(n => path.join(__dirname, 'types', n + '.d.ts'));
const shared = new Map(), last = {};
function check(job) {
    const options = {strict: true, noImplicitAny: true, alwaysStrict: true, noEmit: true, esModuleInterop: true, skipLibCheck: true,
        skipDefaultLibCheck: true, target: ts.ScriptTarget[job.target || 'ES2021'], module: ts.ModuleKind.ES2015, moduleResolution: ts.ModuleResolutionKind.Node10,
        lib: job.dom ? ['lib.es2021.d.ts', 'lib.dom.d.ts', 'lib.dom.iterable.d.ts'] : ['lib.es2021.d.ts'], typeRoots: [path.join(BASE, '@types')],
        types: job.dom ? [] : ['node']};
    const host = ts.createCompilerHost(options), get = host.getSourceFile.bind(host);
    host.getSourceFile = (name, v, ...more) => {
        if (job.files.includes(name)) return get(name, v, ...more);
        if (!shared.has(name)) shared.set(name, get(name, v, ...more));
        return shared.get(name);
    };
    const files = job.files.concat(job.dom ? [] : types);
    const p = ts.createProgram(files, options, host, last[!!job.dom]);
    last[!!job.dom] = p;
    const out = [...p.getOptionsDiagnostics(), ...p.getGlobalDiagnostics()];
    for (const f of job.files.map(n => p.getSourceFile(n))) out.push(...p.getSyntacticDiagnostics(f), ...p.getSemanticDiagnostics(f));
    return out.map(d => {
        const t = ts.flattenDiagnosticMessageText(d.messageText, ' ');
        if (!d.file) return ['', 0, 'TS' + d.code, t];
        const at = d.file.getLineAndCharacterOfPosition(d.start).line;
        return [path.basename(d.file.fileName), at + 1, 'TS' + d.code, t, d.file.text.split('\n')[at].trim().slice(0, 200)];
    });
}
process.stdout.write(JSON.stringify(JSON.parse(fs.readFileSync(0, 'utf8')).map(check)));
