// Call every function of Node.js modules with arguments of the right types and see what statements
// they run: [{ts, fns: [[name, [kind]]]}] in a file, [{calls: [[name, [[sql, arguments]]]]}] or {fail} out.
'use strict';
const fs = require('fs'), path = require('path'), vm = require('vm');
const ts = require('/opt/veriftools/node/node_modules/typescript');
let seen = [];
process.abort = () => {};    // whatever the role
class Statement {
    constructor(sql) { this.rec = [sql, -1]; seen.push(this.rec); }
    raw() { return this; }
    row(a) {
        this.rec[1] = Math.max(this.rec[1], a.flat().length);
        return Array(999).fill(1n);
    }
    get(...a) { return this.row(a); }
    all(...a) { return [this.row(a)]; }
    *iterate(...a) { yield this.row(a); }
    run(...a) { this.row(a); return {changes: 1, lastInsertRowid: 1n}; }
}
class Database {
    defaultSafeIntegers() { return this; }
    prepare(sql) { return new Statement(sql); }
    exec() { return this; }
    pragma() { return []; }
    close() {}
}
const stubs = {
    'better-sqlite3': {default: Database, __esModule: true},
    bcrypt: {default: {hashSync: x => x, compareSync: () => true}, __esModule: true},
    validator: {default: {}, __esModule: true},
};
const value = k => k.startsWith('opt ') ? value(k.slice(4)) : k.startsWith('enum ') ? '1' :
    k === 'int' ? 1n : k === 'real' ? 1.5 : k === 'blob' ? Buffer.from('x') : 'x';
const isopt = k => k.startsWith('opt ');
function run(job) {
    const r = ts.transpileModule(fs.readFileSync(job.ts, 'utf8'), {compilerOptions: {
        module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true}});
    const m = {exports: {}};
    vm.runInThisContext('(function (require, module, exports) {' + r.outputText + '\n})')(n => stubs[n], m, m.exports);
    const out = [];
    for (const [name, kinds] of job.fns)
        for (const some of kinds.some(isopt) ? [true, false] : [true]) {
            const ctx = new m.exports.ortdb('none').connect();
            const args = kinds.map(k => !some && isopt(k) ? null : value(k));
            if (job.each.includes(name)) args.push(() => {});
            seen = [];
            try {
                ctx[name](...args);
            } catch (e) {
                throw new Error(name + ': ' + (e && e.stack || e));
            }
            out.push([name, seen]);
        }
    return {calls: out};
}
process.stdout.write(JSON.stringify(JSON.parse(fs.readFileSync(process.argv[2], 'utf8')).map(j => {
    try { return run(j); } catch (e) { return {fail: String(e && e.stack || e).slice(0, 2000)}; }
})));
