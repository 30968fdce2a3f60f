// Give input to generated validators: [{js, cases: [[name, input]]}] on standard input.
'use strict';
const fs = require('fs');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const shim = process.argv[2];
const need = n => n === 'fs' || n === 'path' ? require(n) : require(shim + '/node_modules/' + n);
function show(v) {
    if (v === null) return 'R';
    if (typeof v === 'bigint') return 'I' + v;
    if (typeof v === 'number') return 'D' + v;
    if (typeof v === 'string') return 'S' + Buffer.from(v, 'utf8').toString('hex');
    if (Buffer.isBuffer(v)) return 'B' + v.toString('hex');
    return '?' + typeof v;
}
const out = JSON.parse(fs.readFileSync(0, 'utf8')).map(j => {
    let m = {exports: {}};
    try {
        const js = ts.transpileModule(fs.readFileSync(j.path, 'utf8'),
            {compilerOptions: {target: 'ES2022', module: 'commonjs'}}).outputText;
        new Function('module', 'exports', 'require', js)(m, m.exports, need);
    } catch (e) { return {error: String(e.stack)}; }
    const vs = m.exports.ortvalid.ortValids;
    return {names: Object.keys(vs), res: j.cases.map(([n, i]) => {
        try { return show(vs[n](i === null ? undefined : i)); } catch (e) { return '!' + e; }
    }), none: Object.keys(vs).map(n => [vs[n](), vs[n](undefined), vs[n](null)].every(x => x === null))};
});
process.stdout.write(JSON.stringify(out));
