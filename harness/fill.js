// Run the browser code on pages: [{path, ops}] on standard input.
'use strict';
const fs = require('fs'), path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const dom = require(path.join(__dirname, 'dom.js'));
const document = new dom.Document();
const names = ['document', 'Node', 'Text', 'Element', 'HTMLElement', 'HTMLInputElement', 'HTMLOptionElement', 'HTMLSelectElement'];
const given = names.map(n => n === 'document' ? document : dom[n]);

function build(j) {
    if (j.t === '#') return new dom.Text(j.x);
    const e = dom.make(j.t);
    for (const [k, v] of j.a) e.setAttribute(k, v);
    if (j.c.length) e.setAttribute('class', j.c.join(' '));
    for (const k of j.k) e.append(build(k));
    return e;
}
function show(n) {
    if (n instanceof dom.Text) return {t: '#', x: n.data};
    return {t: n.localName, c: [...n.classList].sort(), a: [...n.attrs].filter(x => x[0] !== 'class').sort(),
        k: n.childNodes.map(show)};
}
function where(n) {
    const p = [];
    for (; n !== document.body; n = n.parentNode) {
        if (n === null || n.parentNode === null) return [-1];
        p.unshift(n.parentNode.childNodes.indexOf(n) + 1);
    }
    return p;
}
function run(job) {
    let ort;
    try {
        const js = ts.transpileModule(fs.readFileSync(job.path, 'utf8'), {compilerOptions: {target: 'ES2021'}}).outputText;
        ort = new Function(...names, js + '\nreturn ort;')(...given);
    } catch (e) { return {error: String(e.stack)}; }
    document.documentElement.removeAttribute('lang');
    const ids = new WeakMap();
    const data = v => {
        if (v[0] !== 'o') return v[1];
        const o = {};
        for (const [k, x] of v[2]) o[k] = data(x);
        ids.set(o, v[1]);
        return o;
    };
    const repr = v => v === null ? 'null' : typeof v === 'object' ? ids.get(v) || '?' : (typeof v)[0] + ':' + String(v);
    const pick = (r, not) => {
        if (Array.isArray(r)) return r.reduce((e, i) => e.childNodes[i - 1], document.body);
        if (r < 0) return null;
        const all = [document.body].concat(document.body.matching(e => not === null || !not.contains(e)));
        if (not === document.body) return null;
        return all[r % all.length];
    };
    return {res: job.ops.map(op => {
        const calls = [], out = {};
        try {
            if (op.m === 'load') {
                document.body.replaceChildren(...op.page.k.map(build));
                for (const a of [...document.body.attrs.keys()]) document.body.removeAttribute(a);
                if (op.page.c.length) document.body.className = op.page.c.join(' ');
            } else if (op.m === 'lang') {
                if (op.lang === null) document.documentElement.removeAttribute('lang');
                else document.documentElement.lang = op.lang;
            } else if (op.m === 'format') {
                const e = pick(op.p, null);
                out.p = where(e);
                ort[op.h[1]].format(e, op.name, op.v);
            } else {
                const cb = op.cb === null ? op.none : {};
                for (const [key, hs, one] of op.cb || []) {
                    const fs = hs.map((h, i) => h[0] !== 'record' ? ort[h[1]].format : (e, n, v) =>
                        calls.push({key: n === key ? n : '?' + n, j: i + 1, e, v: repr(v), snap: show(e)}));
                    cb[key] = one ? fs[0] : fs;
                }
                const o = op.os.map(data);
                const f = new ort[op.s](op.one ? o[0] : op.os.length === 0 && op.nil ? null : o);
                const e = pick(op.p, null), q = op.q === undefined ? null : pick(op.q, e);
                out.p = e === null ? [0] : where(e);
                out.q = q === null ? [0] : where(q);
                const args = [e].concat(op.m.startsWith('fillArrayOr') ? [q] : [], op.by === undefined ? [] : [op.by],
                    cb === undefined ? [] : [cb]);
                f[op.m](...args);
            }
        } catch (e) { return {error: String(e.stack)}; }
        for (const x of calls) { x.at = where(x.e); delete x.e; }
        out.calls = calls;
        out.page = show(document.body);
        return out;
    })};
}
process.stdout.write(JSON.stringify(JSON.parse(fs.readFileSync(0, 'utf8')).map(run)));
