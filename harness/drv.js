'use strict';
// Drives data layers printed by ort-nodejs: runs scripts of operations and
// writes one JSON line per operation.
const fs = require('fs'), path = require('path'), vm = require('vm');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const { DatabaseSync } = require('node:sqlite');
const shim = process.env.VF_SHIMJS;
const Module = require('module');
const jobs = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
const out = fs.openSync(process.argv[3], 'w');
const emit = o => fs.writeSync(out, JSON.stringify(o) + '\n');
class Aborted extends Error {}
process.abort = () => { throw new Aborted('abort'); };

function load(file) {
	const src = fs.readFileSync(file, 'utf8');
	const r = ts.transpileModule(src, { reportDiagnostics: true, compilerOptions: {
		module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ES2022, esModuleInterop: true } });
	const errs = (r.diagnostics || []).map(d => ts.flattenDiagnosticMessageText(d.messageText, ' '));
	if (errs.length) throw new Error('syntax: ' + errs.slice(0, 3).join('; '));
	const m = { exports: {} };
	const req = n => require(path.join(shim, 'node_modules', n));
	vm.runInThisContext('(function (require, module, exports) {' + r.outputText + '\n})',
	    { filename: file })(req, m, m.exports);
	return m.exports;
}
const hex = s => Buffer.from(s, 'utf8').toString('hex');
function tag(v) {
	if (v === null) return 'n';
	switch (typeof v) {
	case 'bigint': return 'i' + v.toString();
	case 'number': return 'r' + (Number.isFinite(v) ? v.toString() : 'nan');
	case 'string': return 't' + hex(v);
	case 'object': if (v instanceof Uint8Array) return 'b' + Buffer.from(v).toString('hex');
	}
	return 'u';
}
function raw(j, s, o) {
	if (o === null || typeof o !== 'object') return 'u';
	const known = j.structs[s].map(f => f[0]);
	const res = j.structs[s].map(([n, t]) => t === '' ? tag(o[n]) :
	    o[n] === null ? 'n' : raw(j, t, o[n]));
	for (const k of Object.keys(o)) if (!known.includes(k)) return 'u';
	return res;
}
function dumpdb(h, tabs) {
	const o = {};
	for (const t of tabs) {
		try {
			const st = h.prepare('SELECT rowid, * FROM "' + t + '" ORDER BY rowid');
			st.setReadBigInts(true); st.setReturnArrays(true);
			o[t] = st.all().map(r => r.map(tag));
		} catch (e) { o['!'] = String(e.errcode || e.message); }
	}
	return o;
}
function arg(tok, isenum) {
	const b = tok.slice(1);
	switch (tok[0]) {
	case 'n': return null;
	case 'i': return isenum ? b : BigInt(b);
	case 'r': return Number(b);
	case 't': return Buffer.from(b, 'hex').toString('utf8');
	case 'b': return Buffer.from(b, 'hex');
	}
	throw new Error('bad token ' + tok);
}
function run(j, si, mod) {
	const sc = j.scripts[si];
	let o = null, ctx = null, held = {}, lost = false, intx = false;
	const open = () => { o = new mod.ortdb(sc.db, { bcrypt_cost: 4 }); ctx = o.connect(); held = {}; };
	const close = () => { if (o !== null) o.db.close(); o = null; ctx = null; held = {}; intx = false; };
	const dump = () => {
		if (o !== null) return dumpdb(o.db.db, j.tabs);
		const h = new DatabaseSync(sc.db); const r = dumpdb(h, j.tabs); h.close(); return r;
	};
	for (let n = 0; n < sc.lines.length; n++) {
		const tk = sc.lines[n][0].split(' ').filter(x => x !== '');
		const rec = { key: j.key, script: si, n };
		if (o === null && lost) {
			if (tk[0] === 'close') { lost = false; continue; }
			if (tk[0] !== 'open') {
				open(); emit({ key: j.key, script: si, n: 'reopen', res: ['void'], db: dump() });
			}
			lost = false;
		}
		if ((tk[0] === 'commit' || tk[0] === 'rollback') && !intx) continue;
		if (tk[0] === 'export' && !(tk[1] in held)) continue;
		try {
			switch (tk[0]) {
			case 'open': open(); rec.res = ['void']; break;
			case 'close': close(); rec.res = ['void']; break;
			case 'role': ctx.db_role(tk[1]); rec.res = ['void']; break;
			case 'cur': rec.res = [String(ctx.db_role_current())]; break;
			case 'begin': ctx['db_trans_open_' + tk[1]](7); intx = true; rec.res = ['void']; break;
			case 'commit': ctx.db_trans_commit(7); intx = false; rec.res = ['void']; break;
			case 'rollback': ctx.db_trans_rollback(7); intx = false; rec.res = ['void']; break;
			case 'export':
				rec.json = held[tk[1]].map(x => 'j' + hex(JSON.stringify(x.export())));
				break;
			case 'peek': {
				const h = new DatabaseSync(sc.db); h.exec('PRAGMA busy_timeout=0');
				rec.peek = dumpdb(h, j.tabs); h.close(); break;
			}
			case 'writer': {
				const h = new DatabaseSync(sc.db); h.exec('PRAGMA busy_timeout=0');
				try { h.exec('BEGIN IMMEDIATE'); h.exec('ROLLBACK'); rec.res = ['free']; }
				catch (e) { rec.res = [e.errcode === 5 ? 'busy' : 'bad']; }
				h.close(); break;
			}
			case 'call': {
				const op = j.ops[Number(tk[1])];
				const args = tk.slice(3).map((t, i) => arg(t, op.enums[i]));
				if (typeof ctx[op.fn] !== 'function') throw new Error('no function ' + op.fn);
				if (op.kind === 'iterate') {
					const l = [];
					ctx[op.fn](...args, x => { l.push(x); });
					held[tk[2]] = l;
				} else {
					const r = ctx[op.fn](...args);
					switch (op.kind) {
					case 'insert':
						rec.res = typeof r !== 'bigint' ? ['bad'] : r === -1n ? ['fail'] :
						    ['id', 'i' + r];
						break;
					case 'update': rec.res = [r === true ? 'done' : r === false ? 'fail' : 'bad']; break;
					case 'delete': rec.res = [r === undefined ? 'void' : 'bad']; break;
					case 'count':
						rec.res = typeof r === 'bigint' ? ['count', Number(r)] : ['bad']; break;
					case 'search': held[tk[2]] = r === null ? [] : [r]; break;
					case 'list': held[tk[2]] = r; break;
					}
				}
				if (['iterate', 'search', 'list'].includes(op.kind))
					rec.res = ['rows', held[tk[2]].map(x => raw(j, op.rs, x.obj))];
				break;
			}
			default: throw new Error('bad line');
			}
		} catch (e) {
			if (e instanceof Aborted) { close(); lost = true; rec.lost = 'abort'; }
			else { rec.res = ['throw']; rec.err = String(e && e.message || e); }
		}
		rec.db = dump();
		emit(rec);
	}
	close();
}
for (const j of jobs) {
	let mod;
	try { mod = load(j.ts); } catch (e) { emit({ key: j.key, fail: String(e && e.message || e) }); continue; }
	for (let i = 0; i < j.scripts.length; i++) run(j, i, mod);
}
