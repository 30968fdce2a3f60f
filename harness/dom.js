// As much of the Document Object Model as the browser code needs.
'use strict';
class Node {
    constructor() { this.parentNode = null; }
    remove() {
        if (this.parentNode !== null) {
            const k = this.parentNode.childNodes;
            k.splice(k.indexOf(this), 1);
            this.parentNode = null;
        }
    }
}
class Text extends Node {
    constructor(s) { super(); this.data = String(s); }
    get textContent() { return this.data; }
    get nodeType() { return 3; }
    cloneNode() { return new Text(this.data); }
}
// Live, as in browsers: what is iterated over changes with the document.
function live(find) {
    return new Proxy({}, {
        get(t, k) {
            const l = find();
            if (k === 'length') return l.length;
            if (k === 'item') return i => i < l.length ? l[i] : null;
            if (k === Symbol.iterator)
                return function* () { for (let i = 0; i < find().length; i++) yield find()[i]; };
            if (typeof k === 'string' && /^\d+$/.test(k)) return l[Number(k)];
            if (k === 'forEach') return undefined;
            return undefined;
        },
        has(t, k) { return k === 'length' || typeof k === 'string' && /^\d+$/.test(k) && Number(k) < find().length; },
    });
}
class ClassList {
    constructor(e) { this.e = e; }
    get all() { const c = this.e.getAttribute('class'); return c === null ? [] : c.split(/[ \t\n\f\r]+/).filter(x => x !== ''); }
    set all(l) { this.e.setAttribute('class', [...new Set(l)].join(' ')); }
    get length() { return this.all.length; }
    contains(c) { return this.all.includes(String(c)); }
    add(...cs) { cs.forEach(ClassList.check); this.all = this.all.concat(cs.map(String)); }
    remove(...cs) { cs.forEach(ClassList.check); if (this.e.hasAttribute('class')) this.all = this.all.filter(x => !cs.includes(x)); }
    toggle(c, force) {
        const on = force === undefined ? !this.contains(c) : Boolean(force);
        if (on) this.add(c); else this.remove(c);
        return on;
    }
    replace(a, b) { if (!this.contains(a)) return false; this.all = this.all.map(x => x === a ? b : x); return true; }
    item(i) { return i < this.all.length ? this.all[i] : null; }
    forEach(f) { this.all.forEach(f); }
    [Symbol.iterator]() { return this.all[Symbol.iterator](); }
    toString() { return this.all.join(' '); }
    static check(c) { if (String(c) === '' || /[ \t\n\f\r]/.test(c)) throw new Error('bad token "' + c + '"'); }
}
class Element extends Node {
    constructor(tag) { super(); this.localName = tag; this.childNodes = []; this.attrs = new Map(); this.classList = new ClassList(this); }
    get nodeType() { return 1; }
    get tagName() { return this.localName.toUpperCase(); }
    get nodeName() { return this.tagName; }
    get className() { return this.getAttribute('class') || ''; }
    set className(v) { this.setAttribute('class', v); }
    get children() { return live(() => this.childNodes.filter(x => x instanceof Element)); }
    get childElementCount() { return this.children.length; }
    get firstElementChild() { return this.children.length > 0 ? this.children[0] : null; }
    get lastElementChild() { const l = this.children.length; return l > 0 ? this.children[l - 1] : null; }
    get firstChild() { return this.childNodes.length > 0 ? this.childNodes[0] : null; }
    get lastChild() { const l = this.childNodes.length; return l > 0 ? this.childNodes[l - 1] : null; }
    hasChildNodes() { return this.childNodes.length > 0; }
    get parentElement() { return this.parentNode; }
    getAttribute(n) { n = n.toLowerCase(); return this.attrs.has(n) ? this.attrs.get(n) : null; }
    setAttribute(n, v) { this.attrs.set(String(n).toLowerCase(), String(v)); }
    hasAttribute(n) { return this.attrs.has(n.toLowerCase()); }
    removeAttribute(n) { this.attrs.delete(n.toLowerCase()); }
    toggleAttribute(n, force) {
        const on = force === undefined ? !this.hasAttribute(n) : Boolean(force);
        if (!on) this.removeAttribute(n); else if (!this.hasAttribute(n)) this.setAttribute(n, '');
        return on;
    }
    get textContent() { return this.childNodes.map(x => x.textContent).join(''); }
    set textContent(v) { this.replaceChildren(...(v === null || String(v) === '' ? [] : [new Text(v)])); }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    walk(f) { for (const k of this.childNodes) if (k instanceof Element) { f(k); k.walk(f); } }
    matching(f) { const out = []; this.walk(e => { if (f(e)) out.push(e); }); return out; }
    getElementsByClassName(c) {
        const cs = String(c).split(/[ \t\n\f\r]+/).filter(x => x !== '');
        return live(() => cs.length === 0 ? [] : this.matching(e => cs.every(x => e.classList.contains(x))));
    }
    getElementsByTagName(t) { return live(() => this.matching(e => t === '*' || e.localName === t.toLowerCase())); }
    selector(s) {
        const m = /^([a-z*]*)((?:\.[\w-]+)*)$/i.exec(s.trim());
        if (m === null) throw new Error('selector: ' + s);
        const cs = m[2].split('.').slice(1);
        return e => (m[1] === '' || m[1] === '*' || m[1].toLowerCase() === e.localName) && cs.every(c => e.classList.contains(c));
    }
    querySelectorAll(s) { return this.matching(this.selector(s)); }
    querySelector(s) { const l = this.querySelectorAll(s); return l.length > 0 ? l[0] : null; }
    matches(s) { return this.selector(s)(this); }
    contains(n) { for (; n !== null; n = n.parentNode) if (n === this) return true; return false; }
    append(...ns) {
        for (let n of ns) {
            if (!(n instanceof Node)) n = new Text(n);
            if (n instanceof Element && n.contains(this)) throw new Error('hierarchy');
            n.remove();
            n.parentNode = this;
            this.childNodes.push(n);
        }
    }
    appendChild(n) { if (!(n instanceof Node)) throw new TypeError('not a node'); this.append(n); return n; }
    prepend(n) { this.insertBefore(n, this.firstChild); }
    insertBefore(n, ref) {
        if (ref === null) return this.appendChild(n);
        n.remove();
        n.parentNode = this;
        this.childNodes.splice(this.childNodes.indexOf(ref), 0, n);
        return n;
    }
    removeChild(n) { if (n.parentNode !== this) throw new Error('not a child'); n.remove(); return n; }
    replaceChildren(...ns) {
        for (const k of this.childNodes.slice()) k.remove();
        this.append(...ns);
    }
    cloneNode(deep) {
        const e = make(this.localName);
        for (const [k, v] of this.attrs) e.attrs.set(k, v);
        if (deep) for (const k of this.childNodes) e.append(k.cloneNode(true));
        return e;
    }
}
class HTMLElement extends Element {
    get hidden() { return this.hasAttribute('hidden'); }
    set hidden(v) { this.toggleAttribute('hidden', v); }
}
const flag = (cls, prop, attr) => Object.defineProperty(cls.prototype, prop, {
    get() { return this.hasAttribute(attr); }, set(v) { this.toggleAttribute(attr, v); }});
class HTMLInputElement extends HTMLElement {
    get type() { return this.getAttribute('type') || 'text'; }
    get value() {
        const v = this.getAttribute('value');
        return v !== null ? v : ['checkbox', 'radio'].includes(this.type) ? 'on' : '';
    }
    set value(v) { this.setAttribute('value', v); }
}
flag(HTMLInputElement, 'checked', 'checked');
flag(HTMLInputElement, 'defaultChecked', 'checked');
class HTMLOptionElement extends HTMLElement {
    get value() { const v = this.getAttribute('value'); return v !== null ? v : this.textContent; }
    set value(v) { this.setAttribute('value', v); }
}
flag(HTMLOptionElement, 'selected', 'selected');
flag(HTMLOptionElement, 'defaultSelected', 'selected');
class HTMLSelectElement extends HTMLElement {
    get options() { return this.getElementsByTagName('option'); }
}
class HTMLHtmlElement extends HTMLElement {
    get lang() { return this.getAttribute('lang') || ''; }
    set lang(v) { this.setAttribute('lang', v); }
}
function make(tag) {
    return new ({input: HTMLInputElement, option: HTMLOptionElement, select: HTMLSelectElement, html: HTMLHtmlElement}[tag] ||
        HTMLElement)(tag);
}
class Document {
    constructor() { this.documentElement = make('html'); this.body = make('body'); this.documentElement.append(this.body); }
    createElement(t) { return make(t.toLowerCase()); }
    createTextNode(s) { return new Text(s); }
}
module.exports = {Node, Text, Element, HTMLElement, HTMLInputElement, HTMLOptionElement, HTMLSelectElement, Document, make};
