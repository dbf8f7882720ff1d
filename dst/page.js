// Runs the page (triples.html and its own scripts) of DST_REPO under a
// simulated browser: a small DOM, a network whose every delivery is decided
// by the spec read from standard input, and a virtual clock.
'use strict';
const fs = require('fs'), path = require('path'), vm = require('vm');
const REPO = process.env.DST_REPO || '/repo';
const spec = JSON.parse(fs.readFileSync(0, 'utf8'));

// ---------------------------------------------------------------- DOM
const VOID = new Set(['input', 'br', 'hr', 'img', 'meta', 'link', 'path', 'source', 'area', 'base', 'col', 'embed', 'param', 'track', 'wbr']);
const camel = s => s.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
class Style {
    constructor(t) { if (t) this.cssText = t; }
    set cssText(t) {
        for (const k of Object.keys(this)) delete this[k];
        for (const d of String(t).split(';')) { const i = d.indexOf(':'); if (i > 0) this[camel(d.slice(0, i).trim())] = d.slice(i + 1).trim(); }
    }
    get cssText() { return Object.entries(this).map(([k, v]) => k + ': ' + v + ';').join(' '); }
    setProperty(k, v) { this[camel(k)] = v; }
    getPropertyValue(k) { return this[camel(k)] === undefined ? '' : this[camel(k)]; }
    removeProperty(k) { delete this[camel(k)]; }
}
class El {
    constructor(tag) {
        this.tagName = tag.toUpperCase(); this.nodeName = this.tagName; this.localName = tag; this.nodeType = tag === '#text' ? 3 : 1;
        this.attrs = {}; this.childNodes = []; this.parentNode = null; this._style = new Style(); this._html = null; this._lis = {};
        this.clientHeight = 600; this.clientWidth = 800; this.offsetHeight = 600; this.offsetWidth = 800; this.scrollTop = 0; this.dataset = {};
        this.value = ''; this._checked = false; this.disabled = false; this._hidden = false; this.title = '';
    }
    get style() { return this._style; }
    set style(t) { this._style = new Style(t); }
    get children() { return this.childNodes.filter(c => c.nodeType === 1); }
    get firstChild() { return this.childNodes[0] || null; }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
    get firstElementChild() { return this.children[0] || null; }
    get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
    get childElementCount() { return this.children.length; }
    get parentElement() { return this.parentNode; }
    get nextSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) + 1] || null : null; }
    get previousSibling() { const p = this.parentNode; return p ? p.childNodes[p.childNodes.indexOf(this) - 1] || null : null; }
    toJSON() { return {}; }
    hasChildNodes() { return this.childNodes.length > 0; }
    get id() { return this.attrs.id || ''; } set id(v) { this.attrs.id = v; }
    get name() { return this.attrs.name || ''; } set name(v) { this.attrs.name = v; }
    get type() { return this.attrs.type || ''; } set type(v) { this.attrs.type = v; }
    get className() { return this.attrs.class || ''; } set className(v) { this.attrs.class = v; }
    get classList() {
        const e = this, l = () => e.className.split(/\s+/).filter(Boolean);
        return { add: (...c) => { e.className = [...new Set([...l(), ...c])].join(' '); }, remove: (...c) => { e.className = l().filter(x => !c.includes(x)).join(' '); },
                 contains: c => l().includes(c), toggle: c => { l().includes(c) ? e.classList.remove(c) : e.classList.add(c); } };
    }
    get hidden() { return this._hidden; } set hidden(v) { this._hidden = !!v; }
    get checked() { return this._checked; }
    set checked(v) {
        this._checked = !!v;
        if (v && this.type === 'radio') for (const e of all(DOC.root)) if (e !== this && e.type === 'radio' && e.name === this.name) e._checked = false;
    }
    get innerHTML() { return this._html !== null ? this._html : this.childNodes.map(c => c.nodeType === 3 ? c._html : '<' + c.localName + '>' + c.innerHTML + '</' + c.localName + '>').join(''); }
    set innerHTML(v) { for (const c of this.childNodes) c.parentNode = null; this.childNodes = []; this._html = null; v = v === null ? '' : String(v); if (v !== '') { const t = new El('#text'); t._html = v; t.parentNode = this; this.childNodes.push(t); } }
    get text() { return this.nodeType === 3 ? this._html : this.childNodes.map(c => c.text).join(''); }
    get textContent() { return this.text; } set textContent(v) { this.innerHTML = v; }
    get innerText() { return this.text; } set innerText(v) { this.innerHTML = v; }
    get defaultValue() { return this.text; } set defaultValue(v) { this.innerHTML = v; }
    setAttribute(k, v) { v = String(v); this.attrs[k] = v; if (k === 'style') this.style = v; if (k === 'value') this.value = v; if (k === 'hidden') this.hidden = true; if (k === 'checked') this.checked = true; if (k === 'disabled') this.disabled = true; }
    getAttribute(k) { return k in this.attrs ? this.attrs[k] : null; }
    hasAttribute(k) { return k in this.attrs; }
    removeAttribute(k) { delete this.attrs[k]; if (k === 'hidden') this.hidden = false; if (k === 'disabled') this.disabled = false; if (k === 'checked') this.checked = false; }
    toggleAttribute(k) { this.hasAttribute(k) ? this.removeAttribute(k) : this.setAttribute(k, ''); }
    node(c) { if (c instanceof El) { if (c.localName === '#fragment') return c.childNodes.slice(); return [c]; } const t = new El('#text'); t._html = String(c); return [t]; }
    put(i, list) { for (const c of list) for (const n of this.node(c)) { n.remove(); n.parentNode = this; this.childNodes.splice(i < 0 ? this.childNodes.length : i++, 0, n); } }
    appendChild(c) { this.put(-1, [c]); return c; }
    append(...c) { this.put(-1, c); }
    prepend(...c) { this.put(0, c); }
    insertBefore(c, r) { this.put(r ? this.childNodes.indexOf(r) : -1, [c]); return c; }
    after(...c) { const p = this.parentNode; p.put(p.childNodes.indexOf(this) + 1, c); }
    before(...c) { const p = this.parentNode; p.put(p.childNodes.indexOf(this), c); }
    insertAdjacentElement(w, c) { ({ beforebegin: () => this.before(c), afterbegin: () => this.prepend(c), beforeend: () => this.append(c), afterend: () => this.after(c) })[w](); return c; }
    removeChild(c) { const i = this.childNodes.indexOf(c); if (i < 0) throw new Error('NotFoundError: removeChild'); this.childNodes.splice(i, 1); c.parentNode = null; return c; }
    replaceChild(n, o) { this.insertBefore(n, o); this.removeChild(o); return o; }
    replaceChildren(...c) { this.innerHTML = ''; this.append(...c); }
    replaceWith(...c) { this.before(...c); this.remove(); }
    remove() { if (this.parentNode) this.parentNode.removeChild(this); }
    contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
    matches(s) { return match(this, s); }
    closest(s) { for (let e = this; e && e.nodeType === 1; e = e.parentNode) if (match(e, s)) return e; return null; }
    querySelectorAll(s) { const l = all(this).filter(e => e !== this && match(e, s)); return l; }
    querySelector(s) { return this.querySelectorAll(s)[0] || null; }
    getElementsByTagName(t) { return this.querySelectorAll(t); }
    getElementsByClassName(c) { return this.querySelectorAll('.' + c); }
    addEventListener(t, f) { (this._lis[t] = this._lis[t] || []).push(f); }
    removeEventListener(t, f) { this._lis[t] = (this._lis[t] || []).filter(g => g !== f); }
    dispatchEvent(ev) { fire(this, ev.type, ev); return true; }
    click() { fire(this, 'click', {}); }
    focus() {} blur() {} select() {} scrollIntoView() {} scrollTo() {}
    getContext() { return null; }
    toDataURL() { return 'data:,'; }
    getBoundingClientRect() { return { left: 0, top: 0, right: 800, bottom: 600, width: 800, height: 600, x: 0, y: 0 }; }
    cloneNode() { const e = new El(this.localName); e.attrs = { ...this.attrs }; e._style = new Style(this._style.cssText); return e; }
}
function all(e) { const out = []; (function go(x) { if (x.nodeType === 1) out.push(x); for (const c of x.childNodes) go(c); })(e); return out; }
function simple(e, s) {
    const re = /([a-zA-Z*][\w-]*)|#([\w-]+)|\.([\w-]+)|\[([\w-]+)(?:([*^$~]?=)["']?([^"'\]]*)["']?)?\]|:not\(([^)]*)\)|:([\w-]+)(?:\([^)]*\))?/gy;
    let m;
    while (re.lastIndex < s.length) {
        m = re.exec(s);
        if (!m) return false;
        if (m[1] && m[1] !== '*' && e.localName !== m[1].toLowerCase()) return false;
        if (m[2] && e.id !== m[2]) return false;
        if (m[3] && !e.classList.contains(m[3])) return false;
        if (m[4]) { const v = m[4] === 'value' ? (e.attrs.value === undefined ? e.value : e.attrs.value) : e.getAttribute(m[4]); if (v === null || (m[5] && v !== m[6])) return false; }
        if (m[7] && simple(e, m[7])) return false;
        if (m[8] === 'checked' && !e.checked) return false;
        if (m[8] === 'hover' || m[8] === 'focus') return false;
        if (m[8] === 'disabled' && !e.disabled) return false;
    }
    return true;
}
function match(e, sel) {
    return sel.split(',').some(s => {
        const parts = s.trim().split(/\s*>\s*|\s+/);
        if (!simple(e, parts[parts.length - 1])) return false;
        let p = e.parentNode;
        for (let i = parts.length - 2; i >= 0; --i) { while (p && !simple(p, parts[i])) p = p.parentNode; if (!p) return false; p = p.parentNode; }
        return true;
    });
}
const scripts = [];
function parse(html) {
    const root = new El('#document');
    root.nodeType = 1;
    const stack = [root];
    const re = /<!--[\s\S]*?-->|<!DOCTYPE[^>]*>|<\/([\w-]+)\s*>|<([\w-]+)((?:"[^"]*"|'[^']*'|[^>"'])*)>|[^<]+|</gi;
    let m;
    while ((m = re.exec(html))) {
        const top = stack[stack.length - 1];
        if (m[1]) {
            for (let i = stack.length - 1; i > 0; --i) if (stack[i].localName === m[1].toLowerCase()) { stack.length = i; break; }
        } else if (m[2]) {
            const e = new El(m[2].toLowerCase());
            const ar = /([^\s=\/"']+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g;
            let a;
            while ((a = ar.exec(m[3]))) { e.attrs[a[1].toLowerCase()] = a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] || ''; }
            e.parentNode = top; top.childNodes.push(e);
            if (e.localName === 'script' || e.localName === 'style') {
                const end = html.indexOf('</' + e.localName, re.lastIndex);
                const body = html.slice(re.lastIndex, end);
                if (e.localName === 'script') scripts.push([e.attrs.src, body]);
                re.lastIndex = html.indexOf('>', end) + 1;
            } else if (!VOID.has(e.localName) && !m[3].endsWith('/')) stack.push(e);
        } else if (m[0][0] !== '<' && top !== root) {
            const t = new El('#text'); t._html = m[0]; t.parentNode = top; top.childNodes.push(t);
        }
    }
    return root;
}
const DOC = { root: null, lis: {} };
DOC.root = parse(fs.readFileSync(path.join(REPO, 'triples.html'), 'utf8'));
for (const e of all(DOC.root)) for (const k of ['style', 'value', 'checked', 'disabled', 'hidden', 'title']) if (k in e.attrs) { const v = e.attrs[k]; if (k === 'checked' || k === 'disabled' || k === 'hidden') e[k] = true; else e[k] = v; }
const errors = [];
function guard(f) { try { return f(); } catch (e) { errors.push(String(e && e.message || e)); } }
function fire(el, type, ev) {
    ev = Object.assign(ev, { type, target: el, currentTarget: el, preventDefault() {}, stopPropagation() { ev.stop = true; } });
    for (let e = el; e && !ev.stop; e = type === 'input' || type === 'click' || type === 'keyup' || type === 'change' ? e.parentNode : null) {
        const a = e.attrs && e.attrs['on' + type];
        if (a && !e['on' + type]) guard(() => vm.runInContext('(function(event){' + a + '\n})', ctx).call(e, ev));
        if (typeof e['on' + type] === 'function') guard(() => e['on' + type](ev));
        for (const f of (e._lis && e._lis[type] || []).slice()) guard(() => f.call(e, ev));
    }
    if (!ev.stop) {
        for (const f of (DOC.lis[type] || []).slice()) guard(() => f.call(document, ev));
        if (typeof document['on' + type] === 'function') guard(() => document['on' + type](ev));
    }
}
const $ = id => all(DOC.root).find(e => e.id === id) || null;
const byId = {};
const document = {
    getElementById: id => { const c = byId[id]; if (c && DOC.root.contains(c) && c.id === id) return c; return (byId[id] = $(id)); },
    querySelector: s => DOC.root.querySelector(s), querySelectorAll: s => DOC.root.querySelectorAll(s),
    getElementsByName: n => all(DOC.root).filter(e => e.name === n), getElementsByClassName: c => DOC.root.querySelectorAll('.' + c), getElementsByTagName: c => DOC.root.querySelectorAll(c),
    createElement: t => new El(t.toLowerCase()), createElementNS: (n, t) => new El(t.toLowerCase()), createTextNode: t => { const e = new El('#text'); e._html = String(t); return e; },
    createDocumentFragment: () => new El('#fragment'), execCommand: () => true, readyState: 'loading',
    addEventListener: (t, f) => { (DOC.lis[t] = DOC.lis[t] || []).push(f); }, removeEventListener: (t, f) => { DOC.lis[t] = (DOC.lis[t] || []).filter(g => g !== f); },
    get body() { return DOC.root.querySelector('body'); }, get documentElement() { return DOC.root.querySelector('html'); }, get activeElement() { return this.body; },
};

// ------------------------------------------------- clock, network, server
const T0 = 1.7e12;
const W = { now: T0, pend: [], seq: 0, socks: [], posts: [], log: [], viol: [], fired: {} };
const fired = k => { W.fired[k] = (W.fired[k] || 0) + 1; };
class FDate extends Date { constructor(...a) { if (a.length) super(...a); else super(W.now); } static now() { return W.now; } }
const queue = (kind, f, extra) => W.pend.push(Object.assign({ id: W.seq++, kind, f }, extra));
function axiosPost(url, data) {
    const body = JSON.parse(JSON.stringify(data));
    return new Promise((ok, bad) => { onPost(String(url), body, ok, bad); });
}
const axiosError = m => Object.assign(new Error(m), { isAxiosError: true });
const axios = { post: axiosPost, isAxiosError: e => !!(e && e.isAxiosError),
    request: c => axiosPost(c.url, c.data), get: () => Promise.reject(axiosError('Network Error')) };
class Sock {
    constructor() { this.h = {}; this.id = undefined; this.connected = false; this.closed = false; this.n = W.socks.length; W.socks.push(this); this.attempts = 0; this.try(); }
    get disconnected() { return !this.connected; }
    get active() { return !this.closed; }
    try() { queue('connect', bad => { if (this.closed || this.connected) return; if (bad) { fired('connect-error'); stale(); this.ev('connect_error', new Error('xhr poll error')); if (!this.closed && ++this.attempts < 3) this.try(); return; } this.attempts = 0; this.connected = true; this.id = 's' + (W.seq++); this.ev('connect'); }, { sock: this }); }
    on(t, f) { (this.h[t] = this.h[t] || []).push(f); return this; }
    addListener(t, f) { return this.on(t, f); }
    once(t, f) { const g = (...a) => { this.off(t, g); f(...a); }; g.of = f; return this.on(t, g); }
    off(t, f) { if (!t) this.h = {}; else this.h[t] = f ? (this.h[t] || []).filter(g => g !== f && g.of !== f) : []; return this; }
    removeListener(t, f) { return this.off(t, f); } removeAllListeners(t) { return this.off(t); }
    listeners(t) { return this.h[t] || []; } hasListeners(t) { return this.listeners(t).length > 0; }
    emit() { return this; }
    ev(t, ...a) { for (const f of (this.h[t] || []).slice()) guard(() => f(...a)); }
    drop(reason) { if (!this.connected) return; this.connected = false; this.id = undefined; this.ev('disconnect', reason); }
    close() { const was = this.connected; this.closed = true; if (was) this.drop('io client disconnect'); return this; }
    disconnect() { return this.close(); }
    connect() { this.closed = false; if (!this.connected) this.try(); return this; } open() { return this.connect(); }
}
const io = () => new Sock();
io.connect = io; io.io = io;
const noop = () => {};
const win = {
    document, axios, io, console: { log: noop, warn: noop, error: noop, info: noop, debug: noop }, Date: FDate, MathJax: { tex2svg: s => { const w = new El('mjx'), v = new El('svg'); v.tex = s; w.append(v); return w; } },
    setTimeout: (f, t) => { queue('timer', () => guard(f), { at: W.now + (t || 0) }); return W.seq; }, clearTimeout: noop, setInterval: () => 0, clearInterval: noop, requestAnimationFrame: () => 0, cancelAnimationFrame: noop,
    html2canvas: noop, alert: noop, THREE: {}, navigator: { clipboard: { writeText: () => Promise.resolve() } }, location: { href: 'http://127.0.0.1:5000/', hostname: '127.0.0.1', protocol: 'http:', host: '127.0.0.1:5000' },
    addEventListener: noop, removeEventListener: noop, performance: { now: () => W.now - T0 }, queueMicrotask, structuredClone: x => JSON.parse(JSON.stringify(x)), localStorage: { getItem: () => null, setItem: noop, removeItem: noop },
    innerWidth: 1280, innerHeight: 720, getComputedStyle: e => e.style,
};
win.window = win; win.self = win; win.globalThis = win; win.event = undefined;
const ctx = vm.createContext(win);
for (const [src, body] of scripts) {
    if (src) {
        if (/\.min\.js|tex-svg|three\.|socket\.io|bootstrap|^https?:/.test(src)) continue;
        vm.runInContext(fs.readFileSync(path.join(REPO, src), 'utf8'), ctx, { filename: src });
    } else vm.runInContext(body, ctx, { filename: 'triples.html' });
}

// ------------------------------------------------------------ the model
const M = { entries: [], wait: [], solves: 0, shown: null, show: 'latex', nreq: 0 };
const bad = (cls, msg) => { if (W.viol.length < 5) W.viol.push({ class: cls, msg: msg + ' [after op ' + W.op + ']' }); };
const g = id => document.getElementById(id);
const METH = ['StructuralSOS', 'LinearSOS', 'SymmetricSOS', 'SDPSOS'];
function pageState() {
    return { poly: g('input_poly').value.trim(), gens: g('setting_gens_input').value, perm: g('setting_perm_input').value,
             choice: (DOC.root.querySelector('input[name="setting_perm"]:checked') || {}).value,
             methods: Object.fromEntries(METH.map(m => [m, g('setting_method_use_' + m).checked])) };
}
const OPTS = { factor: { standardize_text: 'factor' }, expand: { standardize_text: 'expand' }, 'expand full': { standardize_text: 'expand', omit_pow: false, omit_mul: false },
               homogenize: { homogenize: true }, dehomogenize0: { dehomogenize: 0 }, dehomogenize1: { dehomogenize: 1 } };
function asked(sos, opts) {                     // the user asked for something
    const s = pageState();
    if (!s.poly || !/^[\x00-\x7F]*$/.test(s.poly)) return;
    const top = M.entries[0];
    let e;
    if (top && top.poly.trim() === s.poly && top.gens.trim() === s.gens.trim() && top.perm.trim() === s.perm.trim() && top.choice === s.choice && !('homogenize' in opts) && !('dehomogenize' in opts)) e = top;
    else { e = { ...s, n: M.nreq, vis: null, sos: null }; M.entries.unshift(e); if (M.entries.length > 100) M.entries.pop().gone = true; }
    M.nreq++;
    M.wait.push({ ...s, e, sos, opts, n: M.nreq, tang: g('input_tangents').value });
    if (sos) M.solves++;
}
const METHKEY = m => JSON.stringify(METH.map(k => !!(m || {})[k]));
function same(w, d) {
    if (d.poly !== w.poly || d.gens !== w.gens || d.perm !== w.perm) return false;
    const a = d.actions || [];
    if (a.includes('sos') !== w.sos || !a.includes('findroot')) return false;
    if (d.tangents !== undefined && d.tangents !== w.tang) return false;
    if (w.sos && METHKEY(d.methods) !== METHKEY(w.methods)) return false;
    for (const k of ['homogenize', 'dehomogenize', 'omit_pow', 'omit_mul', 'standardize_text']) if ((d[k] === undefined || d[k] === null || d[k] === false && !(k in w.opts) ? undefined : d[k]) !== w.opts[k]) return false;
    return true;
}
const done = w => { if (w.sos && !w.done) { w.done = true; M.solves--; } };
function onPost(url, d, ok, no) {
    if (!url.endsWith('/process/preprocess')) { queue('http', how => how ? no(axiosError('Network Error')) : ok({ data: { coeffs: 'C' } })); return; }
    // requests waiting when a connection was lost may be dropped: look there last
    let i = -1;
    for (const f of [w => !w.stale && w.e.ts === d.timestamp, w => !w.stale, () => true]) if (i < 0) i = M.wait.findIndex(w => same(w, d) && f(w));
    if (i < 0) { bad('request', 'the page sent a request the user did not make: ' + JSON.stringify(d).slice(0, 300)); queue('http', () => ok({ data: {} })); return; }
    const w = M.wait.splice(i, 1)[0], k = w.n, e = w.e, out = spec.outcomes[k % spec.outcomes.length];
    for (const x of M.entries.concat(M.old || [])) if (x !== e && x.ts === d.timestamp && d.timestamp !== undefined) bad('timestamp', 'two history entries share one time stamp ' + d.timestamp);
    e.ts = d.timestamp;
    W.posts.push(k);
    const sock = W.socks.find(s => s.connected && s.id === d.sid);
    if (d.sid === undefined || out === 'e500') {
        if (d.sid === undefined && !W.lost) bad('request', 'a request was sent without the session it must be answered to');
        fired('http-500'); queue('http', how => { if (how) lost(); else done(w); no(axiosError(how ? 'Network Error' : 'Request failed with status code 500')); }); return; }
    if (out === 'refuse') { fired('refused'); queue('http', how => { if (how) lost(); else done(w); how ? no(axiosError('Network Error')) : ok({ data: {} }); }); return; }
    const opt = w.opts, txt = opt.standardize_text ? w.poly.replace(/^\((.*)\)$/, '$1') + '+0' : 'homogenize' in opt || 'dehomogenize' in opt ? w.poly + '+t' + k : w.poly;
    const n = spec.degs[k % spec.degs.length], nv = w.gens.length, tri = [];
    if (nv === 3) for (let t = 0; t < (n + 1) * (n + 2) / 2; ++t) tri.push(t % 3 ? 'q' + k + '_' + t : '0');
    const col = [k % 251, (7 * k) % 241, (31 * k + 5) % 239], vis = { n, txt, triangle: nv === 3 ? tri : nv === 4 ? [] : null, heatmap: nv === 3 && n > 0 ? Array.from({ length: 1891 }, () => col) : null };
    queue('http', how => {
        if (how) { lost(); no(axiosError('Network Error')); return; }
        ok({ data: vis });
        e.vis = vis; e.vk = k; e.poly = txt; if (e === M.entries[0]) W.newvis = e;
    });
    const evs = [['rootangents', { rootsinfo: 'R' + k + '\nr', tangents: ['g' + k, 'h' + k], timestamp: d.timestamp }]];
    if (w.sos) evs.push(['sos', out === 'fail' ? { latex: '', txt: '', formatted: '', success: false, timestamp: d.timestamp } : { latex: '$$L' + k + (k % 2 ? '\\\\ = x' : '') + '$$', txt: 'T' + k, formatted: 'F' + k, success: true, timestamp: d.timestamp }]);
    let prev = null;
    for (const [t, v] of evs) {
        const p = { id: W.seq++, kind: 'event', after: prev, f: () => { if (!sock || !sock.connected || sock.id !== d.sid) return; if (t === 'rootangents' && e === M.entries[0]) W.newroots = k; if (t === 'sos') { done(w); e.sos = v; M.shown = v; M.fresh = true; } sock.ev(t, JSON.parse(JSON.stringify(v))); } };
        W.pend.push(p); prev = p;
    }
}
function stale() { W.lost = true; for (const w of M.wait) w.stale = true; }
function lost() { fired('network-error'); W.lost = true; }
function view() {                               // what the page shows
    const sb = g('shadow_box').children, coeffs = g('coeffs').children.filter(c => c.localName === 'p').map(c => c.text);
    const b = /\((-?\d+)\)/.exec(g('sumofsquare').text);
    return { out: g('output_result').text, svg: sb.map(c => c.tex), coeffs, num: b ? +b[1] : 0, hist: g('history_panel').children,
             heat: (g('heatmap').children[17] || { style: {} }).style.background };
}
function checkResult(v, s, what) {
    if (v.out !== s[M.show]) bad('result', what + ': the result box shows ' + JSON.stringify(v.out) + ' and not ' + JSON.stringify(s[M.show]));
    if (v.svg.length !== 1) bad('result', what + ': ' + v.svg.length + ' rendered proofs are shown');
    else { const t = v.svg[0] || ''; if (s.success ? !t.includes(s.latex.slice(2, 5).replace(/[^L\d].*/, '')) || t.includes('Failed') : !t.includes('Failed')) bad('result', what + ': the rendered proof is ' + t + ' and not that of ' + (s.latex || 'a failure')); }
}
function checkVis(v, e, what) {
    const want = e.gens.length === 3 ? e.vis.triangle : [];
    if (JSON.stringify(v.coeffs) !== JSON.stringify(want)) bad('coefficients', what + ': shows coefficients ' + v.coeffs + ' and not ' + want);
    const hm = e.gens.length === 3 && e.vis.heatmap ? 'rgb(' + e.vis.heatmap[0].join(',') + ')' : null;
    if (hm && v.heat.replace(/\s/g, '') !== hm) bad('coefficients', what + ': shows a heat map ' + v.heat + ' and not ' + hm);
}
function check() {
    const v = view();
    if (W.newvis) { checkVis(v, W.newvis, 'after the coefficients of the latest request arrived'); if (g('input_poly').value.trim() !== W.newvis.poly.trim()) bad('coefficients', 'the input reads ' + g('input_poly').value + ' after the answer ' + W.newvis.poly); }
    if (W.newroots && (!g('rootsinfo').text.includes('R' + W.newroots + ' ') || g('input_tangents').value.replace(/\s+/g, ' ').trim() !== 'g' + W.newroots + ' h' + W.newroots)) bad('roots', 'the roots of request ' + W.newroots + ' arrived and the page shows ' + g('rootsinfo').text + ' | ' + g('input_tangents').value);
    W.newvis = W.newroots = null;
    if (v.num < 0) bad('count', 'a negative number of solves in progress');
    if (!W.lost && v.num !== M.solves) bad('count', v.num + ' solves shown as in progress, ' + M.solves + ' awaited');
    if (M.entries.length && v.hist.length !== M.entries.length) bad('history', v.hist.length + ' history entries shown, ' + M.entries.length + ' requests were made');
    else if (M.entries.length) M.entries.forEach((e, i) => { const t = v.hist[i].text; if (e.poly.length < 200 && t !== e.poly) bad('history', 'history entry ' + i + ' reads ' + t + ' and not ' + e.poly); });
    if (M.shown) checkResult(v, M.shown, M.fresh ? 'after an answer' : 'later');
    if (M.fresh && g('shadow').hidden) bad('result', 'a solve was answered and the result is not shown');
    M.fresh = false;
}
const settle = () => new Promise(r => setImmediate(() => setImmediate(r)));
function choose(k) {
    const h = g('history_panel').children;
    if (!M.entries.length || h.length !== M.entries.length) return;
    k %= h.length;
    const e = M.entries[k], what = 'choosing history entry ' + k;
    fire(h[k], 'click', {});
    const s = pageState(), v = view();
    if (s.poly !== e.poly.trim() || s.gens !== e.gens || s.perm !== e.perm || s.choice !== e.choice) bad('history', what + ' shows ' + JSON.stringify([s.poly, s.gens, s.perm, s.choice]) + ' and not ' + JSON.stringify([e.poly, e.gens, e.perm, e.choice]));
    if (e.vis) checkVis(v, e, what);
    if (e.sos) { M.shown = e.sos; checkResult(v, e.sos, what); }
}
const typed = (id, t) => { g(id).value = t; fire(g(id), 'input', {}); };
const ready = () => W.pend.filter(p => !(p.after && W.pend.includes(p.after)) && !(p.kind === 'timer' && p.at > W.now));
async function deliver(r, how) {
    const l = ready();
    if (!l.length) return false;
    const p = l[r % l.length];
    W.pend.splice(W.pend.indexOf(p), 1);
    W.order = (W.order || '') + p.kind[0] + p.id + (how ? '!' : '');
    p.f(how && (p.kind === 'http' || p.kind === 'connect'));
    await settle();
    return true;
}
async function op(o) {
    const [c, x, y] = o;
    if (c === 'type') typed('input_poly', x);
    else if (c === 'gens') typed('setting_gens_input', x);
    else if (c === 'perm') { const e = DOC.root.querySelector('input[name="setting_perm"][value="' + x + '"]'); e.checked = true; fire(e, 'click', {}); if (x === 'custom') typed('setting_perm_input', y); }
    else if (c === 'method') { const e = g('setting_method_use_' + x); e.checked = y; fire(e, 'click', {}); fire(e, 'change', {}); }
    else if (c === 'go') { asked(false, {}); fire(g('input_poly'), 'keyup', { keyCode: 13, which: 13, key: 'Enter' }); }
    else if (c === 'sos') { asked(true, {}); fire(g('sumofsquare'), 'click', {}); }
    else if (c === 'tool') {
        if (x in OPTS) asked(false, OPTS[x]);
        else M.tool = x;
        const e = all(DOC.root).find(t => (t.attrs.onclick || '').includes("PolyTools('" + x + "')"));
        if (['rotate', 'rotate_reflect', 'reflect'].includes(x) && g('setting_gens_input').value.length > 1) {
            const real = g('input_poly').value, gs = g('setting_gens_input').value, m = gs.length;
            const f = ch => { const j = gs.indexOf(ch); return j < 0 ? ch : x === 'rotate' ? gs[(j + 1) % m] : x === 'rotate_reflect' ? gs[(j + m - 1) % m] : j === 0 ? gs[1] : j === 1 ? gs[0] : ch; };
            g('input_poly').value = Array.from(real).map(f).join('');
            asked(false, {});
            g('input_poly').value = real;
        }
        fire(e, 'click', {});
    }
    else if (c === 'show') { fire(g('output_show' + x), 'click', {}); M.show = x; }
    else if (c === 'close') fire(document.body, 'click', {});
    else if (c === 'esc') fire(document.body, 'keyup', { keyCode: 27, which: 27, key: 'Escape' });
    else if (c === 'click') choose(x);
    else if (c === 'deliver') await deliver(x, false);
    else if (c === 'break') await deliver(x, true);
    else if (c === 'drop') { const l = W.socks.filter(s => s.connected); if (l.length) { const s = l[x % l.length]; fired('disconnect'); stale(); s.drop('transport close'); if (!s.closed) s.try(); } }
    else if (c === 'clock') { if (x < 0) fired('clock-back'); W.now += x; }
    await settle();
}
(async () => {
    let k = 0;
    for (const o of spec.ops) { W.op = k++; await op(o); check(); if (W.viol.length) break; }
    if (!W.viol.length) {                       // faults stop: everything is delivered
        W.op = 'end';
        for (let i = 0; i < 5000; ++i) { W.now += 10; if (!await deliver(0, false) && !W.pend.length) break; }
        const v = view();
        if (v.num !== 0) bad('count', v.num + ' solves shown as in progress after every request was answered, refused or failed');
        if (M.wait.length && !W.lost) bad('request', M.wait.length + ' requests of the user were never sent');
        check();
        for (let i = 0; i < M.entries.length && !W.viol.length; ++i) { W.op = 'end'; choose(i); }
    }
    process.stdout.write(JSON.stringify({ violations: W.viol, errors: errors.slice(0, 5), fired: W.fired, posts: W.posts.length, order: W.order || '', entries: M.entries.length, events: W.seq, simtime: Math.abs(W.now - T0) / 1000, answered: M.entries.filter(e => e.sos).length }));
})();
