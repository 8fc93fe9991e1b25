// Runs the JavaScript client that the server ships (its text is the first line that arrives) with a stand-in for
// XMLHttpRequest and timers: requests go out as lines on stdout, the answers come back on stdin. One operation per line.
'use strict';
const fs = require('fs'), vm = require('vm');
let pend = Buffer.alloc(0);
const chunk = Buffer.alloc(1 << 16);
function readLine() {
    for (;;) {
        const i = pend.indexOf(10);
        if (i >= 0) {
            const l = pend.toString('utf8', 0, i);
            pend = pend.subarray(i + 1);
            return l;
        }
        let n;
        try { n = fs.readSync(0, chunk, 0, chunk.length, null); } catch (e) {
            if (e.code === 'EAGAIN') { continue; }
            if (e.code === 'EOF') { process.exit(0); }
            throw e;
        }
        if (n === 0) { process.exit(0); }
        pend = Buffer.concat([pend, chunk.subarray(0, n)]);
    }
}
function say(o) {
    let b = Buffer.from(JSON.stringify(o) + '\n');
    while (b.length) {
        try { b = b.subarray(fs.writeSync(1, b)); } catch (e) { if (e.code !== 'EAGAIN') { throw e; } }
    }
}
console.log = console.warn = console.error = function () {};

let tasks = [], timers = [], now = 0;
global.window = global;
global.XMLHttpRequest = function () { this._h = {}; this._on = {}; this.readyState = 0; this.status = 0; this.responseType = ''; };
XMLHttpRequest.prototype.addEventListener = function (e, f) { (this._on[e] = this._on[e] || []).push(f); };
XMLHttpRequest.prototype.open = function (m, u, a) { this._m = m; this._u = u; this.readyState = 1; };
XMLHttpRequest.prototype.setRequestHeader = function (k, v) { this._h[k] = v; };
XMLHttpRequest.prototype._fire = function (e) {
    const fs = (this._on[e] || []).slice();
    if (typeof this['on' + e] === 'function') { fs.unshift(this['on' + e]); }
    for (const f of fs) { f.call(this, { type: e, target: this }); }
};
XMLHttpRequest.prototype.getResponseHeader = function (k) {
    const v = this._rh[k.toLowerCase()];
    return v === undefined ? null : v.join(', ');
};
XMLHttpRequest.prototype.send = function (data) {
    let b = '';
    if (typeof data === 'string') { b = Buffer.from(data, 'utf8').toString('hex'); } else if (data != null) { b = Buffer.from(data.buffer ? data : new Uint8Array(data)).toString('hex'); }
    tasks.push(() => {
        say({ http: { m: this._m, u: this._u, h: this._h, b: b } });
        const r = JSON.parse(readLine());
        this.readyState = 4;
        if (r.status === 0) { this._rh = {}; this._fire('readystatechange'); this._fire('error'); this._fire('loadend'); return; }
        this.status = r.status;
        this._rh = r.h || {};
        const body = Buffer.from(r.b || '', 'hex');
        if (this.responseType === 'arraybuffer') {
            this.response = new Uint8Array(body).buffer;
        } else {
            this.response = this.responseText = body.toString('utf8');
        }
        this._fire('readystatechange');
        this._fire('load');
        this._fire('loadend');
    });
};
let timerId = 0;
global.setTimeout = function (f, ms, ...a) { timers.push({ at: now + Math.max(0, Number(ms) || 0), id: ++timerId, f: () => f(...a) }); return timerId; };
global.clearTimeout = function (id) { timers = timers.filter(t => t.id !== id); };

const bin = h => h === null ? null : Buffer.from(h, 'hex').toString('latin1');
const hex = s => s === null || s === undefined ? '' : Buffer.from(String(s), 'latin1').toString('hex');
const utf = h => Buffer.from(h, 'hex').toString('utf8');
const mkHead = h => h === null ? null : new LogTreeHead(h.n, bin(h.r));
const headRec = h => h === null || h === undefined ? null : { n: h.getTreeSize(), r: hex(h.getRootHash()) };
const mkState = s => s === null ? null : new MapTreeState(new MapTreeHead(mkHead(s.m), bin(s.r)), mkHead(s.t));
const stateRec = s => s === null || s === undefined ? null
    : { r: hex(s.getMapHead().getRootHash()), m: headRec(s.getMapHead().getMutationLogTreeHead()), t: headRec(s.getTreeHeadLogTreeHead()) };
const factory = f => f === 'json' ? JSON_ENTRY_FACTORY : f === 'redacted' ? REDACTED_JSON_ENTRY_FACTORY : RAW_DATA_ENTRY_FACTORY;
const mkEntry = e => e.f === 'json' ? new JsonEntry(utf(e.b)) : e.f === 'redactable' ? new RedactableJsonEntry(utf(e.b)) : new RawDataEntry(bin(e.b));
function theMap(o) { return new ContinusecClient(o.acc, o.key, 'http://x').getVerifiableMap(o.name); }
function theLog(o) {
    if (o.lt === 'mut') { return theMap(o).getMutationLog(); }
    if (o.lt === 'head') { return theMap(o).getTreeHeadLog(); }
    return new ContinusecClient(o.acc, o.key, 'http://x').getVerifiableLog(o.name);
}
const entRec = e => ({ lh: hex(e.getLeafHash()), d: Buffer.from(e.getData(), 'latin1').toString('hex'), u: Buffer.from(e.getData(), 'utf8').toString('hex') });
const ops = {
    vhead(o, ok, bad) {
        if (o.latest) { theLog(o).getVerifiedLatestTreeHead(mkHead(o.held), h => ok(headRec(h)), bad); } else { theLog(o).getVerifiedTreeHead(mkHead(o.held), o.want, h => ok(headRec(h)), bad); }
    },
    head(o, ok, bad) { theLog(o).getTreeHead(o.want, h => ok(headRec(h)), bad); },
    vcons(o, ok, bad) { theLog(o).verifyConsistency(mkHead(o.a), mkHead(o.b), () => ok(null), bad); },
    vincl(o, ok, bad) { theLog(o).verifyInclusion(mkHead(o.head), { getLeafHash: () => bin(o.leaf) }, () => ok(null), bad); },
    vsupp(o, ok, bad) {
        theLog(o).verifySuppliedInclusionProof(mkHead(o.held), new LogInclusionProof(bin(o.leaf), o.pn, o.i, o.path.map(bin)), h => ok(headRec(h)), bad);
    },
    audit(o, ok, bad) {
        let k = 0;
        const cbs = [];
        theLog(o).verifyEntries(mkHead(o.prev), mkHead(o.head), factory(o.f), (i, e) => {
            k++;
            cbs.push([i, hex(e.getLeafHash())]);
            if (k === o.stop) { throw 'stop'; }
        }, () => ok(null), bad);
        return () => cbs;
    },
    entry(o, ok, bad) { theLog(o).getEntry(o.i, factory(o.f), e => ok([entRec(e)]), bad); },
    entries(o, ok, bad) {
        const rv = [];
        theLog(o).getEntries(o.i, o.j, factory(o.f), (i, e) => rv.push(Object.assign(entRec(e), { i: i })), () => ok(rv), bad);
    },
    add(o, ok, bad) {
        const e = mkEntry(o.e);
        theLog(o).add(e, r => ok({ lh: hex(r.getLeafHash()), own: e.getLeafHash ? hex(e.getLeafHash()) : '' }), bad);
    },
    set(o, ok, bad) { theMap(o).setValue(bin(o.k), mkEntry(o.e), r => ok({ lh: hex(r.getLeafHash()) }), bad); },
    del(o, ok, bad) { theMap(o).deleteValue(bin(o.k), r => ok({ lh: hex(r.getLeafHash()) }), bad); },
    mhead(o, ok, bad) { theMap(o).getTreeHead(o.want, h => ok({ r: hex(h.getRootHash()), m: headRec(h.getMutationLogTreeHead()) }), bad); },
    vstate(o, ok, bad) {
        if (o.latest) { theMap(o).getVerifiedLatestMapState(mkState(o.held), s => ok(stateRec(s)), bad); } else { theMap(o).getVerifiedMapState(mkState(o.held), o.want, s => ok(stateRec(s)), bad); }
    },
    vget(o, ok, bad) { theMap(o).getVerifiedValue(bin(o.k), mkState(o.held), factory(o.f), e => ok(entRec(e)), bad); },
    block(o, ok, bad) { theLog(o).blockUntilPresent({ getLeafHash: () => bin(o.leaf) }, h => ok(headRec(h)), bad); },
    mblock(o, ok, bad) { theMap(o).blockUntilSize(o.want, h => ok({ r: hex(h.getRootHash()), m: headRec(h.getMutationLogTreeHead()) }), bad); },
    made(o, ok) { const e = factory(o.f).createFromLeafData(JSON.parse(utf(o.b))); ok(entRec(e)); },
    own(o, ok) { ok({ lh: hex(mkEntry(o.e).getLeafHash()) }); },
    path(o, ok) { ok(constructKeyPath(bin(o.k)).map(b => b ? '1' : '0').join('')); },
};
function run(o) {
    const calls = [], thrown = [];
    tasks = []; timers = []; now = 0;
    let extra = null, steps = 0, waiting = false;
    const safe = f => { try { return f(); } catch (e) { thrown.push(String(e)); } };
    extra = safe(() => ops[o.op](o, v => calls.push(['OK', v]), r => calls.push(['FAIL', String(r)])));
    while (tasks.length || timers.length) {
        if (++steps > (o.steps || 1000)) { waiting = true; break; }
        if (tasks.length) { const t = tasks.shift(); safe(t); continue; }
        timers.sort((a, b) => a.at - b.at || a.id - b.id);
        const t = timers.shift();
        now = t.at;
        safe(t.f);
    }
    return { calls: calls, thrown: thrown, waiting: waiting, extra: typeof extra === 'function' ? extra() : null, now: now };
}
vm.runInThisContext(JSON.parse(readLine()), { filename: 'continusec.js' });
for (;;) { say({ done: run(JSON.parse(readLine())) }); }
