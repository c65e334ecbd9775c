import { setFlagsFromString } from 'node:v8'
import { runInNewContext } from 'node:vm'
// Abstract domain of the analyser: values, facts, heap, trace partitions.
//
// Value  ::= JS primitive (constant) | Sym (value number: unknown value with provenance) | Ref (heap object)
// State  ::= heap (objects, scopes) x facts (per value number) x effect trace x partition path
// Partitions are split at branches whose condition the domain does not decide, and merged at loop heads.

export const M = { UND: 1, NUL: 2, BOO: 4, NUM: 8, BIG: 16, STR: 32, SYM: 64, FUN: 128, OBJ: 256, ALL: 511 }
M.PRIM = 127
M.NULLISH = 3
M.REF = 384
const MASK_NAME = { 1: 'undefined', 2: 'object', 4: 'boolean', 8: 'number', 16: 'bigint', 32: 'string', 64: 'symbol', 128: 'function', 256: 'object' }

export class Sym {
	constructor(id, op, args, opts = {}) {
		this.id = id
		this.op = op
		this.args = args
		this.mask = opts.mask ?? M.ALL
		this.atom = !!opts.atom // distinct from every other value by construction of the client
		this.name = opts.name
		this.opts = opts
	}
}
export class Ref {
	constructor(id) {
		this.id = id
	}
}
/** zero or more elements, all described by `rep` */
export class Many {
	constructor(rep, tag) {
		this.rep = rep
		this.tag = tag
	}
}
export const isSym = v => v instanceof Sym
export const isRef = v => v instanceof Ref
export const isMany = v => v instanceof Many
export const isConst = v => !(v instanceof Sym || v instanceof Ref || v instanceof Many)

export class PathDead extends Error {}
/** the client stops here; what it judged so far stands */
export class PathStop extends Error {}
export class Unsupported extends Error {}
export class Budget extends Error {}
export class JSThrow extends Error {
	constructor(value, loc) {
		super('analysed program throws')
		this.value = value
		this.loc = loc
	}
}

const refs = []
export function ref(id) {
	return (refs[id] ??= new Ref(id))
}

const terms = new Map()
const byId = new Map()
let nextTerm = 1
const symIds = new Map()
function jsSymId(s) {
	if (!symIds.has(s)) symIds.set(s, symIds.size + 1)
	return symIds.get(s)
}
export function keyOf(v) {
	if (isSym(v)) return `$${v.id}`
	if (isRef(v)) return `@${v.id}`
	if (isMany(v)) return `*${keyOf(v.rep)}`
	if (typeof v === 'string') return `s${JSON.stringify(v)}`
	if (typeof v === 'symbol') return `y${jsSymId(v)}`
	if (Object.is(v, -0)) return 'n-0'
	return `${typeof v}:${String(v)}`
}
/** hash-consed pure term: same operation on same operands is the same value number */
export function mk(op, args, opts) {
	const k = `${op}(${args.map(keyOf).join(',')})`
	let t = terms.get(k)
	if (!t) {
		t = new Sym(nextTerm++, op, args, opts)
		terms.set(k, t)
		byId.set(t.id, t)
	}
	return t
}
export function termById(id) {
	return byId.get(id)
}
/** named unknown; the name identifies it */
export function named(name, opts = {}) {
	return mk(`var:${name}`, [], { ...opts, name })
}

// ---------------------------------------------------------------- state

export const X = {
	S: null, // current state
	run: null, // current partition run
	loc: null, // current AST location
	stats: { partitions: 0, calls: new Set(), callSites: new Set(), indirect: new Map(), dynamic: new Set(), branches: 0, opaque: 0, effects: 0, joins: 0, loops: 0 },
	budget: { partitions: 60000, used: 0, deadline: Infinity, heap: 2.2e9 },
	steps: 0
}

let nextEpoch = 1
export class State {
	constructor() {
		this.ep = nextEpoch++
		this.heap = new Map()
		this.facts = new Map()
		this.trace = []
		this.path = []
		this.nextId = 1
		this.fresh = 0
		this.queue = []
		this.opaque = [] // reactions on opaque thenables
		this.taint = []
		this.g = {} // named roots
		this.mods = {} // module id -> scope id
		this.given = new Set() // constants the client uses
	}
	clone() {
		const s = new State()
		s.heap = new Map(this.heap)
		s.facts = new Map(this.facts)
		s.trace = this.trace.slice()
		s.path = this.path.slice()
		s.nextId = this.nextId
		s.fresh = this.fresh
		s.queue = this.queue.slice()
		s.opaque = this.opaque.slice()
		s.taint = this.taint.slice()
		s.g = { ...this.g }
		s.mods = { ...this.mods }
		s.given = this.given
		return s
	}
}

function cloneObj(o, ep) {
	const c = { ...o, ep }
	if (o.props) c.props = new Map(o.props)
	if (o.dyn) c.dyn = o.dyn.map(d => ({ ...d }))
	if (o.segs) c.segs = o.segs.slice()
	if (o.vars) c.vars = new Map(o.vars)
	if (o.entries) c.entries = o.entries.map(e => ({ ...e }))
	if (o.reactions) c.reactions = o.reactions.slice()
	if (o.data) c.data = { ...o.data }
	return c
}
export function rd(r) {
	const o = X.S.heap.get(isRef(r) ? r.id : r)
	if (!o) throw new Error(`dangling ref ${isRef(r) ? r.id : r}`)
	return o
}
export function wr(r) {
	const id = isRef(r) ? r.id : r
	const o = X.S.heap.get(id)
	if (!o) throw new Error(`dangling ref ${id}`)
	if (o.ep === X.S.ep) return o
	const c = cloneObj(o, X.S.ep)
	X.S.heap.set(id, c)
	return c
}
export function alloc(o) {
	const id = X.S.nextId++
	o.ep = X.S.ep
	o.site ??= X.loc
	X.S.heap.set(id, o)
	return ref(id)
}
export function freshSym(name, opts = {}) {
	const n = ++X.S.fresh
	return mk(`fresh:${name}#${n}`, [], { ...opts, name: `${name}#${n}` })
}

// ---------------------------------------------------------------- exploration of partitions

export function choose(labels, why) {
	const n = typeof labels === 'number' ? labels : labels.length
	if (n <= 1) return 0
	const r = X.run
	let c
	if (r.i < r.prefix.length) c = r.prefix[r.i]
	else {
		c = 0
		for (let k = n - 1; k >= 1; k--) r.alts.push([...r.taken, k])
	}
	r.i++
	r.taken.push(c)
	X.stats.branches++
	X.S.path.push({ why, label: typeof labels === 'number' ? String(c) : labels[c], loc: X.loc })
	return c
}

/** Time and memory left for this theorem: an exhausted budget is an undecided theorem, never an alarm. */
export function overBudget(n) {
	if (Date.now() > X.budget.deadline) return 'time budget exhausted'
	if ((n & 31) === 0 && process.memoryUsage().heapUsed > X.budget.heap && collected() > X.budget.heap) return 'memory budget exhausted'
	return null
}
let gc
/** the memory still in use once what is garbage is collected */
function collected() {
	if (!gc) {
		setFlagsFromString('--expose-gc')
		gc = runInNewContext('gc')
	}
	gc()
	return process.memoryUsage().heapUsed
}

/** Analyses `body` (generator) from `base` over every partition. */
export function explore(base, body, opts = {}) {
	const saved = { S: X.S, run: X.run, loc: X.loc }
	const work = [[]]
	const out = []
	let n = 0
	while (work.length) {
		const prefix = work.pop()
		X.stats.partitions++
		const over = ++n > (opts.limit ?? 20000) || ++X.budget.used > X.budget.partitions ? 'partition budget exhausted' : overBudget(n)
		if (over) {
			X.S = saved.S
			X.run = saved.run
			X.loc = saved.loc
			const e = new Budget(over)
			e.local = n > (opts.limit ?? 20000)
			e.outs = out // what the partitions analysed so far showed still counts
			throw e
		}
		X.S = base.clone()
		X.run = { prefix, i: 0, taken: [], alts: [] }
		let o
		try {
			const it = body()
			const r = it.next()
			if (!r.done) throw new Unsupported('await outside async context')
			o = { kind: 'ok', value: r.value }
		} catch (e) {
			if (e instanceof PathDead) o = null
			else if (e instanceof PathStop) o = { kind: 'stop' }
			else if (e instanceof JSThrow) o = { kind: 'throw', value: e.value, loc: e.loc }
			else if (e instanceof Unsupported) o = { kind: 'unsupported', reason: e.message, loc: X.loc }
			else {
				const err = e
				X.S = saved.S
				X.run = saved.run
				if (err instanceof Budget) {
					err.outs = out
					err.local = false
				}
				throw err
			}
		}
		for (const a of X.run.alts) work.push(a)
		if (o) {
			o.S = X.S
			o.obls = X.run.obls
			if (opts.sink) opts.sink(o)
			else out.push(o)
		}
	}
	X.S = saved.S
	X.run = saved.run
	X.loc = saved.loc
	return out
}

// ---------------------------------------------------------------- facts

export function fact(s) {
	return X.S.facts.get(s.id)
}
function setFact(s, f) {
	X.S.facts.set(s.id, { ...(X.S.facts.get(s.id) ?? {}), ...f })
}
export function resolve(v) {
	while (isSym(v)) {
		const f = X.S.facts.get(v.id)
		if (f && 'sub' in f) v = f.sub
		else break
	}
	return v
}
export function maskOf(v) {
	v = resolve(v)
	if (isSym(v)) return fact(v)?.mask ?? v.mask
	if (isRef(v)) {
		const o = rd(v)
		return o.kind === 'function' || o.kind === 'native' || o.kind === 'bound' || (o.kind === 'proxy' && o.callable) ? M.FUN : M.OBJ
	}
	return constMask(v)
}
export function constMask(v) {
	if (v === null) return M.NUL
	switch (typeof v) {
		case 'undefined': return M.UND
		case 'boolean': return M.BOO
		case 'number': return M.NUM
		case 'bigint': return M.BIG
		case 'string': return M.STR
		case 'symbol': return M.SYM
	}
	throw new Error(`not a constant: ${String(v)}`)
}
export function typeNames(mask) {
	return [...new Set(Object.keys(MASK_NAME).map(Number).filter(b => mask & b).map(b => MASK_NAME[b]))]
}
export function typeofMask(name) {
	switch (name) {
		case 'undefined': return M.UND
		case 'object': return M.OBJ | M.NUL
		case 'boolean': return M.BOO
		case 'number': return M.NUM
		case 'bigint': return M.BIG
		case 'string': return M.STR
		case 'symbol': return M.SYM
		case 'function': return M.FUN
	}
	return 0
}
/** constrain the type of v; dead partition when impossible */
export function assumeMask(v, mask) {
	v = resolve(v)
	if (!isSym(v)) {
		if (!(maskOf(v) & mask)) throw new PathDead()
		return
	}
	const m = maskOf(v) & mask
	if (!m) throw new PathDead()
	const f = { mask: m }
	const old = fact(v)
	if (m === M.UND) f.sub = undefined
	else if (m === M.NUL) f.sub = null
	if (old?.truthy === true && !(m & ~M.NULLISH)) throw new PathDead()
	if (old?.ne && 'sub' in f && old.ne.some(x => Object.is(resolve(x), f.sub))) throw new PathDead()
	setFact(v, f)
}
/** decide membership of v's type in mask, splitting when unknown */
export function isMask(v, mask, why) {
	const m = maskOf(v)
	if (!(m & ~mask)) return true
	if (!(m & mask)) return false
	const c = choose([`${show(v)} is ${typeNames(mask).join('|')}`, `${show(v)} is not ${typeNames(mask).join('|')}`], why ?? 'type')
	assumeMask(v, c === 0 ? mask : M.ALL & ~mask)
	return c === 0
}
export function truthy3(v) {
	v = resolve(v)
	if (isRef(v)) return true
	if (!isSym(v)) return !!v
	const f = fact(v)
	if (f?.truthy !== undefined) return f.truthy
	const m = maskOf(v)
	if (!(m & ~M.NULLISH)) return false
	if (!(m & ~(M.REF | M.SYM))) return true
	if (v.op === 'str' && v.args.some(a => (typeof a === 'string' ? a.length : truthy3(a) === true))) return true
	if (v.op === 'JSON.stringify') return true
	return null
}
export function assumeTruthy(v, b) {
	v = resolve(v)
	const t = truthy3(v)
	if (t !== null) {
		if (t !== b) throw new PathDead()
		return
	}
	const m = maskOf(v)
	if (b) {
		const nm = m & ~M.NULLISH
		if (!nm) throw new PathDead()
		if (nm === M.BOO) return void setFact(v, { sub: true })
		setFact(v, { mask: nm, truthy: true })
	} else {
		const nm = m & ~(M.REF | M.SYM)
		if (!nm) throw new PathDead()
		const f = { mask: nm, truthy: false }
		if (nm === M.UND) f.sub = undefined
		else if (nm === M.NUL) f.sub = null
		else if (nm === M.BOO) f.sub = false
		else if (nm === M.STR) f.sub = ''
		if ('sub' in f && fact(v)?.ne?.some(x => Object.is(resolve(x), f.sub))) throw new PathDead()
		setFact(v, f)
	}
}
/** the term leaves open what the shape of its (composed) arguments decides: a question about it is no finding */
export function isVague(v) {
	v = resolve(v)
	return isSym(v) && (!!v.opts?.vague || v.args.some(a => isSym(a) && isVague(a)))
}
export function truthy(v, why) {
	const t = truthy3(v)
	if (t !== null) return t
	if (isVague(v)) taint(`outcome of ${show(v)}`)
	const c = choose([`${show(v)} is truthy`, `${show(v)} is falsy`], why ?? 'condition')
	assumeTruthy(v, c === 0)
	return c === 0
}

/** text made of the type names of unknowns: one partition for every name */
export function settleTypes(v) {
	v = resolve(v)
	if (!isSym(v) || !strParts(v).some(p => isSym(p) && p.op === 'typeof')) return v
	return concat(
		...strParts(v).map(p => {
			if (!isSym(p) || p.op !== 'typeof') return p
			const names = ['function', 'object', 'undefined', 'string', 'number', 'boolean', 'symbol']
			return names.find(n => isMask(p.args[0], typeofMask(n), 'typeof')) ?? 'bigint'
		})
	)
}

// string terms -------------------------------------------------------------

export function strParts(v) {
	v = resolve(v)
	if (isSym(v) && v.op === 'str') return v.args.flatMap(a => (isSym(a) ? strParts(a) : [a]))
	return [v]
}
export function toStr(v) {
	v = resolve(v)
	if (isSym(v)) {
		if (!(maskOf(v) & ~M.STR)) return v
		return mk('String', [v], { mask: M.STR })
	}
	if (isRef(v)) return mk('String', [v], { mask: M.STR })
	if (typeof v === 'symbol') return mk('String', [v], { mask: M.STR })
	return String(v)
}
export function concat(...vs) {
	const parts = []
	for (const v of vs)
		for (const p of strParts(toStr(v))) {
			if (typeof p === 'string' && typeof parts[parts.length - 1] === 'string') parts[parts.length - 1] += p
			else if (p !== '') parts.push(p)
		}
	if (parts.length === 0) return ''
	if (parts.length === 1) return parts[0]
	return mk('str', parts, { mask: M.STR })
}
/** strip equal leading (or trailing) parts; returns [restA, restB, 'diff' | null] */
function strip(a, b, rev) {
	a = a.slice()
	b = b.slice()
	if (rev) {
		a.reverse()
		b.reverse()
	}
	while (a.length && b.length) {
		const x = resolve(a[0])
		const y = resolve(b[0])
		if (isSym(x) || isSym(y)) {
			if (x === y) {
				a.shift()
				b.shift()
				continue
			}
			break
		}
		const n = Math.min(x.length, y.length)
		const [px, py] = rev ? [x.slice(x.length - n), y.slice(y.length - n)] : [x.slice(0, n), y.slice(0, n)]
		if (px !== py) return [a, b, 'diff']
		const [rx, ry] = rev ? [x.slice(0, x.length - n), y.slice(0, y.length - n)] : [x.slice(n), y.slice(n)]
		if (rx) a[0] = rx
		else a.shift()
		if (ry) b[0] = ry
		else b.shift()
	}
	if (rev) {
		a.reverse()
		b.reverse()
	}
	return [a, b, null]
}
function possiblyEmpty(parts) {
	return parts.every(p => isSym(resolve(p)) || resolve(p) === '') && parts.every(p => truthy3(p) !== true)
}
export function strEq3(a, b) {
	let [x, y, d] = strip(strParts(a), strParts(b))
	if (d) return false
	;[x, y, d] = strip(x, y, true)
	if (d) return false
	if (!x.length && !y.length) return true
	if (!x.length && !possiblyEmpty(y)) return false
	if (!y.length && !possiblyEmpty(x)) return false
	// what is left is one unknown on each side: as different as those are (top-level questions about the symbols themselves end before here)
	if (x.length === 1 && y.length === 1 && (strParts(a).length > 1 || strParts(b).length > 1)) {
		const [u, v] = [resolve(x[0]), resolve(y[0])]
		if (isSym(u) && isSym(v) && eq3(u, v) === false) return false
	}
	const c = cuts(a, b)
	if (c === null) return null
	if (c === false) return false
	const t = c.heads === false ? false : eq3(c.tails[0], c.tails[1])
	return c.heads === true ? t : c.heads === false || t === false ? false : null
}
/** the text before and after the first ch, when that is known: every unknown before it is a word without ch */
function cutAt(parts, ch) {
	const head = []
	for (let i = 0; i < parts.length; i++) {
		const p = resolve(parts[i])
		if (typeof p === 'string') {
			const j = p.indexOf(ch)
			if (j >= 0) return [concat(...head, p.slice(0, j)), concat(p.slice(j + 1), ...parts.slice(i + 1))]
			head.push(p)
		} else {
			if (!p.opts?.word || p.opts.word.test(ch)) return null
			head.push(p)
		}
	}
	return 'none'
}
/** compares two texts at a separator that no word before it contains; null: no such separator, false: only one has it */
function cuts(a, b, starts) {
	const [x, y] = [strParts(a), strParts(b)]
	const chars = new Set([...x, ...y].filter(p => typeof p === 'string').flatMap(p => [...p]).filter(c => /\W/.test(c)))
	for (const ch of chars) {
		const [m, n] = [cutAt(x, ch), cutAt(y, ch)]
		if (m === null || n === null) continue
		if (m === 'none' && n === 'none') continue
		if (m === 'none') return false
		if (n === 'none') return starts ? null : false
		return { heads: eq3(m[0], n[0]), tails: [m[1], n[1]] }
	}
	return null
}
export function startsWith3(a, p) {
	const [x, y, d] = strip(strParts(a), strParts(p))
	if (d) return false
	if (!y.length) return true
	if (!x.length && !possiblyEmpty(y)) return false
	const c = cuts(a, p, true)
	if (c === false) return false
	if (c === null || c.heads === null) return null
	return c.heads ? startsWith3(c.tails[0], c.tails[1]) : false
}
export function endsWith3(a, p) {
	const [x, y, d] = strip(strParts(a), strParts(p), true)
	if (d) return false
	if (!y.length) return true
	if (!x.length && !possiblyEmpty(y)) return false
	return null
}

/** least value of a number known to be a length (plus a constant), or null */
export function atLeast(n) {
	n = resolve(n)
	if (typeof n === 'number') return n
	if (!isSym(n)) return null
	if (n.op === 'len') {
		if (n.args.length > 1) return 0
		return strParts(n.args[0]).reduce((k, p) => k + (typeof p === 'string' ? p.length : isSym(p) && p.opts?.word ? 1 : 0), 0)
	}
	if (/^fresh:(index|i)#/.test(n.op)) return 0
	if (n.op === 'positionIn') return 1
	if (n.op === '+' && typeof resolve(n.args[1]) === 'number') {
		const b = atLeast(n.args[0])
		return b === null ? null : b + resolve(n.args[1])
	}
	if (n.op === '-' && typeof resolve(n.args[1]) === 'number') {
		const b = atLeast(n.args[0])
		return b === null ? null : b - resolve(n.args[1])
	}
	return null
}

// equality -----------------------------------------------------------------

function neHas(s, v) {
	return fact(s)?.ne?.some(x => {
		const r = resolve(x)
		return r === v || (isConst(r) && isConst(v) && Object.is(r, v))
	})
}
/** SameValue, three-valued */
/** constants the program names */
export const constants = new Set()
/** a value distinct from the client's others may still be a constant the program names, unless the client uses that itself */
function mayBeConst(c) {
	if (!constants.has(c) || X.S.given.has(c)) return false
	for (const f of X.S.facts.values()) if (f.atom && Object.is(f.sub, c)) return false
	return true
}
/** the client uses c: its other values are not c */
export function given(c) {
	if (!constants.has(c) || X.S.given.has(c)) return c
	for (const f of X.S.facts.values()) if (f.atom && Object.is(f.sub, c)) throw new PathDead()
	X.S.given = new Set(X.S.given).add(c)
	return c
}
export function eq3(a, b) {
	a = resolve(a)
	b = resolve(b)
	const ca = isConst(a)
	const cb = isConst(b)
	if (ca && cb) return Object.is(a, b)
	if (a === b) return true
	if (isRef(a) && isRef(b)) return false
	if (isRef(a) || isRef(b)) {
		const [r, o] = isRef(a) ? [a, b] : [b, a]
		if (isConst(o)) return false
		if (!(maskOf(r) & maskOf(o))) return false
		if (o.atom) return false
		if (neHas(o, r)) return false
		if (rd(r).secret) return false
		return null
	}
	if (!(maskOf(a) & maskOf(b))) return false
	const ta = truthy3(a)
	const tb = truthy3(b)
	if (ta !== null && tb !== null && ta !== tb) return false
	if (isSym(a) && isSym(b)) {
		if (a.atom && b.atom) return false
		if (neHas(a, b) || neHas(b, a)) return false
	} else {
		const [s, c] = isSym(a) ? [a, b] : [b, a]
		if (s.atom && !mayBeConst(c)) return false
		if (neHas(s, c)) return false
		if (s.op === 'typeof') {
			const [m, t] = [maskOf(s.args[0]), typeofMask(c)]
			return !(m & t) ? false : !(m & ~t) ? true : null
		}
		if (typeof c === 'number') {
			const lo = atLeast(s)
			if (lo !== null && c < lo) return false
		}
	}
	if (isSym(a) && isSym(b) && a.op === b.op && a.args.length && a.args.length === b.args.length && a.op !== 'str') {
		if (a.args.every((x, i) => eq3(x, b.args[i]) === true)) return true // congruence
	}
	if ((isSym(a) && a.op === 'str') || (isSym(b) && b.op === 'str')) {
		if (!((maskOf(a) | maskOf(b)) & ~M.STR)) return strEq3(a, b)
	}
	return null
}
export function assumeEq(a, b) {
	a = resolve(a)
	b = resolve(b)
	const e = eq3(a, b)
	if (e === true) return
	if (e === false) throw new PathDead()
	let [s, o] = isSym(a) ? [a, b] : [b, a]
	if (s.op === 'typeof' && isConst(o)) assumeMask(s.args[0], typeofMask(o))
	if (isSym(s) && isSym(o) && (s.atom || (o.op.startsWith('fresh:') && !s.op.startsWith('fresh:')))) [s, o] = [o, s]
	const fs = fact(s) ?? {}
	if (isSym(o)) {
		assumeMask(o, maskOf(s))
		if (isSym(resolve(o)) && (s.opts.thenable === false || fs.thenable === false)) setFact(o, { thenable: false })
		if (fs.truthy !== undefined) assumeTruthy(o, fs.truthy)
		for (const n of fs.ne ?? []) if (!isSym(resolve(o))) break; else assumeNe(o, n)
	}
	setFact(s, s.atom ? { sub: resolve(o), atom: true } : { sub: resolve(o) })
}
export function assumeNe(a, b) {
	a = resolve(a)
	b = resolve(b)
	const e = eq3(a, b)
	if (e === false) return
	if (e === true) throw new PathDead()
	for (const [s, o] of [[a, b], [b, a]]) {
		if (!isSym(s)) continue
		const f = fact(s) ?? {}
		setFact(s, { ne: [...(f.ne ?? []), o] })
		if (s.op === 'typeof' && isConst(o)) assumeMask(s.args[0], M.ALL & ~typeofMask(o))
		if (o === undefined) assumeMask(s, M.ALL & ~M.UND)
		else if (o === null) assumeMask(s, M.ALL & ~M.NUL)
		else if (typeof o === 'boolean' && maskOf(s) === M.BOO) setFact(s, { sub: !o })
		else if (o === '' && maskOf(s) === M.STR) setFact(s, { truthy: true })
	}
}
/** SameValue, splitting when unknown */
export function same(a, b, why) {
	const e = eq3(a, b)
	if (e !== null) return e
	if (isVague(a) || isVague(b)) taint(`whether ${show(a)} is ${show(b)}`)
	const c = choose([`${show(a)} is ${show(b)}`, `${show(a)} is not ${show(b)}`], why ?? 'equality')
	if (c === 0) assumeEq(a, b)
	else assumeNe(a, b)
	return c === 0
}
/** === : differs from SameValue on NaN (and signed zero, which the domain does not separate) */
export function strictEq(a, b) {
	a = resolve(a)
	b = resolve(b)
	if (isConst(a) && isConst(b)) return a === b
	if (a === b && !isSym(a)) return true
	const both = maskOf(a) & maskOf(b) & M.NUM
	if (both && isSym(a) && isSym(b)) {
		const e = eq3(a, b)
		if (e === false) return false
		const nanKnown = fact(a)?.notNaN || fact(b)?.notNaN || a.opts.notNaN || b.opts.notNaN
		if (e === true) {
			if (nanKnown) return true
			const c = choose([`${show(a)} is not NaN`, `${show(a)} is NaN`], '=== on a possibly NaN value')
			if (c === 1) {
				assumeMask(a, M.NUM)
				assumeEq(a, NaN)
				return false
			}
			setFact(a, { notNaN: true })
			return true
		}
		const labels = [`${show(a)} === ${show(b)}`, `${show(a)} !== ${show(b)}`]
		if (!nanKnown) labels.push(`${show(a)} and ${show(b)} are NaN`)
		const c = choose(labels, '===')
		if (c === 0) {
			assumeEq(a, b)
			const r = resolve(a)
			if (isSym(r)) setFact(r, { notNaN: true })
			return true
		}
		if (c === 1) {
			assumeNe(a, b)
			return false
		}
		assumeEq(a, NaN)
		assumeEq(b, NaN)
		return false
	}
	if (both && (Number.isNaN(a) || Number.isNaN(b))) return false
	return same(a, b, '===')
}

export function taint(reason) {
	const at = X.loc ? ` at ${fmtLoc(X.loc)}` : ''
	const t = `${reason}${at}`
	if (!X.S.taint.includes(t)) X.S.taint.push(t)
}
export function effect(e) {
	X.stats.effects++
	e.loc ??= X.loc
	X.S.trace.push(e)
	return e
}

export function fmtLoc(n) {
	if (!n) return '?'
	if (typeof n === 'string') return n
	const sf = n.getSourceFile()
	const { line, character } = sf.getLineAndCharacterOfPosition(n.getStart(sf))
	return `${sf.fileName.replace(/^\/repo\//, '')}:${line + 1}:${character + 1}`
}
let showDepth = 0
export function show(v) {
	if (X.S) v = resolve(v)
	if (isMany(v)) return `...${show(v.rep)}*`
	if (isRef(v)) {
		const o = X.S?.heap.get(v.id)
		if (!o) return `<ref ${v.id}>`
		if (o.name) return `<${o.kind} ${o.name}>`
		return `<${o.kind}${o.site && typeof o.site !== 'string' ? ` @${fmtLoc(o.site)}` : ''}>`
	}
	if (isSym(v)) {
		if (v.name) return `‹${v.name}›`
		if (showDepth > 4) return '‹…›'
		showDepth++
		try {
			if (v.op === 'str') return '`' + v.args.map(a => (isSym(a) ? '${' + show(a) + '}' : a)).join('') + '`'
			if (v.op === 'sel') return `${show(v.args[0])}[${show(v.args[1])}]`
			return `${v.op}(${v.args.map(show).join(', ')})`
		} finally {
			showDepth--
		}
	}
	if (typeof v === 'string') return JSON.stringify(v)
	return String(v)
}
