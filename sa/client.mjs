// The most general client: drives the public API over unknown values, and judges obligations at the API boundary.
import {
	M, Many, Ref, State, Sym, X, Budget, JSThrow, PathDead, PathStop, Unsupported, assumeEq, assumeMask, assumeNe, assumeTruthy, choose, concat, constants, effect, eq3, explore, fact, fmtLoc,
	freshSym, given, isConst, isMany, isMask, isRef, isSym, maskOf, mk, named, rd, resolve, same, show, truthy, truthy3, wr
} from './core.mjs'
import {
	NOEXPORT, arrElems, call, construct, del, drain, fulfill, get, hasOwn, hasProp, iterate, lookupExport, mkArray, mkNative, mkObject, mkPromise, ownKeys, rejectP, resolveP, set, subscribe, throwErr, R
} from './interp.mjs'
import { initRealm, mkStorage } from './realm.mjs'
import { modelModule } from './models.mjs'
import { sampled } from './sample.mjs'
import { REPO, literals, packages, workspaceEntry } from './modules.mjs'

/** terms whose operator is a modelled builtin; two different ones may still denote equal values */
const FREE_OPS = /^(var:|fresh:|ret:|err:|new:|sel$|resolved$|rejection$|keyIn$|elemOf$|stored$|wordpart$|sentenceCase$)/
function isFree(v) {
	v = resolve(v)
	if (!isSym(v)) return true
	if (v.atom) return true
	if (v.op === 'str') return v.args.every(isFree)
	return FREE_OPS.test(v.op) && (v.op === 'wordpart' || v.args.every(a => isConst(a) || isFree(a)))
}
/** verdict on "a is b": true | false | 'unknown' */
export function verdict(a, b) {
	const e = eq3(a, b)
	if (e !== null) return e
	if (!isFree(a) && !isFree(b)) return 'unknown'
	const s = sampled(a, b)
	return s && !s.differs ? 'unknown' : false // a model of the facts separates them
}

class Missing extends Error {}

function record(kind, msg, detail, loc) {
	if (kind === 'bad' && sampled()?.feasible === false) kind = 'unknown'
	;(X.run.obls ??= []).push({ kind, msg, detail, loc: loc ?? X.lastEntry ?? X.loc, path: X.S.path.slice(), taint: X.S.taint.slice(), trace: X.S.trace.length })
}

export const I = {
	/** thorough tier: longer histories, more clients */
	deep: false,
	M, show, resolve, rd, eq3, isRef, isSym, isMany, isConst, maskOf, concat, named,
	// -- values
	/** unknown value distinct from every other */
	atom(name, mask = M.ALL, o = {}) {
		return mk(`var:atom ${name}:${mask}`, [], { name, atom: true, mask, thenable: false, ...o })
	},
	/** unknown value, possibly equal to others */
	val(name, mask = M.ALL, o = {}) {
		return mk(`var:${name}:${mask}`, [], { name, mask, thenable: false, ...o })
	},
	/** a value that is neither undefined/null, nor a function, nor a promise */
	str(name, o = {}) {
		return named(name, { mask: M.STR, ...o })
	},
	/** an unknown nonempty string of characters matching chars */
	word(name, chars = /[A-Za-z0-9]/) {
		const w = mk(`var:word ${name}:${chars}`, [], { name, mask: M.STR, word: chars, atom: false, thenable: false })
		assumeTruthy(w, true)
		return w
	},
	/** a nonempty string key that is not a member of Object.prototype */
	key(name) {
		const k = named(`key ${name}`, { mask: M.STR, atom: true })
		assumeTruthy(k, true)
		assumeTruthy(mk('isObjectPrototypeKey', [k], { mask: M.BOO }), false)
		return k
	},
	fresh(name, mask = M.ALL, o = {}) {
		return freshSym(name, { mask, thenable: false, ...o })
	},
	obj(props = {}, proto) {
		for (const v of Object.values(props)) given(v)
		return mkObject(props, proto)
	},
	/** replaces a plain property of a client's object */
	setp(o, k, v) {
		given(v)
		wr(o).props.set(k, { ...rd(o).props.get(k), v })
	},
	/** adds a plain property to a client's object */
	setp2(o, k, v) {
		given(v)
		wr(o).props.set(k, { v, e: true })
	},
	arr(segs) {
		segs.forEach(given)
		return mkArray(segs)
	},
	many(rep, tag) {
		return new Many(rep, tag)
	},
	storage(name, o) {
		return mkStorage(name, o)
	},
	/** function supplied by the client; its calls are observable */
	fn(name, impl) {
		const f = mkNative(name, function* (th, args) {
			const e = effect({ t: 'call', fn: f, name, this: th, args: args.slice(), ret: undefined })
			const r = impl ? yield* impl(args, th) : freshSym(`result of ${name}`, { thenable: false })
			e.ret = r
			return r
		})
		wr(f).client = true
		return f
	},
	*throw(v) {
		throw new JSThrow(v, X.loc)
	},
	// -- program
	*imp(pkg, name, sub = '.') {
		const p = packages.get(pkg)
		if (!p) throw new Missing(`package ${pkg} is gone`)
		const file = workspaceEntry(p, sub)
		if (!file) throw new Missing(`package ${pkg} has no entry ${sub}`)
		const v = yield* lookupExport(file, name)
		if (v === NOEXPORT) throw new Missing(`${pkg}${sub === '.' ? '' : sub.slice(1)} no longer exports ${name}`)
		return resolve(v)
	},
	/** a host object of the browser */
	global(name) {
		return resolve(rd(X.S.g.globalThis).props.get(name)?.v)
	},
	*model(spec, name) {
		return resolve(yield* get(yield* modelModule(spec), name))
	},
	*call(f, ...args) {
		args.forEach(given)
		f = resolve(f)
		if (isRef(f) && rd(f).node) X.lastEntry = rd(f).node
		return resolve(yield* call(f, undefined, args))
	},
	*m(o, name, ...args) {
		args.forEach(given)
		const f = resolve(yield* get(o, name))
		if (isRef(f)) {
			let g = f
			while (rd(g).kind === 'bound') g = rd(g).target
			if (isRef(g) && rd(g).node) X.lastEntry = rd(g).node
		}
		return resolve(yield* call(f, resolve(o), args))
	},
	*new(c, ...args) {
		args.forEach(given)
		return yield* construct(c, args)
	},
	*get(o, ...keys) {
		let v = resolve(o)
		for (const k of keys) v = resolve(yield* get(v, k))
		return v
	},
	*set(o, k, v) {
		given(k)
		given(v)
		return yield* set(o, k, v)
	},
	del,
	*whenSettled(p, f) {
		yield* subscribe(p, f, f)
	},
	*fulfill0(p, v) {
		given(v)
		yield* resolveP(p, v)
	},
	*reject0(p, v) {
		rejectP(p, v)
	},
	*elems(a) {
		return (yield* iterate(a)).map(x => (isMany(x) ? x : resolve(x)))
	},
	*keys(o) {
		return yield* ownKeys(o, 'all')
	},
	hasOwn,
	hasProp,
	/** runs a client action; gives { threw, value } */
	*attempt(gen) {
		try {
			return { threw: false, value: resolve(yield* gen) }
		} catch (e) {
			if (!(e instanceof JSThrow)) throw e
			return { threw: true, value: resolve(e.value), loc: e.loc }
		}
	},
	// -- promises
	deferred() {
		return mkPromise()
	},
	*fulfill(p, v) {
		given(v)
		yield* resolveP(p, v)
		yield* drain({ settle: false })
	},
	*reject(p, v) {
		rejectP(p, v)
		yield* drain({ settle: false })
	},
	*drain(o = {}) {
		yield* drain({ settle: false, ...o })
	},
	isPromise(v) {
		v = resolve(v)
		return isRef(v) && rd(v).kind === 'promise'
	},
	/** { state: 'pending' | 'fulfilled' | 'rejected', value } after all reactions ran */
	*settle(v, o = {}) {
		let r = { state: 'pending', value: undefined }
		yield* subscribe(
			v,
			function* (x) {
				r = { state: 'fulfilled', value: resolve(x) }
			},
			function* (e) {
				r = { state: 'rejected', value: resolve(e) }
			}
		)
		yield* drain({ settle: false, ...o })
		return r
	},
	*await(v) {
		const r = yield* I.settle(v)
		if (r.state === 'fulfilled') return r.value
		if (r.state === 'rejected') throw new JSThrow(r.value, X.loc)
		throw new Unsupported('awaited promise stays pending')
	},
	// -- partitions
	choose(labels, why = 'client') {
		return choose(labels, why)
	},
	pick(labels, why = 'client') {
		return given(labels[choose(labels, why)])
	},
	assumeNe(a, b) {
		assumeNe(a, b)
	},
	assumeEq(a, b) {
		assumeEq(a, b)
	},
	assumeMask,
	assumeTruthy,
	truthy,
	/** no client does this: the path is dropped with all it judged */
	dead() {
		throw new PathDead()
	},
	/** the client goes no further: what it judged so far stands */
	stop() {
		throw new PathStop()
	},
	isMask,
	same,
	// -- observations
	mark() {
		return X.S.trace.length
	},
	/** effects since mark, loops flattened when asked */
	since(mark, pred = () => true) {
		return X.S.trace.slice(mark).filter(pred)
	},
	calls(mark, fn) {
		return X.S.trace.slice(mark).filter(e => e.t === 'call' && (fn === undefined || (Array.isArray(fn) ? fn.some(f => e.fn === f) : e.fn === fn)))
	},
	logs(mark, methods) {
		return X.S.trace.slice(mark).filter(e => e.t === 'log' && (!methods || methods.includes(e.method)))
	},
	// -- obligations
	ok(cond, msg, detail = '') {
		record(cond === true ? 'ok' : cond === 'unknown' ? 'unknown' : 'bad', msg, cond === true ? '' : detail)
		return cond === true
	},
	eq(a, b, msg) {
		const v = verdict(a, b)
		record(v === true ? 'ok' : v === 'unknown' ? 'unknown' : 'bad', msg, v === true ? '' : `got ${show(a)}, expected ${show(b)}`)
		return v === true
	},
	ne(a, b, msg) {
		const e = eq3(a, b)
		record(e === false ? 'ok' : 'bad', msg, e === false ? '' : `got ${show(a)}, which may be ${show(b)}`)
		return e === false
	},
	/** the elements of array a are exactly list */
	*list(a, list, msg) {
		a = resolve(a)
		if (!isRef(a)) return I.ok(false, msg, `got ${show(a)}`)
		const es = yield* I.elems(a)
		return I.listEq(es, list, msg)
	},
	listEq(es, list, msg) {
		const s = l => `[${l.map(show).join(', ')}]`
		if (es.length !== list.length) return I.ok(false, msg, `got ${s(es)}, expected ${s(list)}`)
		for (let i = 0; i < es.length; i++) {
			const v = isMany(es[i]) !== isMany(list[i]) ? false : isMany(es[i]) ? verdict(es[i].rep, list[i].rep) : verdict(es[i], list[i])
			if (v !== true) return I.ok(v, msg, `got ${s(es)}, expected ${s(list)}`)
		}
		return I.ok(true, msg)
	},
	/** same elements, any order */
	bagEq(es, list, msg) {
		const s = l => `[${l.map(show).join(', ')}]`
		const rest = list.slice()
		for (const e of es) {
			const i = rest.findIndex(x => (isMany(e) ? isMany(x) && verdict(e.rep, x.rep) === true : !isMany(x) && verdict(e, x) === true))
			if (i < 0) return I.ok(false, msg, `got ${s(es)}, expected in some order ${s(list)}`)
			rest.splice(i, 1)
		}
		return I.ok(!rest.length, msg, `got ${s(es)}, expected in some order ${s(list)}`)
	},
	unsupported(msg) {
		throw new Unsupported(msg)
	},
	fail(msg, detail) {
		record('bad', msg, detail ?? '')
	}
}

let realmState = null
function freshRealm() {
	if (realmState) return realmState
	for (const c of literals()) constants.add(c)
	const S = new State()
	X.S = S
	initRealm()
	X.S = null
	realmState = S
	return S
}

/**
 * theorem: { name, stages: [gen(I, prev)] } ; every stage is explored from every outcome of the one before it.
 * returns { violations, undecided, obligations, discharged, partitions }
 */
export function prove(theorem, opts = {}) {
	const res = { name: theorem.name, violations: [], undecided: [], obligations: 0, discharged: 0, partitions: 0, samples: [] }
	const take = (o, last, next) => {
		for (const b of o.obls ?? []) {
			res.obligations++
			if (b.kind === 'ok') {
				res.discharged++
				if (res.samples.length < 2) res.samples.push(`${b.msg} | ${b.path.map(p => p.label).slice(-4).join('; ') || 'unconditional'}`)
			} else if (b.kind === 'unknown' || b.taint.length) res.undecided.push({ reason: b.taint[0] ?? `equality of builtin results: ${b.detail}`, msg: b.msg, loc: b.loc })
			else res.violations.push(b)
		}
		if (o.kind === 'throw') {
			res.obligations++
			const d = errText(o)
			if (o.S.taint.length) res.undecided.push({ reason: o.S.taint[0], msg: `throws ${d}`, loc: o.loc })
			else if (ruledOut(o.S)) res.undecided.push({ reason: 'conditions about positions no sampled text satisfies', msg: `throws ${d}`, loc: o.loc })
			else res.violations.push({ msg: 'the operation completes without an unexpected exception', detail: `throws ${d}`, loc: o.loc, path: o.S.path })
		} else if (o.kind === 'unsupported') res.undecided.push({ reason: o.reason, msg: 'construct outside the analysed language', loc: o.loc })
		else if (!last && o.kind !== 'stop') next.push({ S: o.S, ...o.value })
		if (last) res.partitions++
	}
	I.deep = opts.tier === 'thorough'
	let states = [{ S: freshRealm(), val: undefined, last: null }]
	const stages = theorem.stages
	X.budget.used = 0
	X.budget.deadline = Math.min(Date.now() + 1000 * (opts.seconds ?? 90), opts.end ?? Infinity)
	try {
		for (let si = 0; si < stages.length; si++) {
			const next = []
			for (const st of states) {
				X.logOn = theorem.logOn
				let spent = null
				let outs
				try {
					outs = explore(
						st.S,
						() => {
							X.depth = 0
							X.steps = 0
							X.lastEntry = st.last
							return (function* () {
								const val = yield* stages[si](I, st.val)
								return { val, last: X.lastEntry }
							})()
						},
						// states at the end are not needed any more
						{ limit: opts.limit ?? theorem.limit ?? 20000, sink: si === stages.length - 1 ? o => take(o, true, next) : undefined }
					)
				} catch (e) {
					if (!(e instanceof Budget)) throw e
					spent = e
					outs = e.outs ?? []
				}
				for (const o of outs) take(o, si === stages.length - 1, next)
				if (spent) throw spent
			}
			states = next
		}
	} catch (e) {
		if (e instanceof Missing) {
			res.obligations++
			res.violations.push({ msg: 'the analysed entry point exists', detail: e.message, loc: null, path: [] })
		} else if (e instanceof Budget) res.undecided.push({ reason: e.message, msg: 'budget', loc: null })
		else throw e
	}
	if (!res.obligations && !res.violations.length && !res.undecided.length) throw new Error(`theorem ${theorem.name} has no obligations`)
	return res
}
function ruledOut(S) {
	const saved = X.S
	X.S = S
	try {
		return sampled()?.feasible === false
	} finally {
		X.S = saved
	}
}
function errText(o) {
	const saved = X.S
	X.S = o.S
	try {
		const v = resolve(o.value)
		if (isRef(v)) {
			const x = rd(v)
			const m = x.props?.get('message')?.v
			return `${x.name ?? x.cls ?? x.kind}${m !== undefined ? ` (${show(m)})` : ''}`
		}
		return show(v)
	} finally {
		X.S = saved
	}
}
export function locText(loc) {
	if (!loc) return '?'
	if (typeof loc === 'string') return loc
	const name = enclosing(loc)
	return `${fmtLoc(loc).replace(`${REPO}/`, '')}${name ? ` (in ${name})` : ''}`
}
function enclosing(n) {
	while (n) {
		if (n.name?.text) return n.name.text
		n = n.parent
	}
	return ''
}
