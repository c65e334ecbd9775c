// Models of third-party modules that are not analysed from source.
import { M, X, JSThrow, Unsupported, alloc, choose, effect, eq3, fact, freshSym, isConst, isMany, isMask, isRef, isSym, maskOf, mk, named, rd, resolve, show, taint, toStr, truthy, wr, keyOf } from './core.mjs'
import { sentenceArg } from './strdom.mjs'
import { R, call, finalize, get, hasOwn, isCallable, isDraftable, iterate, markModified, mkArray, mkDraft, mkNative, mkObject, ownKeys, set, throwErr, construct } from './interp.mjs'

export const NOTHING = Symbol('immer-nothing')
export const LEVELS = ['emergency', 'alert', 'critical', 'error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck']
const LEVEL_VALUES = { none: 0, emergency: 100, alert: 200, critical: 300, error: 400, warn: 500, notice: 600, info: 700, debug: 800, trace: 900, planck: Infinity, all: Infinity }

export function* modelModule(spec) {
	const key = `model:${spec}`
	if (X.S.mods[key]) return X.S.mods[key]
	const ns = alloc({ kind: MODELS[spec] ? 'object' : 'opaqueNs', proto: null, props: new Map(), dyn: [], name: spec, secret: true, modelled: !!MODELS[spec] })
	X.S.mods[key] = ns
	if (MODELS[spec]) {
		const m = yield* MODELS[spec]()
		for (const k of Object.keys(m)) wr(ns).props.set(k, { v: m[k], e: true })
	}
	return ns
}
const pureFn = (name, retMask = M.ALL) => named(name, { mask: M.FUN, pure: true, retMask, atom: true })
const opaqueFn = (name, opts = {}) => named(name, { mask: M.FUN, atom: true, ...opts })

// ------------------------------------------------------------------ standard-log

export function mkLogger(sl, id, { console: cons = true, levels = [] } = {}) {
	const o = mkObject({}, R('ObjectPrototype'), { name: 'logger', logger: { sl, id } })
	wr(o).props.set('id', { v: id, e: false, w: false })
	wr(o).props.set('level', { v: undefined, e: true })
	const m = (n, impl) => wr(o).props.set(n, { v: mkNative(n, impl), e: false })
	const write = (method, args) => {
		effect({ t: 'log', sl, id, method, args: args.slice(), console: cons })
	}
	for (const n of [...LEVELS, ...levels])
		m(n, function* (_t, a) {
			write(n, a)
			return undefined
		})
	m('count', function* (_t, a) {
		write('count', a)
	})
	m('write', function* (_t, a) {
		write('write', a)
	})
	m('on', function* (_t, [level, fn]) {
		level = resolve(level)
		const on = X.logOn === 'always' ? true : truthy(mk('logEnabled', [level], { mask: M.BOO }), 'log level enabled')
		if (!on) return undefined
		const name = typeof level === 'string' ? level : (Object.keys(LEVEL_VALUES).find(k => LEVEL_VALUES[k] === level) ?? 'custom')
		const bound = mkNative(`${name}`, function* (_t2, a) {
			write(name, a)
		})
		const r = yield* call(fn, undefined, [bound, level])
		if (truthy(r, 'log.on result')) write(name, [r])
		return undefined
	})
	return o
}
export function* mkStandardLog(name, options) {
	const sl = mkObject({}, R('ObjectPrototype'), { name: `standard-log ${name}`, slName: name })
	wr(sl).slOptions = options
	const loggers = alloc({ kind: 'map', proto: null, props: new Map(), dyn: [], entries: [] })
	const ncl = alloc({ kind: 'map', proto: null, props: new Map(), dyn: [], entries: [] })
	let levels = []
	options = resolve(options)
	if (options !== undefined && options !== null) {
		const cl = resolve(yield* get(options, 'customLevels'))
		if (isRef(cl)) levels = (yield* ownKeys(cl)).filter(k => typeof k === 'string')
	}
	const m = (n, impl) => wr(sl).props.set(n, { v: mkNative(n, impl), e: true })
	wr(sl).props.set('logLevel', { v: mk('logLevel', [sl], { mask: M.NUM }), e: true })
	m('toLogLevelName', function* (_t, [l]) {
		return mk('toLogLevelName', [sl, resolve(l)], { mask: M.STR })
	})
	m('toLogLevel', function* (_t, [l]) {
		return mk('toLogLevel', [sl, resolve(l)], { mask: M.NUM })
	})
	const getter = (table, cons) =>
		function* (t, [id, opts]) {
			t = resolve(t)
			if (t === undefined || t === null) yield* throwErr('TypeError', "Cannot read properties of undefined (reading 'getLogger')")
			id = resolve(id)
			const e = rd(table).entries.find(x => eq3(x.k, id) === true)
			if (e) return e.v
			const l = mkLogger(sl, id, { console: cons, levels })
			wr(l).logOptions = opts
			effect({ t: 'getLogger', sl, id, opts: resolve(opts), console: cons })
			wr(table).entries.push({ k: id, v: l })
			return l
		}
	m('getLogger', getter(loggers, true))
	m('getNonConsoleLogger', getter(ncl, false))
	return sl
}
function* globalLog() {
	if (!X.S.g.globalLog) X.S.g.globalLog = yield* mkStandardLog('global', undefined)
	return X.S.g.globalLog
}
function* standardLog() {
	const levels = mkObject(LEVEL_VALUES)
	const out = {
		logLevels: levels,
		DEFAULT_LOG_METHOD_NAMES: mkArray(LEVELS),
		createStandardLog: mkNative('createStandardLog', function* (_t, [options]) {
			const n = ++X.S.fresh
			const sl = yield* mkStandardLog(`#${n}`, options)
			effect({ t: 'createStandardLog', options: resolve(options), sl })
			return sl
		}),
		getLogger: mkNative('getLogger', function* (_t, a) {
			const sl = yield* globalLog()
			return yield* call(yield* get(sl, 'getLogger'), sl, a)
		}),
		createMemoryLogReporter: mkNative('createMemoryLogReporter', function* () {
			return freshSym('memory reporter', { mask: M.OBJ })
		})
	}
	for (const n of ['createConsoleLogReporter', 'createTimestampFormatter', 'formatLogLevel', 'plainLogFormatter', 'toConsoleMethod', 'toLogLevel', 'toLogLevelName', 'toMessageWithLevel', 'configGlobal']) out[n] = pureFn(`standard-log.${n}`)
	out.InvalidId = opaqueFn('standard-log.InvalidId')
	out.StandardLogError = opaqueFn('standard-log.StandardLogError')
	out.suppressLogs = mkNative('suppressLogs', function* (_t, [block, ...logs]) {
		return yield* call(block, undefined, [])
	})
	return out
}
function* standardLogTesting() {
	return {
		createStandardLogForTest: mkNative('createStandardLogForTest', function* (_t, [options]) {
			const n = ++X.S.fresh
			const sl = yield* mkStandardLog(`test#${n}`, options)
			const reporter = freshSym('memory reporter', { mask: M.OBJ })
			wr(sl).props.set('reporter', { v: reporter, e: true })
			wr(sl).isTest = true
			effect({ t: 'createStandardLog', options: resolve(options), sl, test: true })
			return sl
		})
	}
}

// ------------------------------------------------------------------ immer

function freezeDeep(v, seen = new Set()) {
	v = resolve(v)
	if (isSym(v)) {
		if (maskOf(v) & M.REF) X.S.facts.set(v.id, { ...(fact(v) ?? {}), frozen: true })
		return
	}
	if (!isRef(v) || seen.has(v.id) || !isDraftable(v)) return
	seen.add(v.id)
	const o = wr(v)
	o.frozen = true
	for (const p of o.props.values()) if ('v' in p) freezeDeep(p.v, seen)
	for (const d of o.dyn) freezeDeep(d.v, seen)
	for (const s of o.segs ?? []) if (!isMany(s)) freezeDeep(s, seen)
}
function rootOf(r) {
	let o = rd(r)
	while (o.parent) {
		r = o.parent
		o = rd(r)
	}
	return r
}
function revokeScope(root) {
	for (const [id, o] of [...X.S.heap]) if (o.kind === 'draft' && !o.revoked && rootOf({ __proto__: null, id }.id) === root) wr(id).revoked = true
}
function revokeAll(root) {
	for (const [id, o] of [...X.S.heap]) {
		if (o.kind !== 'draft' || o.revoked) continue
		let cur = o
		let curId = id
		while (cur.parent) {
			curId = cur.parent.id
			cur = rd(cur.parent)
		}
		if (curId === root.id) wr(id).revoked = true
	}
}
function isDraftRef(v) {
	v = resolve(v)
	return isRef(v) && rd(v).kind === 'draft'
}
function* processResult(draft, result) {
	result = resolve(result)
	const d = rd(draft)
	if (result !== undefined && !(isRef(result) && result === draft)) {
		if (d.modified) {
			revokeAll(draft)
			yield* throwErr('Error', '[Immer] An immer producer returned a new value *and* modified its draft.')
		}
		const v = finalize(result)
		revokeAll(draft)
		if (resolve(v) === NOTHING) return undefined
		freezeDeep(v)
		return v
	}
	const v = finalize(draft)
	revokeAll(draft)
	freezeDeep(v)
	return v
}
export function* produce(base, recipe) {
	base = resolve(base)
	if (isSym(base) && maskOf(base) & M.REF && maskOf(base) & M.PRIM) {
		isMask(base, M.PRIM, 'produce on a primitive')
		base = resolve(base)
	}
	const objectLike = isRef(base) || (isSym(base) && maskOf(base) & M.REF)
	if (!objectLike) {
		let r = resolve(yield* call(recipe, undefined, [base]))
		if (isSym(r) && maskOf(r) & M.UND) {
			isMask(r, M.UND, 'recipe result')
			r = resolve(r)
		}
		if (r === undefined) return base
		if (isSym(r) && maskOf(r) & M.SYM) {
			const e = eq3(r, NOTHING)
			if (e === null) {
				const { same } = yield* lazySame()
				if (same(r, NOTHING, 'recipe returns nothing')) return undefined
				r = resolve(r)
			}
		}
		if (resolve(r) === NOTHING) return undefined
		freezeDeep(r)
		return r
	}
	if (isRef(base) && rd(base).kind === 'draft') {
		// nested produce on a draft works on that draft's content
		const r = resolve(yield* call(recipe, undefined, [base]))
		return r === undefined ? base : r
	}
	if (isRef(base) && !isDraftable(base)) yield* throwErr('Error', '[Immer] produce can only be called on things that are draftable')
	if (isSym(base) && maskOf(base) === M.FUN) yield* throwErr('Error', '[Immer] produce can only be called on things that are draftable')
	const draft = mkDraft(base)
	let r
	try {
		r = resolve(yield* call(recipe, draft, [draft]))
	} catch (e) {
		if (e instanceof JSThrow) revokeAll(draft)
		throw e
	}
	if (isSym(r) && maskOf(r) & M.UND) {
		isMask(r, M.UND, 'recipe result')
		r = resolve(r)
	}
	if (isSym(r) && maskOf(r) & M.SYM) {
		const { same } = yield* lazySame()
		if (same(r, NOTHING, 'recipe returns nothing')) r = NOTHING
		else r = resolve(r)
	}
	return yield* processResult(draft, r)
}
function* lazySame() {
	return await_same
}
import { same as same_ } from './core.mjs'
const await_same = { same: same_ }

function* immer() {
	return {
		nothing: NOTHING,
		produce: mkNative('produce', function* (_t, [base, recipe]) {
			if (isCallable(base) && !isCallable(recipe) && !(isSym(resolve(recipe)) && maskOf(recipe) & M.FUN)) {
				const f = base
				const dflt = recipe
				return mkNative('curried produce', function* (_t2, [b, ...more]) {
					return yield* produce(b === undefined ? dflt : b, mkNative('recipe', function* (t3, [d]) {
						return yield* call(f, t3, [d, ...more])
					}))
				})
			}
			return yield* produce(base, recipe)
		}),
		createDraft: mkNative('createDraft', function* (_t, [base]) {
			base = resolve(base)
			if (isRef(base) ? !isDraftable(base) : !(isSym(base) && maskOf(base) & M.OBJ)) yield* throwErr('Error', '[Immer] First argument to `createDraft` must be a plain object, an array, or an immerable object')
			if (isSym(base) && maskOf(base) & ~M.OBJ && !isMask(base, M.OBJ, 'createDraft')) yield* throwErr('Error', '[Immer] First argument to `createDraft` must be draftable')
			return mkDraft(base)
		}),
		finishDraft: mkNative('finishDraft', function* (_t, [d]) {
			return yield* processResult(resolve(d), undefined)
		}),
		isDraft: mkNative('isDraft', function* (_t, [v]) {
			return isDraftRef(v)
		}),
		isDraftable: mkNative('isDraftable', function* (_t, [v]) {
			v = resolve(v)
			if (isSym(v)) return isMask(v, M.OBJ, 'isDraftable')
			return isDraftable(v)
		}),
		original: mkNative('original', function* (_t, [v]) {
			return isDraftRef(v) ? rd(resolve(v)).base_ : undefined
		}),
		current: mkNative('current', function* (_t, [v]) {
			v = resolve(v)
			if (!isDraftRef(v)) return v
			const w = rd(rd(v).view)
			return alloc({ ...w, props: new Map(w.props), dyn: w.dyn.slice(), segs: w.segs?.slice(), frozen: false })
		}),
		freeze: mkNative('freeze', function* (_t, [v, deep]) {
			v = resolve(v)
			freezeDeep(v)
			return v
		}),
		castDraft: mkNative('castDraft', function* (_t, [v]) {
			return v
		}),
		castImmutable: mkNative('castImmutable', function* (_t, [v]) {
			return v
		}),
		enableMapSet: mkNative('enableMapSet', function* () {}),
		enablePatches: mkNative('enablePatches', function* () {}),
		setAutoFreeze: mkNative('setAutoFreeze', function* () {
			throw new Unsupported('setAutoFreeze')
		}),
		immerable: Symbol.for('immer-draftable'),
		Immer: opaqueFn('immer.Immer')
	}
}

// ------------------------------------------------------------------ others

function* isoError() {
	const mkErrClass = (name, parentCtor, ctorImpl) => {
		const parentProto = parentCtor ? rd(parentCtor).props.get('prototype').v : R('ErrorPrototype')
		const proto = mkObject({}, parentProto, { name: `${name}.prototype`, secret: true })
		const c = mkNative(name, function* () {
			yield* throwErr('TypeError', `Class constructor ${name} cannot be invoked without 'new'`)
		}, { ctor: ctorImpl, secret: true })
		wr(c).props.set('prototype', { v: proto, e: false })
		wr(proto).props.set('constructor', { v: c, e: false })
		return c
	}
	const build = function* (nt, self, message, options) {
		const p = resolve(yield* get(nt ?? self, 'prototype'))
		const e = alloc({ kind: 'object', cls: 'Error', proto: p, props: new Map(), dyn: [], base: null })
		message = resolve(message)
		if (message !== undefined) wr(e).props.set('message', { v: toStr(message), e: false })
		const ctorOf = resolve(yield* get(p, 'constructor'))
		wr(e).props.set('name', { v: isRef(ctorOf) ? (rd(ctorOf).name ?? '') : '', e: true })
		options = resolve(options)
		let cause
		if (options !== undefined && options !== null) cause = resolve(yield* get(options, 'cause'))
		// IsoError keeps truthy causes only
		if (cause !== undefined && !isConst(cause)) cause = truthy(cause, 'error has a cause') ? cause : undefined
		wr(e).props.set('cause', { v: cause, e: true })
		return e
	}
	let iso
	iso = mkErrClass('IsoError', null, function* ([m, o], nt) {
		return yield* build(nt, iso, m, o)
	})
	let mod
	mod = mkErrClass('ModuleError', iso, function* ([module, m, o], nt) {
		const e = yield* build(nt, mod, m, o)
		wr(e).props.set('module', { v: module, e: true })
		return e
	})
	return { IsoError: iso, ModuleError: mod, isAggregateError: pureFn('iso-error.isAggregateError', M.BOO), SerializableConverter: opaqueFn('iso-error.SerializableConverter') }
}
function* mousetrap() {
	const m = mkNative('Mousetrap', null, { secret: true })
	const def = (n, impl) => wr(m).props.set(n, { v: mkNative(n, impl), e: true })
	for (const op of ['bind', 'unbind', 'reset', 'trigger', 'bindGlobal'])
		def(op, function* (_t, a) {
			effect({ t: 'mousetrap', op, args: a.map(x => (isMany(x) ? x : resolve(x))) })
			return m
		})
	return { default: m }
}
function* eventemitter() {
	const proto = mkObject({}, R('ObjectPrototype'), { name: 'EventEmitter.prototype', secret: true })
	const ee = mkNative('EventEmitter', null, {
		ctor: function* (_a, nt) {
			const p = nt ? resolve(yield* get(nt, 'prototype')) : proto
			const o = alloc({ kind: 'object', cls: 'EventEmitter', proto: isRef(p) ? p : proto, props: new Map(), dyn: [], base: null, name: 'EventEmitter' })
			effect({ t: 'newEmitter', v: o })
			return o
		},
		secret: true
	})
	for (const n of ['emit', 'on', 'once', 'off', 'addListener', 'removeListener', 'removeAllListeners', 'listeners', 'listenerCount', 'eventNames']) wr(proto).props.set(n, { v: opaqueFn(`EventEmitter.${n}`, { mayThrow: n === 'emit' }), e: false })
	wr(ee).props.set('prototype', { v: proto, e: false })
	return { EventEmitter: ee, default: ee }
}
function* base64() {
	const enc = mkNative('encode', function* (_t, [v]) {
		v = toStr(resolve(v))
		if (isSym(v) && v.op === 'base64decode') return mk('base64text', [v.args[0]], { mask: M.STR })
		return mk('base64encode', [v], { mask: M.STR })
	})
	// the URL-safe form of the same text
	const encU = mkNative('encodeURI', function* (_t, [v]) {
		return mk('base64encode', [toStr(resolve(v)), 'url'], { mask: M.STR })
	})
	const dec = mkNative('decode', function* (_t, [v]) {
		v = resolve(v)
		if (isSym(v) && maskOf(v) & ~M.STR && !isMask(v, M.STR, 'decode')) yield* throwErr('TypeError', 'decode of a non-string')
		v = resolve(v)
		if (!isSym(v) && typeof v !== 'string') yield* throwErr('TypeError', 'decode of a non-string')
		if (isSym(v) && v.op === 'base64encode') return v.args[0]
		if (isSym(v) && v.op === 'base64text') return mk('base64decode', [v.args[0]], { mask: M.STR })
		return mk('base64decode', [v], { mask: M.STR })
	})
	const o = { encode: enc, toBase64: enc, decode: dec, fromBase64: dec, encodeURI: encU, encodeURL: encU, isValid: pureFn('base64.isValid', M.BOO) }
	return { ...o, Base64: mkObject(o) }
}
function* history() {
	const f = n =>
		mkNative(n, function* (_t, a) {
			const r = freshSym(n, { mask: M.OBJ, thenable: false })
			effect({ t: 'history', op: n, args: a, ret: r })
			return r
		})
	return { createBrowserHistory: f('createBrowserHistory'), createMemoryHistory: f('createMemoryHistory'), createHashHistory: f('createHashHistory') }
}
function* formatjs() {
	return {
		createIntl: mkNative('createIntl', function* (_t, a) {
			const r = freshSym('intl', { mask: M.OBJ, thenable: false })
			effect({ t: 'createIntl', args: a.map(resolve), ret: r })
			return r
		}),
		createIntlCache: pureFn('formatjs.createIntlCache')
	}
}
function* platform() {
	return { os: named('platform.os', { mask: M.UND | M.OBJ, thenable: false }), default: named('platform', { mask: M.OBJ }) }
}

const MODELS = {
	'standard-log': standardLog,
	'standard-log/testing': standardLogTesting,
	immer,
	'iso-error': isoError,
	mousetrap,
	eventemitter3: eventemitter,
	'js-base64': base64,
	history,
	'@formatjs/intl': formatjs,
	platform,
	*tersify() {
		return { tersify: pureFn('tersify', M.STR) }
	},
	*'sentence-case'() {
		return {
			sentenceCase: mkNative('sentenceCase', function* (_t, [v]) {
				return mk('sentenceCase', [sentenceArg(toStr(v))], { mask: M.STR })
			})
		}
	},
	*delay() {
		return { default: opaqueFn('delay') }
	}
}
