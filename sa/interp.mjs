// Transfer functions of the analyser over the syntax tree of the repository's sources.
import {
	atLeast, M, Many, Ref, Sym, X, JSThrow, Unsupported, alloc, assumeMask, assumeTruthy, choose, concat, constMask, effect, eq3, explore, fact, freshSym,
	isConst, isMany, isMask, isRef, isSym, maskOf, mk, named, rd, ref, resolve, same, show, strictEq, taint, toStr, truthy, truthy3,
	typeNames, typeofMask, wr, assumeEq, assumeNe, PathDead, fmtLoc, Budget, overBudget
} from './core.mjs'
import { moduleInfo, parse, resolveModule, ts } from './modules.mjs'
import { modelModule } from './models.mjs'

const K = ts.SyntaxKind
const MAX_UNROLL = 2500
const MAX_STEPS = 3_000_000

// ------------------------------------------------------------ realm access
export const R = name => X.S.g.realm[name]

export function mkObject(props = {}, proto = R('ObjectPrototype'), extra = {}) {
	const m = new Map()
	for (const k of Reflect.ownKeys(props)) m.set(k, { v: props[k], e: true })
	return alloc({ kind: 'object', proto, props: m, dyn: [], base: null, ...extra })
}
export function mkArray(segs, extra = {}) {
	return alloc({ kind: 'array', proto: R('ArrayPrototype'), props: new Map(), dyn: [], segs: segs.slice(), ver: 0, ...extra })
}
export function mkNative(name, impl, extra = {}) {
	return alloc({ kind: 'native', proto: R('FunctionPrototype') ?? null, props: new Map(), dyn: [], name, impl, ...extra })
}
export function* throwErr(type, msg) {
	const e = alloc({ kind: 'object', cls: 'Error', proto: R(`${type}Prototype`) ?? R('ErrorPrototype'), dyn: [], props: new Map([['message', { v: msg, e: false }]]), name: `${type}: ${typeof msg === 'string' ? msg : ''}` })
	throw new JSThrow(e, X.loc)
}
export function isCallable(v) {
	v = resolve(v)
	return isRef(v) && maskOf(v) === M.FUN
}
export function isArrayRef(v) {
	v = resolve(v)
	if (!isRef(v)) return false
	const o = rd(v)
	if (o.kind === 'draft') return isArrayRef(o.view)
	if (o.kind === 'proxy') return isArrayRef(o.target)
	return o.kind === 'array'
}

// ------------------------------------------------------------ properties

export function toKey(v) {
	v = resolve(v)
	if (isSym(v)) return v
	if (isRef(v)) return toStr(v)
	if (typeof v === 'symbol') return v
	return String(v)
}
const OBJ_PROTO_KEYS = ['constructor', 'toString', 'hasOwnProperty', 'valueOf', 'isPrototypeOf', 'propertyIsEnumerable', 'toLocaleString', '__proto__', '__defineGetter__', '__defineSetter__', '__lookupGetter__', '__lookupSetter__']

/** finds the own slot for key, splitting on unknown key equalities. Returns {p}|{d}|{base}|null */
export function ownSlot(o, key) {
	if (!isSym(key)) {
		const p = o.props.get(key)
		if (p) return { p }
		for (const d of o.dyn) if (same(d.key, key, 'property key')) return { d }
	} else {
		for (const d of o.dyn) if (eq3(d.key, key) === true) return { d }
		for (const [k, p] of o.props) if (typeof k !== 'symbol' && same(key, k, 'property key')) return { p, key: k }
		for (const d of o.dyn) if (same(d.key, key, 'property key')) return { d }
	}
	if (o.base) return { base: o.base }
	return null
}
/** symbols the language looks up by itself */
const HOOKS = new Set([Symbol.hasInstance, Symbol.toPrimitive, Symbol.species, Symbol.unscopables, Symbol.isConcatSpreadable])
function isIndex(key) {
	return typeof key === 'string' && /^(0|[1-9]\d*)$/.test(key)
}

function* draftView(r, why) {
	const o = rd(r)
	if (o.revoked) yield* throwErr('TypeError', `Cannot perform '${why}' on a proxy that has been revoked`)
	return o.view
}
export function isDraftable(v) {
	v = resolve(v)
	if (!isRef(v)) return false
	const o = rd(v)
	if (o.kind === 'array') return true
	if (o.kind === 'map' || o.kind === 'set') return true
	if (o.kind !== 'object' || o.cls) return false
	return o.proto === null || o.proto === R('ObjectPrototype')
}
export function mkDraft(base, parent) {
	base = resolve(base)
	let view
	if (isRef(base)) {
		const o = rd(base)
		view = alloc({ ...o, props: new Map([...o.props].map(([k, p]) => [k, { ...p }])), dyn: o.dyn.map(d => ({ ...d })), segs: o.segs?.slice(), entries: o.entries?.map(e => ({ ...e })), frozen: false, site: o.site })
	} else view = alloc({ kind: 'object', proto: R('ObjectPrototype'), props: new Map(), dyn: [], base })
	return alloc({ kind: 'draft', proto: null, props: new Map(), dyn: [], base_: base, view, parent: parent ?? null, modified: false, revoked: false })
}
export function markModified(r) {
	while (r) {
		const o = wr(r)
		if (o.modified) break
		o.modified = true
		r = o.parent
	}
}
function draftChild(r, v, put) {
	if (isDraftable(v)) {
		const owner = rd(r)
		if (owner.own?.includes(v.id)) return v
		const c = mkDraft(v, r)
		put(c)
		return c
	}
	return v
}
/** finalises a draft: unmodified drafts give back their base */
export function finalize(v, seen = new Map()) {
	v = resolve(v)
	if (!isRef(v)) return v
	if (seen.has(v.id)) return seen.get(v.id)
	const o = rd(v)
	if (o.kind === 'draft') {
		if (o.final !== undefined) return o.final
		wr(v).revoked = true
		if (o.touched) {
			const t = mk('inplace', [o.base_, ...o.touched], { mask: maskOf(o.base_) })
			const w = rd(o.view)
			if (!w.props.size && !w.dyn.length && !w.segs?.length) {
				wr(v).final = t
				return t
			}
		}
		if (!o.modified) {
			// children may still be drafts left unmodified in the view: the base is returned as it was
			wr(v).final = o.base_
			const w = rd(o.view)
			for (const c of childValues(w)) if (isRef(c) && rd(c).kind === 'draft') finalize(c, seen)
			return o.base_
		}
		wr(v).final = o.view
		seen.set(v.id, o.view)
		finalizeChildren(o.view, seen)
		return o.view
	}
	if (isDraftable(v) && !o.frozen) {
		seen.set(v.id, v)
		finalizeChildren(v, seen)
	}
	return v
}
function childValues(o) {
	const out = []
	for (const p of o.props.values()) if ('v' in p) out.push(resolve(p.v))
	for (const d of o.dyn) out.push(resolve(d.v))
	for (const s of o.segs ?? []) if (!isMany(s)) out.push(resolve(s))
	for (const e of o.entries ?? []) out.push(resolve(e.k), resolve(e.v))
	return out
}
function finalizeChildren(r, seen) {
	const o = wr(r)
	for (const p of o.props.values()) if ('v' in p) p.v = finalize(p.v, seen)
	for (const d of o.dyn) d.v = finalize(d.v, seen)
	if (o.segs) o.segs = o.segs.map(s => (isMany(s) ? s : finalize(s, seen)))
	for (const e of o.entries ?? []) {
		e.k = finalize(e.k, seen)
		e.v = finalize(e.v, seen)
	}
	o.frozen = true
}

export function arrLen(o, r) {
	if (o.segs.every(s => !isMany(s))) return o.segs.length
	return mk('len', [r, o.ver], { mask: M.NUM })
}

/** property read */
export function* get(base, key, receiver = base) {
	base = resolve(base)
	key = resolve(key)
	if (!isSym(base) && !isRef(base)) {
		if (base === undefined || base === null) yield* throwErr('TypeError', `Cannot read properties of ${base} (reading '${show(key)}')`)
		if (typeof base === 'string') {
			if (key === 'length') return base.length
			if (isIndex(key)) return base[Number(key)]
			if (isSym(key) && !(maskOf(key) & ~M.NUM)) return mk('charAt', [base, key], { mask: drawnBelow(key, base.length) ? M.STR : M.STR | M.UND })
			return yield* get(R('StringPrototype'), key, base)
		}
		if (typeof base === 'number') return yield* get(R('NumberPrototype'), key, base)
		if (typeof base === 'symbol') return yield* get(R('SymbolPrototype'), key, base)
		if (typeof base === 'boolean') return yield* get(R('BooleanPrototype'), key, base)
		return yield* get(R('BigIntPrototype'), key, base)
	}
	if (isSym(base)) {
		if (maskOf(base) & M.NULLISH) {
			if (isMask(base, M.NULLISH, 'property read')) yield* throwErr('TypeError', `Cannot read properties of ${show(base)}`)
			base = resolve(base)
			if (!isSym(base)) return yield* get(base, key, receiver)
		}
		if (maskOf(base) & M.REF && maskOf(base) & M.PRIM) {
			isMask(base, M.REF, 'property read')
			base = resolve(base)
			if (!isSym(base)) return yield* get(base, key, receiver)
		}
		if (!(maskOf(base) & M.REF)) {
			if (maskOf(base) === M.STR) {
				if (key === 'length') return drawnLength(base) ?? mk('len', [base], { mask: M.NUM })
				if (!isSym(key) && !isIndex(key)) return yield* get(R('StringPrototype'), key, base)
				return mk('charAt', [base, key], { mask: M.STR | M.UND })
			}
			if (maskOf(base) === M.NUM) return yield* get(R('NumberPrototype'), key, base)
			if (maskOf(base) === M.SYM && !isSym(key)) return yield* get(R('SymbolPrototype'), key, base)
			if (isConst(key) && !(maskOf(base) & M.STR && (key === 'length' || isIndex(key))) && ![String, Number, Boolean, BigInt, Symbol].some(C => key in C.prototype)) return undefined
			return mk('sel', [base, key], { mask: M.UND | M.FUN })
		}
		const ov = fact(base)?.props
		if (ov) for (const [k, v] of ov) if (same(k, key)) return v
		if (base.opts.shape && !isSym(key)) {
			const v = base.opts.shape(key)
			if (v !== undefined) return v
		}
		if (maskOf(base) === M.FUN && (key === 'call' || key === 'apply' || key === 'bind')) return yield* get(R('FunctionPrototype'), key, base)
		if (key === 'then' && (base.opts.thenable === false || fact(base)?.thenable === false)) return mk('selNotFunction', [base, key], { mask: M.ALL & ~M.FUN })
		return mk('sel', [base, key], { mask: base.opts.selMask ?? M.ALL })
	}
	const o = rd(base)
	switch (o.kind) {
		case 'proxy': {
			const trap = yield* get(o.handler, 'get')
			if (resolve(trap) !== undefined) return yield* call(trap, o.handler, [o.target, key, receiver])
			return yield* get(o.target, key, receiver)
		}
		case 'draft': {
			const view = yield* draftView(base, 'get')
			const w = rd(view)
			if (w.segs && isIndex(key)) {
				const i = Number(key)
				const s = w.segs
				if (s.slice(0, i + 1).some(isMany)) return yield* get(view, key)
				if (i >= s.length) return undefined
				return draftChild(base, resolve(s[i]), c => (wr(view).segs[i] = c))
			}
			if (w.kind === 'array') return yield* get(view, key, base)
			if (w.kind === 'map' || w.kind === 'set') return yield* get(view, key, base)
			const slot = ownSlot(w, key)
			if (slot?.p && 'v' in slot.p) {
				const k = slot.key ?? key
				return draftChild(base, resolve(slot.p.v), c => (wr(view).props.get(k).v = c))
			}
			if (slot?.d) {
				const dk = slot.d.key
				return draftChild(base, resolve(slot.d.v), c => (wr(view).dyn.find(d => d.key === dk).v = c))
			}
			return yield* get(view, key, base)
		}
		case 'array': {
			if (key === 'length') return arrLen(o, base)
			if (isIndex(key)) {
				const i = Number(key)
				let n = 0
				for (const s of o.segs) {
					if (isMany(s)) {
						taint('index into a summarised array segment')
						return freshSym('elem', { mask: M.ALL })
					}
					if (n === i) return s
					n++
				}
				return undefined
			}
			if (isSym(key)) {
				const e = fact(key)?.elem
				if (e && e.arr === base.id) return e.v
				const m = /^String$/.test(key.op) ? key.args[0] : key
				const e2 = isSym(m) && fact(m)?.elem
				if (e2 && e2.arr === base.id) return e2.v
				taint('unknown array index')
				return freshSym('elem')
			}
			break
		}
		case 'function':
		case 'native':
		case 'bound':
			if (!o.props.has(key)) {
				if (key === 'name') return o.name ?? ''
				if (key === 'length') return yield* fnLength(o, base)
				if (key === 'prototype' && o.kind === 'function' && !o.isArrow) {
					const p = mkObject({})
					wr(p).props.set('constructor', { v: base, e: false })
					wr(base).props.set('prototype', { v: p, e: false })
					return p
				}
			}
			break
		case 'map':
		case 'set':
			if (key === 'size') return o.entries.length
			break
		case 'regexp':
			if (key === 'source') return o.source
			if (key === 'flags') return o.flags
			break
		case 'opaqueNs':
			if (!o.props.has(key)) {
				const f = named(`${o.name}.${String(key)}`, { mask: M.FUN, pure: true })
				taint(`member ${String(key)} of unmodelled module ${o.name}`)
				return f
			}
			break
	}
	const slot = ownSlot(o, key)
	if (slot?.p) {
		if (slot.p.get) return yield* call(slot.p.get, receiver, [])
		if ('v' in slot.p) return slot.p.v
		return undefined
	}
	if (slot?.d) return slot.d.v
	if (slot?.base) {
		const s = yield* get(slot.base, key)
		return s
	}
	// a member of the library that has no model
	if (o.real && isConst(key) && Object.hasOwn(o.real, key) && !HOOKS.has(key)) {
		const x = Object.getOwnPropertyDescriptor(o.real, key).value
		if (x !== undefined && x !== null && typeof x !== 'object' && typeof x !== 'function' && typeof x !== 'symbol') return x
		throw new Unsupported(`built-in ${o.name ?? ''}.${String(key)}`)
	}
	if (o.proto) {
		if (isSym(key)) {
			if (o.proto === R('ObjectPrototype') || protoChainHas(o.proto, R('ObjectPrototype'))) {
				if (maskOf(key) & M.STR && truthy(mk('isObjectPrototypeKey', [key], { mask: M.BOO }), 'key names a member of Object.prototype'))
					return mk('objectPrototypeMember', [key], { mask: M.FUN })
			}
			return undefined
		}
		return yield* get(o.proto, key, receiver)
	}
	return undefined
}
function* fnLength(o, base) {
	if (o.kind === 'bound') return Math.max(0, (yield* get(o.target, 'length')) - o.args.length)
	// a client declares as many parameters as it likes
	if (o.client && o.len === undefined) return (wr(base).len = [0, 1, 3][choose(['none', 'one', 'three'], `parameters of ${o.name}`)])
	if (o.kind === 'native') return o.len ?? 0
	const ps = ((o.isClass ? o.ctorNode?.parameters : o.node?.parameters) ?? []).filter(p => !(ts.isIdentifier(p.name) && p.name.text === 'this'))
	const i = ps.findIndex(p => p.initializer || p.dotDotDotToken)
	return i < 0 ? ps.length : i
}
function protoChainHas(p, x) {
	while (p) {
		if (p === x) return true
		p = rd(p).proto
	}
	return false
}

/** property write */
export function* set(base, key, v, strictThrow = true) {
	base = resolve(base)
	key = resolve(key)
	if (!isRef(base)) {
		if (isSym(base)) {
			if (maskOf(base) & M.NULLISH && isMask(base, M.NULLISH, 'property write')) yield* throwErr('TypeError', 'Cannot set properties of nullish value')
			effect({ t: 'setprop', obj: base, key, v })
			const f = fact(base) ?? {}
			X.S.facts.set(base.id, { ...f, props: [[key, v], ...(f.props ?? []).filter(([k]) => eq3(k, key) !== true)] })
			return
		}
		if (base === undefined || base === null) yield* throwErr('TypeError', `Cannot set properties of ${base}`)
		return
	}
	const o = rd(base)
	if (o.kind === 'proxy') {
		const trap = yield* get(o.handler, 'set')
		if (resolve(trap) !== undefined) {
			if (!truthy(yield* call(trap, o.handler, [o.target, key, v, base]), 'set trap')) yield* throwErr('TypeError', `'set' on proxy: trap returned falsish`)
			return
		}
		return yield* set(o.target, key, v)
	}
	if (o.kind === 'draft') {
		const view = yield* draftView(base, 'set')
		const w = rd(view)
		if (key === '__proto__' && !ownSlot(w, key)?.p && w.proto && protoChainHas(w.proto, R('ObjectPrototype'))) {
			yield* call(rd(R('ObjectPrototype')).props.get('__proto__').set, base, [v])
			return
		}
		const slot = w.segs && isIndex(key) ? null : ownSlot(w, key)
		const cur = slot?.p ? slot.p.v : slot?.d ? slot.d.v : undefined
		if (slot && (slot.p || slot.d) && eq3(cur, v) === true) return
		markModified(base)
		// a value assigned into the draft is the caller's own object, not a draft of the base
		if (isDraftable(v) && rd(resolve(v)).kind !== 'draft') wr(base).own = [...(rd(base).own ?? []), resolve(v).id]
		return yield* set(view, key, v)
	}
	if (o.frozen) {
		yield* throwErr('TypeError', `Cannot assign to read only property '${show(key)}'`)
	}
	if (o.kind === 'array') {
		if (key === 'length') {
			v = resolve(v)
			if (v === 0) {
				wr(base).segs = []
				wr(base).ver++
				return
			}
			if (typeof v === 'number' && o.segs.slice(0, v).every(s => !isMany(s)) && v <= o.segs.length) {
				wr(base).segs = o.segs.slice(0, v)
				wr(base).ver++
				return
			}
			throw new Unsupported('array length assignment')
		}
		if (isIndex(key)) {
			const i = Number(key)
			if (o.segs.slice(0, i + 1).some(isMany) || i > o.segs.length) throw new Unsupported('indexed write into a summarised array')
			wr(base).segs[i] = v
			wr(base).ver++
			return
		}
		if (isSym(key)) throw new Unsupported('array write at unknown index')
	}
	const slot = ownSlot(o, key)
	if (slot?.p) {
		const k = slot.key ?? key
		if (slot.p.set || slot.p.get) {
			if (slot.p.set) yield* call(slot.p.set, base, [v])
			else yield* throwErr('TypeError', `Cannot set property ${show(key)} which has only a getter`)
			return
		}
		if (slot.p.w === false) yield* throwErr('TypeError', `Cannot assign to read only property '${show(key)}'`)
		wr(base).props.set(k, { ...slot.p, v })
		return
	}
	if (slot?.d) {
		const dk = slot.d.key
		const d = wr(base).dyn.find(d => d.key === dk)
		d.v = v
		return
	}
	// setters on the prototype chain
	for (let p = o.proto; p && !isSym(key); p = rd(p).proto) {
		const pp = rd(p).props.get(key)
		if (pp?.set) {
			yield* call(pp.set, base, [v])
			return
		}
		if (pp?.get) yield* throwErr('TypeError', `Cannot set property ${show(key)} which has only a getter`)
		if (pp) {
			if (pp.w === false) yield* throwErr('TypeError', `Cannot assign to read only property '${show(key)}'`)
			break
		}
	}
	if (o.noext) yield* throwErr('TypeError', 'Cannot add property, object is not extensible')
	if (isSym(key)) wr(base).dyn.push({ key, v })
	else wr(base).props.set(key, { v, e: true })
}

export function* del(base, key) {
	base = resolve(base)
	key = resolve(key)
	if (isSym(base)) {
		effect({ t: 'delprop', obj: base, key })
		return true
	}
	if (!isRef(base)) {
		if (base === undefined || base === null) yield* throwErr('TypeError', 'Cannot convert undefined or null to object')
		return true
	}
	const o = rd(base)
	if (o.kind === 'proxy') {
		const trap = yield* get(o.handler, 'deleteProperty')
		if (resolve(trap) !== undefined) return yield* call(trap, o.handler, [o.target, key])
		return yield* del(o.target, key)
	}
	if (o.kind === 'draft') {
		const view = yield* draftView(base, 'deleteProperty')
		const slot = ownSlot(rd(view), key)
		if (slot) markModified(base)
		return yield* del(view, key)
	}
	if (o.frozen && (isSym(key) || ownSlot(o, key))) yield* throwErr('TypeError', `Cannot delete property '${show(key)}'`)
	if (o.kind === 'array' && isIndex(key)) throw new Unsupported('delete of an array element')
	const slot = ownSlot(o, key)
	if (slot?.p?.c === false) yield* throwErr('TypeError', `Cannot delete property '${show(key)}'`)
	if (slot?.p) wr(base).props.delete(slot.key ?? key)
	else if (slot?.d) {
		const dk = slot.d.key
		const w = wr(base)
		w.dyn = w.dyn.filter(d => d.key !== dk)
	} else if (slot?.base) {
		wr(base).dyn.push({ key, v: undefined, absent: true })
	}
	return true
}

/** own-property test, splitting when unknown */
export function* hasOwn(base, key) {
	base = resolve(base)
	key = resolve(key)
	if (isSym(base)) return truthy(mk('hasOwn', [base, key], { mask: M.BOO }), 'own property')
	if (!isRef(base)) return typeof base === 'string' ? key === 'length' : false
	const o = rd(base)
	if (o.kind === 'draft') return yield* hasOwn(yield* draftView(base, 'has'), key)
	if (o.kind === 'proxy') {
		if (resolve(yield* get(o.handler, 'getOwnPropertyDescriptor')) !== undefined) throw new Unsupported('getOwnPropertyDescriptor trap')
		return yield* hasOwn(o.target, key)
	}
	if (o.kind === 'array') {
		if (key === 'length') return true
		if (isIndex(key)) return Number(key) < o.segs.length
	}
	const slot = ownSlot(o, key)
	if (slot?.p) return true
	if (slot?.d) return !slot.d.absent
	if (slot?.base) return truthy(mk('hasOwn', [slot.base, key], { mask: M.BOO }), 'own property')
	if (o.real && isConst(key) && Object.hasOwn(o.real, key)) throw new Unsupported(`built-in ${o.name ?? ''}.${String(key)}`)
	if ((o.kind === 'function' || o.kind === 'native') && (key === 'name' || key === 'length' || key === 'prototype')) return true
	return false
}
export function* hasProp(base, key) {
	base = resolve(base)
	if (isRef(base) && rd(base).kind === 'proxy') {
		const o = rd(base)
		const trap = yield* get(o.handler, 'has')
		if (resolve(trap) !== undefined) return truthy(yield* call(trap, o.handler, [o.target, key]))
		return yield* hasProp(o.target, key)
	}
	if (yield* hasOwn(base, key)) return true
	if (isRef(base)) {
		let o = rd(base)
		if (o.kind === 'draft') o = rd(o.view)
		if (!o.proto) return false
		key = resolve(key)
		if (isSym(key)) {
			if (protoChainHas(o.proto, R('ObjectPrototype'))) return truthy(mk('isObjectPrototypeKey', [key], { mask: M.BOO }), 'key names a member of Object.prototype')
			return false
		}
		return yield* hasProp(o.proto, key)
	}
	return false
}
/** own enumerable keys as segments. kind: 'string' | 'symbol' | 'all' */
export function* ownKeys(base, kind = 'string', enumerableOnly = true) {
	base = resolve(base)
	if (isSym(base)) {
		const e = mk(kind === 'symbol' ? 'symKeyIn' : 'keyIn', [base], { mask: kind === 'symbol' ? M.SYM : M.STR })
		return [new Many(e, { keysOf: base })]
	}
	if (!isRef(base)) return []
	const o = rd(base)
	if (o.kind === 'draft') return yield* ownKeys(yield* draftView(base, 'ownKeys'), kind, enumerableOnly)
	if (o.kind === 'proxy') {
		const trap = resolve(yield* get(o.handler, 'ownKeys'))
		if (trap === undefined) return yield* ownKeys(o.target, kind, enumerableOnly)
		if (resolve(yield* get(o.handler, 'getOwnPropertyDescriptor')) !== undefined) throw new Unsupported('getOwnPropertyDescriptor trap')
		const listed = yield* arrElems(yield* call(trap, o.handler, [o.target]))
		if (!enumerableOnly) return listed
		const own = yield* ownKeys(o.target, kind, true)
		return listed.filter(k => own.some(x => !isMany(x) && eq3(x, k) === true))
	}
	const out = []
	if (o.kind === 'array' && kind !== 'symbol') {
		o.segs.forEach((s, i) => {
			if (isMany(s)) throw new Unsupported('keys of a summarised array')
			out.push(String(i))
		})
	}
	if (o.base) {
		out.push(new Many(mk(kind === 'symbol' ? 'symKeyIn' : 'keyIn', [o.base], { mask: kind === 'symbol' ? M.SYM : M.STR }), { keysOf: o.base, except: [...o.props.keys(), ...o.dyn.map(d => d.key)] }))
	}
	for (const [k, p] of o.props) {
		if ((enumerableOnly && p.e === false) || p.priv) continue
		if (typeof k === 'symbol' ? kind !== 'string' : kind !== 'symbol') out.push(k)
	}
	for (const d of o.dyn) {
		if (d.absent) continue
		if (kind === 'all') {
			out.push(d.key)
			continue
		}
		// a key of unknown type is listed with the strings or with the symbols
		const isSymbol = isMask(d.key, M.SYM, 'property key type')
		if (isSymbol === (kind === 'symbol')) out.push(d.key)
	}
	// keys that are array indexes come first, in ascending order; strings before symbols
	const rank = k => (isIndex(k) ? 0 : typeof k === 'symbol' || (isSym(k) && maskOf(k) === M.SYM) ? 2 : 1)
	if (out.some(k => rank(k) !== 1)) return [...out.filter(k => rank(k) === 0).sort((a, b) => a - b), ...out.filter(k => rank(k) === 1), ...out.filter(k => rank(k) === 2)]
	return out
}

/** copies own enumerable properties of src into the plain object dst */
export function* copyProps(dst, src, spread = false) {
	src = resolve(src)
	if (isSym(src)) {
		if (maskOf(src) & (M.PRIM & ~M.STR)) {
			if (isMask(src, M.PRIM & ~M.STR, 'spread')) return
			src = resolve(src)
			if (!isSym(src)) return yield* copyProps(dst, src, spread)
		}
		const o = rd(dst)
		for (const k of [...o.props.keys()]) if (truthy(mk('hasOwn', [src, k], { mask: M.BOO }), 'own property')) yield* set(dst, k, yield* get(src, k))
		if (o.base) {
			if (o.base !== src) throw new Unsupported('spread of two unknown objects into one')
		} else wr(dst).base = src
		return
	}
	if (!isRef(src)) {
		if (typeof src === 'string') for (let i = 0; i < src.length; i++) yield* set(dst, String(i), src[i])
		return
	}
	const so = rd(src)
	const view = so.kind === 'draft' ? rd(so.view) : so
	if (view.base) {
		const o = rd(dst)
		if (!o.base && !o.props.size && !o.dyn.length) wr(dst).base = view.base
		else if (o.base !== view.base) throw new Unsupported('spread of two unknown objects into one')
		for (const d of view.dyn) if (d.absent) wr(dst).dyn.push({ ...d })
	}
	for (const k of yield* ownKeys(src, 'all')) {
		if (isMany(k)) continue
		const v = yield* get(src, k)
		// a spread defines, an assignment sets
		if (spread && k === '__proto__') wr(dst).props.set(k, { v, e: true })
		else yield* set(dst, k, v)
	}
}

// ------------------------------------------------------------ arrays

/** the array object behind v for reading */
export function arrOf(v) {
	v = resolve(v)
	if (!isRef(v)) throw new Unsupported(`array operation on ${show(v)}`)
	const o = rd(v)
	if (o.kind === 'draft') {
		if (o.revoked) return null
		return arrOf(o.view)
	}
	if (o.kind === 'proxy') return arrOf(o.target)
	if (o.kind !== 'array') throw new Unsupported(`array operation on ${show(v)}`)
	return o
}
export function* arrRead(v) {
	const o = arrOf(v)
	if (!o) yield* throwErr('TypeError', "Cannot perform 'get' on a proxy that has been revoked")
	return o.segs
}
/** elements as seen through v (drafts give drafts of their elements) */
export function* arrElems(v) {
	v = resolve(v)
	const segs = yield* arrRead(v)
	const o = rd(v)
	if (o.kind === 'draft') {
		const out = []
		for (let i = 0; i < segs.length; i++) {
			if (isMany(segs[i])) out.push(segs[i])
			else out.push(yield* get(v, String(i)))
		}
		return out
	}
	return segs.slice()
}
export function* arrWrite(v, segs) {
	v = resolve(v)
	const o = rd(v)
	if (o.kind === 'draft') {
		const view = yield* draftView(v, 'set')
		markModified(v)
		wr(view).segs = segs
		wr(view).ver++
		return
	}
	if (o.kind === 'proxy') return yield* arrWrite(o.target, segs)
	if (o.frozen) yield* throwErr('TypeError', 'Cannot modify a frozen array')
	const w = wr(v)
	w.segs = segs
	w.ver++
}

const COLLECTIONS = new Set(['array', 'map', 'set'])
/** the kind of builtin collection v is iterated as, or null */
function collKind(v) {
	const o = rd(v)
	if (o.kind === 'draft') return o.revoked ? null : collKind(o.view)
	return COLLECTIONS.has(o.kind) ? o.kind : null
}
/** elements of an iterable as segments */
export function* iterate(v) {
	v = resolve(v)
	if (typeof v === 'string') return [...v]
	if (isSym(v)) {
		if (maskOf(v) & M.NULLISH && isMask(v, M.NULLISH, 'iteration')) yield* throwErr('TypeError', 'not iterable')
		if (maskOf(v) & M.STR && !(maskOf(v) & M.REF)) return [new Many(mk('charOf', [v], { mask: M.STR }))]
		return [new Many(mk('elemOf', [v], {}), { elemsOf: v })]
	}
	if (!isRef(v)) yield* throwErr('TypeError', `${show(v)} is not iterable`)
	const o = rd(v)
	if (o.kind === 'array') return o.segs.slice()
	if (o.kind === 'draft') {
		const w = rd(yield* draftView(v, 'get'))
		if (w.kind === 'array') return yield* arrElems(v)
		return yield* iterate(o.view)
	}
	if (o.kind === 'proxy' && resolve(yield* get(o.handler, 'get')) === undefined) return yield* iterate(o.target)
	if (o.kind === 'map') return o.entries.map(e => mkArray([e.k, e.v]))
	if (o.kind === 'set') return o.entries.map(e => e.k)
	const c = yield* cursor(v)
	const out = []
	for (let guard = 0; ; guard++) {
		if (guard > 2000) throw new Unsupported('unbounded iteration')
		const r = yield* c.next()
		if (r.done) return out
		out.push(r.v)
	}
}
/** n elements of an iterable, and its rest when asked; the iterator is closed */
function* pull(v, n, rest) {
	v = resolve(v)
	if (!isRef(v) || collKind(v) || rd(v).kind === 'proxy') return yield* iterate(v)
	const c = yield* cursor(v)
	const out = []
	for (let guard = 0; rest || out.length < n; guard++) {
		if (guard > 2000) throw new Unsupported('unbounded iteration')
		const r = yield* c.next()
		if (r.done) return out
		out.push(r.v)
	}
	yield* c.close()
	return out
}
export const iterResult = (v, done) => mkObject({ value: v, done })
/** one step through a collection as it is at that time; pos is kept by the caller: { done } | { v, pos } */
export function* collStep(src, mode, pos) {
	if (collKind(src) === 'array') {
		const segs = yield* arrRead(src)
		const i = pos ?? 0
		if (i >= segs.length) return { done: true }
		if (segs.slice(0, i + 1).some(isMany)) throw new Unsupported('array summarised while being iterated')
		if (mode === 'keys') return { v: i, pos: i + 1 }
		const v = yield* get(src, String(i))
		return { v: mode === 'entries' ? mkArray([i, v]) : v, pos: i + 1 }
	}
	let o = rd(src)
	if (o.kind === 'draft') o = rd(yield* draftView(src, 'get'))
	const e = o.entries.find(x => x.q > (pos ?? 0))
	if (!e) return { done: true }
	const what = mode ?? (o.kind === 'map' ? 'entries' : 'keys')
	return { v: what === 'entries' ? mkArray([e.k, e.v]) : what === 'values' ? e.v : e.k, pos: e.q }
}
export function* iterStep(r) {
	const { it } = rd(r)
	if (it.done) return { done: true }
	let x
	if (it.list) x = (it.pos ?? 0) < it.list.length ? { v: it.list[it.pos ?? 0], pos: (it.pos ?? 0) + 1 } : { done: true }
	else x = yield* collStep(it.src, it.mode, it.pos)
	wr(r).it = x.done ? { ...it, done: true } : { ...it, pos: x.pos }
	return x
}
export const mkIter = it => alloc({ kind: 'object', cls: 'Iterator', proto: R('ArrayIteratorPrototype'), props: new Map(), dyn: [], base: null, it })
/** walks an iterable as the language does: { next(), close() } */
export function* cursor(v) {
	v = resolve(v)
	const none = function* () {}
	if (typeof v === 'string') {
		const cs = [...v]
		return { *next() {
			return cs.length ? { v: cs.shift() } : { done: true }
		}, close: none }
	}
	if (isSym(v)) throw new Unsupported('stepwise iteration of an unknown value')
	if (!isRef(v)) yield* throwErr('TypeError', `${show(v)} is not iterable`)
	if (collKind(v)) {
		let pos
		return { *next() {
			const r = yield* collStep(v, undefined, pos)
			pos = r.pos
			return r
		}, close: none }
	}
	const m = resolve(yield* get(v, Symbol.iterator))
	if (m === undefined || m === null) yield* throwErr('TypeError', `${show(v)} is not iterable`)
	return yield* cursorOf(yield* call(m, v, []))
}
/** walks an iterator object; step maps the result of next() when it is to be awaited */
function* cursorOf(it, step) {
	it = resolve(it)
	if (isSym(it)) throw new Unsupported('an unknown iterator')
	if (!isRef(it)) yield* throwErr('TypeError', 'Result of the Symbol.iterator method is not an object')
	if (rd(it).it && !step) return { *next() {
		return yield* iterStep(it)
	}, *close() {} }
	const next = resolve(yield* get(it, 'next'))
	return {
		it,
		*next() {
			let r = yield* call(next, it, [])
			if (step) r = yield* step(r)
			r = resolve(r)
			if (isSym(r)) throw new Unsupported('an unknown iterator')
			if (!isRef(r)) yield* throwErr('TypeError', `Iterator result ${show(r)} is not an object`)
			if (truthy(yield* get(r, 'done'), 'iterator')) return { done: true, v: resolve(yield* get(r, 'value')) }
			return { v: resolve(yield* get(r, 'value')) }
		},
		*close() {
			const f = resolve(yield* get(it, 'return'))
			if (f === undefined || f === null) return
			const r = yield* call(f, it, [])
			if (step) yield* step(r)
		}
	}
}
/** for (x of v): the body's completions, with the iterator closed when the loop is left early */
function* forCursor(c, body) {
	for (let guard = 0; ; guard++) {
		if (guard > 2000) throw new Unsupported('unbounded iteration')
		const r = yield* c.next()
		if (r.done) return undefined
		let comp
		try {
			comp = yield* body(r.v)
		} catch (e) {
			if (e instanceof JSThrow) {
				try {
					yield* c.close()
				} catch (e2) {
					if (!(e2 instanceof JSThrow)) throw e2
				}
			} else if (e instanceof GenReturn) yield* c.close()
			throw e
		}
		if (!comp || (comp.type === 'continue' && !comp.label)) continue
		yield* c.close()
		if (comp.type === 'break' && !comp.label) return undefined
		return comp
	}
}
function* forAwait(n, v, ctx) {
	if (isSym(v) || (isRef(v) && collKind(v) === 'array' && (yield* arrRead(v)).some(isMany))) throw new Unsupported('for await over an unknown collection')
	const am = isRef(v) ? resolve(yield* get(v, Symbol.asyncIterator)) : undefined
	let c
	if (am !== undefined && am !== null) c = yield* cursorOf(yield* call(am, v, []), awaitValue)
	else {
		const s = yield* cursor(v)
		c = { *next() {
			const r = yield* s.next()
			return r.done ? r : { v: yield* awaitValue(r.v) }
		}, close: s.close }
	}
	return yield* forCursor(c, e => loopBody(n, e, ctx))
}

// ------------------------------------------------------------ generators

/** return() at a yield */
export class GenReturn extends Error {
	constructor(v) {
		super('generator return')
		this.v = v
	}
}
/** make() gives the body; it is started on first use, and lives in the partition that starts it */
export function mkGenerator(make, async, proto) {
	return alloc({ kind: 'object', cls: async ? 'AsyncGenerator' : 'Generator', proto: proto ?? R(async ? 'AsyncGeneratorPrototype' : 'GeneratorPrototype'), props: new Map(), dyn: [], base: null, gen: { state: 'start', make, queue: [] } })
}
const setGen = (g, x) => (wr(g).gen = { ...rd(g).gen, ...x })
function genResume(g, kind, v) {
	const st = rd(g).gen
	if (st.state === 'start') setGen(g, { co: st.make(), run: X.run })
	else if (st.run !== X.run) throw new Unsupported('a generator resumed in another exploration than the one that started it')
	const { co } = rd(g).gen
	setGen(g, { state: 'running' })
	try {
		const r = kind === 'next' ? co.next(v) : kind === 'throw' ? co.throw(new JSThrow(v, X.loc)) : co.throw(new GenReturn(v))
		setGen(g, { state: r.done ? 'done' : 'suspended' })
		return r
	} catch (e) {
		setGen(g, { state: 'done' })
		if (e instanceof GenReturn) return { done: true, value: e.v }
		throw e
	}
}
export function* genStep(g, kind, v) {
	g = resolve(g)
	const st = isRef(g) ? rd(g).gen : null
	if (!st) yield* throwErr('TypeError', 'next method called on incompatible receiver')
	if (st.state === 'running') yield* throwErr('TypeError', 'Generator is already running')
	if (st.state === 'start' && kind !== 'next') setGen(g, { state: 'done' })
	if (rd(g).gen.state === 'done') {
		if (kind === 'throw') throw new JSThrow(v, X.loc)
		return iterResult(kind === 'return' ? v : undefined, true)
	}
	const r = genResume(g, kind, v)
	if (r.done) return iterResult(r.value, true)
	if (!('gen' in r.value)) throw new Unsupported('await in a generator')
	return iterResult(r.value.gen, false)
}
export function* asyncGenStep(g, kind, v) {
	g = resolve(g)
	const p = mkPromise()
	const st = rd(g).gen
	setGen(g, { queue: [...st.queue, { kind, v, p }] })
	if (!st.busy) yield* asyncGenDrain(g)
	return p
}
function* asyncGenDrain(g) {
	const settle = function (f) {
		setGen(g, { queue: rd(g).gen.queue.slice(1), busy: false })
		f()
	}
	const { state, queue } = rd(g).gen
	if (!queue.length) return
	const { kind, v, p } = queue[0]
	if (state === 'start' && kind !== 'next') setGen(g, { state: 'done' })
	setGen(g, { busy: true })
	const end = f =>
		(function* () {
			settle(f)
			yield* asyncGenDrain(g)
		})()
	const step = function* (kind, v) {
		let r
		try {
			r = genResume(g, kind, v)
		} catch (e) {
			if (!(e instanceof JSThrow)) throw e
			return yield* end(() => rejectP(p, e.value))
		}
		if (r.done) return yield* end(() => fulfill(p, iterResult(r.value, true)))
		if ('gen' in r.value) return yield* end(() => fulfill(p, iterResult(r.value.gen, false)))
		setGen(g, { state: 'running' })
		yield* subscribe(r.value.await, x => step('next', x), e => step('throw', e))
	}
	if (rd(g).gen.state === 'done') {
		if (kind === 'next') return yield* end(() => fulfill(p, iterResult(undefined, true)))
		if (kind === 'throw') return yield* end(() => rejectP(p, v))
		return yield* subscribe(v, x => end(() => fulfill(p, iterResult(x, true))), e => end(() => rejectP(p, e)))
	}
	if (kind === 'return') return yield* subscribe(v, x => step('return', x), e => step('throw', e))
	return yield* step(kind, v)
}
function* evYield(n, ctx) {
	const async = ctx.fn?.isAsync
	let v = n.expression ? resolve(yield* ev(n.expression, ctx)) : undefined
	if (!n.asteriskToken) {
		if (async) v = yield* awaitValue(v)
		X.loc = n
		return resolve(yield { gen: v })
	}
	let c
	const am = async && isRef(v) ? resolve(yield* get(v, Symbol.asyncIterator)) : undefined
	if (am !== undefined && am !== null) c = yield* cursorOf(yield* call(am, v, []), awaitValue)
	else if (async) throw new Unsupported('yield* of a synchronous iterable in an async generator')
	else c = yield* cursor(v)
	const wait = am !== undefined && am !== null ? awaitValue : function* (x) {
		return x
	}
	const { it } = c
	let r = yield* c.next()
	for (let guard = 0; ; guard++) {
		if (guard > 2000) throw new Unsupported('unbounded iteration')
		if (r.done) return r.v
		let sent
		try {
			sent = yield { gen: r.v }
		} catch (e) {
			if (!(e instanceof JSThrow || e instanceof GenReturn)) throw e
			const f = it ? resolve(yield* get(it, e instanceof JSThrow ? 'throw' : 'return')) : undefined
			if (f === undefined || f === null) {
				if (e instanceof JSThrow && it) yield* c.close()
				throw e
			}
			const x = resolve(yield* wait(yield* call(f, it, [e instanceof JSThrow ? e.value : e.v])))
			const done = truthy(yield* get(x, 'done'), 'iterator')
			const value = resolve(yield* get(x, 'value'))
			if (e instanceof GenReturn && done) throw new GenReturn(value)
			r = { done, v: value }
			continue
		}
		if (!it) r = yield* c.next()
		else {
			const x = resolve(yield* wait(yield* call(yield* get(it, 'next'), it, [sent])))
			r = { done: truthy(yield* get(x, 'done'), 'iterator'), v: resolve(yield* get(x, 'value')) }
		}
	}
}

/**
 * Runs body over the segments; a summarised segment is treated by a loop summary.
 * body(elem, idx) returns a completion or undefined.
 */
export function* forSegs(segs, body, label) {
	let i = 0
	let exact = true
	for (const s of segs) {
		if (isMany(s)) {
			const c = yield* summarise(s, body, label)
			exact = false
			if (c) return c
		} else {
			const c = yield* body(s, exact ? i++ : freshSym('index', { mask: M.NUM }))
			if (c) {
				if (c.type === 'break' && !c.label) return undefined
				if (c.type === 'continue' && !c.label) continue
				return c
			}
		}
	}
	return undefined
}
function heapSnapshot(S) {
	return S.heap
}
/** the parts of two states that a later statement could tell apart, besides the trace */
function heapChanged(a, b, except) {
	for (const [id, o] of a.heap) {
		if (id === except) continue
		const p = b.heap.get(id)
		if (p !== o && !shallowSame(o, p)) return id
	}
	return null
}
function shallowSame(a, b) {
	if (!b || a.kind !== b.kind) return false
	for (const k of Object.keys(a)) {
		if (k === 'ep') continue
		const x = a[k]
		const y = b[k]
		if (x === y) continue
		if (x instanceof Map) {
			if (!(y instanceof Map) || x.size !== y.size) return false
			for (const [kk, v] of x) {
				const w = y.get(kk)
				if (w === v) continue
				if (typeof v === 'object' && v && typeof w === 'object' && w && !(v instanceof Sym) && !(v instanceof Ref)) {
					for (const f of new Set([...Object.keys(v), ...Object.keys(w)])) if (!Object.is(v[f], w[f])) return false
				} else if (!Object.is(v, w)) return false
			}
			continue
		}
		if (Array.isArray(x) && Array.isArray(y) && x.length === y.length) {
			if (x.every((e, i) => e === y[i] || (typeof e === 'object' && e && y[i] && !(e instanceof Sym) && !(e instanceof Ref) && JSON.stringify(Object.keys(e)) === JSON.stringify(Object.keys(y[i])) && Object.keys(e).every(f => Object.is(e[f], y[i][f]))))) continue
			return false
		}
		if (!Object.is(x, y)) return false
	}
	return true
}

/**
 * Loop summary for zero or more elements described by `many`.
 * One generic iteration is analysed over all its partitions; the loop is then
 *  - one 'loop' effect listing the per-iteration alternatives, when an iteration carries no state to the next;
 *  - otherwise the carried locations are widened until the summary is stable (see join.mjs).
 */
export function* summarise(many, body, label) {
	X.stats.loops++
	const base = X.S.clone()
	const mark = base.trace.length
	const pathMark = base.path.length
	const factsBefore = base.facts
	const elem = many.rep
	function* once() {
		const e = freshSym('each', { mask: maskOf(elem), of: many })
		assumeGeneric(e, elem)
		const idx = freshSym('index', { mask: M.NUM })
		if (many.tag?.idxArr !== undefined) X.S.facts.set(idx.id, { ...(fact(idx) ?? {}), elem: { arr: many.tag.idxArr, v: e } })
		const c = yield* body(e, idx)
		return { c, e }
	}
	let outs
	try {
		outs = explore(base, once, { limit: 400 })
	} catch (e) {
		if (e instanceof Budget && e.local) throw new Unsupported('too many ways through the body of a loop')
		throw e
	}
	const alts = []
	for (const o of outs) {
		if (o.obls) (X.run.obls ??= []).push(...o.obls)
		if (o.kind === 'unsupported' || o.kind === 'stop') throw new Unsupported(o.reason ?? 'the client stops inside a summarised loop')
		for (const t of o.S.taint) if (!X.S.taint.includes(t)) X.S.taint.push(t)
		if (o.S.queue.length !== base.queue.length || o.S.opaque.length !== base.opaque.length) throw new Unsupported('await inside a summarised loop')
		const comp = o.kind === 'throw' ? { type: 'throw', v: o.value, loc: o.loc } : o.value.c
		alts.push({ effects: o.S.trace.slice(mark), path: o.S.path.slice(pathMark), comp: comp && comp.type === 'continue' && !comp.label ? undefined : comp, S: o.S, e: o.kind === 'ok' ? o.value.e : null })
	}
	for (const a of alts) {
		if (a.comp && a.comp.type !== 'break' ) continue
		const ch = heapChanged(base, a.S)
		if (ch !== null) {
			a.changed = ch
		}
	}
	const carried = alts.find(a => a.changed !== undefined && !a.comp)
	if (carried) {
		const o = base.heap.get(carried.changed)
		throw new Unsupported(`summarised loop carries state in ${o?.name ?? o?.kind}`)
	}
	const normal = alts.filter(a => !a.comp)
	const abrupt = alts.filter(a => a.comp)
	effect({ t: 'loop', rep: elem, many, alts: normal.map(a => ({ effects: a.effects, path: a.path, e: a.e, facts: a.S.facts })), label })
	if (abrupt.length) {
		const c = choose(['the loop runs to its end', ...abrupt.map(a => `an iteration ends with ${a.comp.type}`)], 'summarised loop')
		if (c > 0) {
			const a = abrupt[c - 1]
			// adopt the partition of that iteration
			const run = X.run
			const S = X.S
			const n = a.S.clone()
			n.path = [...S.path, ...a.path]
			n.trace = [...S.trace, ...a.effects]
			n.taint = S.taint.slice()
			X.S = n
			X.run = run
			if (a.comp.type === 'throw') throw new JSThrow(a.comp.v, a.comp.loc)
			if (a.comp.type === 'break' && !a.comp.label) return undefined
			return a.comp
		}
	}
	return undefined
}
function assumeGeneric(e, rep) {
	rep = resolve(rep)
	if (!isSym(rep)) {
		assumeEq(e, rep)
		return
	}
	const f = fact(rep)
	if (f) X.S.facts.set(e.id, { ...f, ...(fact(e) ?? {}), ne: [...(f.ne ?? [])] })
	if (rep.opts.elemShape) X.S.facts.set(e.id, { ...(fact(e) ?? {}), elemShape: rep.opts.elemShape })
}

// ------------------------------------------------------------ promises

export function mkPromise() {
	return alloc({ kind: 'promise', proto: R('PromisePrototype'), props: new Map(), dyn: [], state: 'pending', value: undefined, reactions: [] })
}
export function enqueue(gen, label) {
	X.S.queue.push({ gen, label })
}
function settleWith(p, state, value) {
	const o = wr(p)
	if (o.state !== 'pending') return
	o.state = state
	o.value = value
	const rs = o.reactions
	o.reactions = []
	for (const r of rs) enqueue(() => (state === 'fulfilled' ? r.f(value) : r.r(value)))
	if (state === 'rejected' && !rs.length) o.unhandled = true
}
export function fulfill(p, v) {
	settleWith(p, 'fulfilled', v)
}
export function rejectP(p, v) {
	settleWith(p, 'rejected', v)
}
/** is v a thenable? splits when unknown. Returns 'no' | 'promise' | 'opaque' | then-function */
export function* thenableKind(v) {
	v = resolve(v)
	if (isRef(v)) {
		const o = rd(v)
		if (o.kind === 'promise') return 'promise'
		if (o.kind === 'draft' && o.revoked) yield* throwErr('TypeError', "Cannot perform 'get' on a proxy that has been revoked")
		const t = resolve(yield* get(v, 'then'))
		if (isRef(t) && maskOf(t) === M.FUN) return t
		if (isSym(t)) return 'no'
		return 'no'
	}
	if (!isSym(v)) return 'no'
	if (!(maskOf(v) & M.REF)) return 'no'
	if (v.opts.thenable === false || fact(v)?.thenable === false) return 'no'
	if (maskOf(v) & M.PRIM) {
		if (!isMask(v, M.REF, 'thenable')) return 'no'
	}
	const t = resolve(mk('sel', [resolve(v), 'then'], { mask: M.ALL }))
	return isMask(t, M.FUN, 'thenable') ? 'opaque' : 'no'
}
export function* resolveP(p, v) {
	v = resolve(v)
	if (isRef(v) && v === p) {
		rejectP(p, named('TypeError: chaining cycle', { mask: M.OBJ }))
		return
	}
	let k
	try {
		k = yield* thenableKind(v)
	} catch (e) {
		if (e instanceof JSThrow) return void rejectP(p, e.value)
		throw e
	}
	if (k === 'no') fulfill(p, v)
	else if (k === 'promise' || k === 'opaque')
		enqueue(function* () {
			yield* subscribe(v, function* (x) {
				fulfill(p, x)
			}, function* (e) {
				rejectP(p, e)
			})
		})
	else
		enqueue(function* () {
			const rf = mkNative('resolve', function* (_t, [x]) {
				yield* resolveP(p, x)
			})
			const rj = mkNative('reject', function* (_t, [x]) {
				rejectP(p, x)
			})
			try {
				yield* call(k, v, [rf, rj])
			} catch (e) {
				if (e instanceof JSThrow) rejectP(p, e.value)
				else throw e
			}
		})
}
/** f / r are generator continuations run as microtasks */
export function* subscribe(v, f, r) {
	v = resolve(v)
	const k = yield* thenableKind(v)
	v = resolve(v)
	if (k === 'no') {
		enqueue(() => f(v))
		return
	}
	if (k === 'promise') {
		const o = wr(v)
		o.unhandled = false
		o.handled = true
		if (o.state === 'pending') o.reactions.push({ f, r })
		else if (o.state === 'fulfilled') enqueue(() => f(o.value))
		else enqueue(() => r(o.value))
		return
	}
	if (k === 'opaque') {
		const s = fact(v)?.settled
		if (s) enqueue(() => (s.ok ? f(s.v) : r(s.v)))
		else X.S.opaque.push({ sym: v, f, r })
		return
	}
	const p = mkPromise()
	yield* resolveP(p, v)
	yield* subscribe(p, f, r)
}
export function* promiseThen(v, onF, onR) {
	const p = mkPromise()
	onF = resolve(onF)
	onR = resolve(onR)
	const h = (cb, pass) =>
		function* (x) {
			if (!isCallable(cb) && !(isSym(cb) && maskOf(cb) & M.FUN)) {
				if (pass === 'f') fulfill(p, x)
				else rejectP(p, x)
				return
			}
			let y
			try {
				y = yield* call(cb, undefined, [x])
			} catch (e) {
				if (!(e instanceof JSThrow)) throw e
				rejectP(p, e.value)
				return
			}
			yield* resolveP(p, y)
		}
	yield* subscribe(v, h(onF, 'f'), h(onR, 'r'))
	return p
}
/** run all pending reactions; opaque promises settle in subscription order */
export function* drain(opts = {}) {
	for (let guard = 0; ; guard++) {
		if (guard > 2000) throw new Unsupported('reactions do not drain')
		if (X.S.queue.length) {
			const j = X.S.queue.shift()
			yield* j.gen()
			continue
		}
		if (X.S.opaque.length && opts.settle !== false) {
			const s = resolve(X.S.opaque[0].sym)
			const mine = X.S.opaque.filter(o => eq3(o.sym, s) === true)
			X.S.opaque = X.S.opaque.filter(o => eq3(o.sym, s) !== true)
			const can = s.opts?.settles ?? opts.settles ?? ['fulfilled', 'rejected']
			const c = can.length === 1 ? 0 : choose(can.map(x => `${show(s)} is ${x}`), 'promise outcome')
			const ok = can[c] === 'fulfilled'
			const v = ok ? mk('resolved', [s], { mask: s.opts?.resolvedMask ?? M.ALL, thenable: false }) : mk('rejection', [s], {})
			X.S.facts.set(s.id, { ...(fact(s) ?? {}), settled: { ok, v } })
			effect({ t: 'settle', promise: s, ok, v })
			for (const o of mine) enqueue(() => (ok ? o.f(v) : o.r(v)))
			continue
		}
		return
	}
}

// ------------------------------------------------------------ calls

export function args1(args) {
	return args.map(resolve)
}
function tick() {
	if (++X.steps > MAX_STEPS * 20) throw new Unsupported('step budget exhausted')
	if ((X.steps & 0x3fff) === 0) {
		const over = overBudget(0)
		if (over) throw new Budget(over)
	}
}
export function* call(fn, thisv, args, node) {
	fn = resolve(fn)
	tick()
	if (isSym(fn)) {
		const m = maskOf(fn)
		if (m & ~M.FUN) {
			if (!(m & M.FUN) || !isMask(fn, M.FUN, 'callable')) yield* throwErr('TypeError', `${show(fn)} is not a function`)
		}
		return yield* opaqueCall(fn, thisv, args)
	}
	if (!isRef(fn)) yield* throwErr('TypeError', `${show(fn)} is not a function`)
	const o = rd(fn)
	switch (o.kind) {
		case 'function':
			return yield* callFunction(fn, thisv, args)
		case 'native': {
			if (!o.impl) throw new Unsupported(`call of ${o.name}`)
			return yield* o.impl(resolve(thisv), o.rawArgs ? args : args, { fn, node })
		}
		case 'bound':
			return yield* call(o.target, o.thisv, [...o.args, ...args])
		case 'proxy': {
			const trap = yield* get(o.handler, 'apply')
			if (resolve(trap) !== undefined) return yield* call(trap, o.handler, [o.target, thisv, mkArray(args)])
			return yield* call(o.target, thisv, args)
		}
	}
	yield* throwErr('TypeError', `${show(fn)} is not a function`)
}
export function touchDrafts(args, tag) {
	for (const a of args) {
		const v = resolve(a)
		if (!isRef(v)) continue
		const o = rd(v)
		if (o.kind === 'draft' && !o.revoked) {
			wr(v).touched = [...(o.touched ?? []), tag]
			const w = wr(o.view)
			const baseTerm = mk('inplace', [o.base_, ...rd(v).touched], { mask: maskOf(o.base_) })
			w.props = new Map()
			w.dyn = []
			if (w.segs) {
				w.segs = [new Many(mk('elemOf', [baseTerm], {}))]
				w.ver++
			} else w.base = baseTerm
			let p = o.parent
			while (p) {
				wr(p).modified = true
				p = rd(p).parent
			}
		}
	}
}
export function* opaqueCall(fn, thisv, args) {
	X.stats.opaque++
	if (fn.opts.pure) return mk('app', [fn, ...args.map(a => (isMany(a) ? a.rep : resolve(a)))], { mask: fn.opts.retMask ?? M.ALL })
	const n = ++X.S.fresh
	const ret = mk(`ret:${n}`, [fn], { name: `result#${n} of ${fn.name ?? show(fn)}`, mask: fn.opts.retMask ?? M.ALL, ...(fn.opts.ret ?? {}) })
	effect({ t: 'call', fn, this: thisv, args: args.slice(), ret })
	touchDrafts(args, ret)
	if (fn.opts.mayThrow) {
		if (choose([`${show(fn)} returns`, `${show(fn)} throws`], 'outcome of an unknown function') === 1) {
			const e = mk(`err:${n}`, [fn], { name: `error of ${fn.name ?? show(fn)}`, mask: M.OBJ })
			throw new JSThrow(e, X.loc)
		}
	}
	return ret
}

function newScope(parent, fnScope = false) {
	return alloc({ kind: 'scope', vars: new Map(), parent, fnScope })
}
const isFnLike = n => ts.isFunctionDeclaration(n) || ts.isFunctionExpression(n) || ts.isArrowFunction(n) || ts.isMethodDeclaration(n) || ts.isGetAccessor(n) || ts.isSetAccessor(n) || ts.isConstructorDeclaration(n)
const hasMod = (n, k) => !!n.modifiers?.some(m => m.kind === k)

export function mkFunction(node, ctx, extra = {}) {
	const isArrow = ts.isArrowFunction(node)
	const noProto = isArrow || ts.isMethodDeclaration(node)
	const f = alloc({
		kind: 'function', proto: R('FunctionPrototype'), props: new Map(), dyn: [], node, scope: ctx.scope, frame: isArrow ? ctx.frame : null, isArrow, mod: ctx.mod,
		isAsync: hasMod(node, K.AsyncKeyword), isGen: !!node.asteriskToken, name: node.name && ts.isIdentifier(node.name) ? node.name.text : (extra.name ?? ''), site: node, ...extra
	})
	return f
}

export function* callFunction(fref, thisv, args, newTarget) {
	const f = rd(fref)
	const node = f.node
	if (f.isClass && !newTarget) yield* throwErr('TypeError', `Class constructor ${f.name} cannot be invoked without 'new'`)
	X.stats.calls.add(node)
	const depth = (X.depth = (X.depth ?? 0) + 1)
	if (depth > 400) {
		X.depth--
		throw new Unsupported('recursion depth')
	}
	try {
		const scope = newScope(f.scope, true)
		if (!f.isArrow && f.name && ts.isFunctionExpression(node) && node.name) wr(scope).vars.set(f.name, { v: fref })
		const frame = f.isArrow ? f.frame : { thisv, newTarget, func: fref, home: f.home ?? null, args }
		const ctx = { scope, frame, mod: f.mod, fn: f }
		const body = function* () {
			yield* bindParams(node.parameters, args, ctx)
			if (!node.body) return undefined
			if (!ts.isBlock(node.body)) return yield* ev(node.body, ctx)
			hoistVars(node.body, ctx)
			const c = yield* execBlockIn(node.body.statements, ctx)
			if (c?.type === 'return') return c.v
			return undefined
		}
		if (f.isGen) {
			// the parameters are bound at the call, the rest runs at the first next()
			yield* bindParams(node.parameters, args, ctx)
			const proto = resolve(yield* get(fref, 'prototype'))
			const p = isRef(proto) && rd(proto).proto !== R('ObjectPrototype') ? proto : undefined
			return mkGenerator(function* () {
				hoistVars(node.body, ctx)
				const c = yield* execBlockIn(node.body.statements, ctx)
				if (c?.type !== 'return') return undefined
				return f.isAsync ? yield* awaitValue(c.v) : c.v
			}, f.isAsync, p)
		}
		if (!f.isAsync) {
			if (predicate(node) && args.some(a => isSym(resolve(a)))) {
				const r = predicateResult(body, scope)
				if (r) return r.v
			}
			const c = yield* body()
			return c
		}
		const p = mkPromise()
		wr(p).fromAsync = f.name || 'async'
		const co = body()
		co.run = X.run
		yield* stepCo(co, p, undefined, false)
		return p
	} finally {
		X.depth--
	}
}
const predicates = new WeakMap()
/** a function that is one returned expression without calls, in a library */
function predicate(node) {
	let r = predicates.get(node)
	if (r === undefined) {
		const b = node.body && ts.isBlock(node.body) ? node.body.statements : null
		r = !!b && b.length === 1 && ts.isReturnStatement(b[0]) && !!b[0].expression && node.getSourceFile().fileName.includes('/node_modules/')
		const visit = n => {
			if (ts.isCallExpression(n) || ts.isNewExpression(n) || ts.isAwaitExpression(n) || isFnLike(n) || ts.isTaggedTemplateExpression(n) || ts.isObjectLiteralExpression(n) || ts.isArrayLiteralExpression(n)) r = false
			else ts.forEachChild(n, visit)
		}
		if (r) visit(b[0].expression)
		predicates.set(node, r)
	}
	return r
}
/** the result, when it is one constant in every partition of the call and nothing else happens: the partitions join */
function predicateResult(body, scope) {
	const base = X.S
	const n = base.trace.length
	let outs
	try {
		outs = explore(base, body, { limit: 50 })
	} catch (e) {
		if (e instanceof Budget && e.local) return null
		throw e
	}
	if (!outs.length) return null
	const v = outs[0].kind === 'ok' ? resolve(outs[0].value) : null
	if (isRef(v) || isSym(v)) return null
	for (const o of outs) {
		if (o.kind !== 'ok' || o.S.trace.length !== n || o.S.taint.length !== base.taint.length || !isConst(resolve(o.value)) || !Object.is(o.value, v)) return null
		if (heapChanged(base, o.S, scope.id) !== null) return null
	}
	return { v }
}
function* stepCo(co, p, input, isThrow) {
	let r
	const savedDepth = X.depth
	if (co.run !== X.run) throw new Unsupported('an async function resumed in another exploration than the one that started it')
	try {
		r = isThrow ? co.throw(new JSThrow(input, X.loc)) : co.next(input)
	} catch (e) {
		if (e instanceof JSThrow) {
			rejectP(p, e.value)
			return
		}
		throw e
	} finally {
		X.depth = savedDepth
	}
	if (r.done) {
		yield* resolveP(p, r.value)
		return
	}
	const v = r.value.await
	yield* subscribe(
		v,
		function* (x) {
			yield* stepCo(co, p, x, false)
		},
		function* (e) {
			yield* stepCo(co, p, e, true)
		}
	)
}

function* bindParams(params, args, ctx) {
	let i = 0
	for (const p of params) {
		if (ts.isIdentifier(p.name) && p.name.text === 'this') continue
		if (p.dotDotDotToken) {
			yield* bindPattern(p.name, mkArray(args.slice(i)), ctx, 'let')
			break
		}
		let v = args[i++]
		if (isMany(v)) throw new Unsupported('spread of a summarised array into positional parameters')
		v = resolve(v)
		if (p.initializer && isMask(v, M.UND, 'default parameter')) v = yield* ev(p.initializer, ctx)
		yield* bindPattern(p.name, v, ctx, 'let')
		if (ts.isConstructorDeclaration(p.parent) && p.modifiers?.some(m => [K.PublicKeyword, K.PrivateKeyword, K.ProtectedKeyword, K.ReadonlyKeyword].includes(m.kind)))
			(ctx.paramProps ??= []).push([p.name.text, v])
	}
}

export function* construct(ctor, args, newTarget = ctor) {
	ctor = resolve(ctor)
	newTarget = resolve(newTarget)
	if (isSym(ctor)) {
		if (maskOf(ctor) & ~M.FUN && !isMask(ctor, M.FUN)) yield* throwErr('TypeError', 'not a constructor')
		const n = ++X.S.fresh
		const r = mk(`new:${n}`, [ctor], { name: `new ${show(ctor)}#${n}`, mask: M.OBJ, ...(ctor.opts.instance ?? {}) })
		effect({ t: 'new', fn: ctor, args: args.slice(), ret: r })
		return r
	}
	if (!isRef(ctor)) yield* throwErr('TypeError', 'not a constructor')
	const f = rd(ctor)
	if (f.kind === 'native') {
		if (!f.ctor) yield* throwErr('TypeError', `${f.name} is not a constructor`)
		return yield* f.ctor(args, newTarget)
	}
	if (f.kind === 'bound') return yield* construct(f.target, [...f.args, ...args], newTarget === ctor ? f.target : newTarget)
	if (f.kind === 'proxy') return yield* construct(f.target, args, newTarget === ctor ? f.target : newTarget)
	if (f.kind !== 'function' || f.isArrow || f.isGen || f.isAsync || ts.isMethodDeclaration(f.node)) yield* throwErr('TypeError', 'not a constructor')
	X.stats.calls.add(f.node)
	const proto = resolve(yield* get(newTarget, 'prototype'))
	if (!f.isClass) {
		const self = alloc({ kind: 'object', proto: isRef(proto) ? proto : R('ObjectPrototype'), props: new Map(), dyn: [], base: null })
		const r = resolve(yield* callFunction(ctor, self, args, newTarget))
		return isRef(r) ? r : self
	}
	const frame = { thisv: undefined, newTarget, func: ctor, home: f.home, args, derived: f.derived, needThis: true }
	if (!f.derived) {
		frame.thisv = alloc({ kind: 'object', proto: isRef(proto) ? proto : R('ObjectPrototype'), props: new Map(), dyn: [], base: null, cls: f.name || 'class' })
		frame.needThis = false
		yield* initFields(f, frame.thisv)
	}
	const c = f.ctorNode
	if (c) {
		const scope = newScope(f.scope, true)
		const ctx = { scope, frame, mod: f.mod, fn: f }
		yield* bindParams(c.parameters, args, ctx)
		frame.paramProps = ctx.paramProps
		if (!f.derived) yield* initParamProps(frame)
		hoistVars(c.body, ctx)
		const comp = yield* execBlockIn(c.body.statements, ctx)
		if (comp?.type === 'return' && isRef(resolve(comp.v))) return resolve(comp.v)
	} else if (f.derived) {
		yield* superCall(frame, args)
	}
	if (frame.needThis) yield* throwErr('ReferenceError', "Must call super constructor before accessing 'this'")
	return frame.thisv
}
function* initParamProps(frame) {
	for (const [n, v] of frame.paramProps ?? []) yield* set(frame.thisv, n, v)
}
function* superCall(frame, args) {
	const f = rd(frame.func)
	const parent = f.proto
	const self = yield* construct(parent, args, frame.newTarget)
	frame.thisv = self
	frame.needThis = false
	yield* initFields(f, self)
	yield* initParamProps(frame)
	return self
}
function* initFields(f, self) {
	for (const m of f.fields ?? []) {
		const ctx = { scope: f.scope, frame: { thisv: self, func: null, home: f.home }, mod: f.mod, fn: f }
		const k = yield* propName(m.name, ctx)
		const v = m.initializer ? yield* evNamed(m.initializer, ctx, typeof k === 'string' ? k : undefined) : undefined
		if (ts.isPrivateIdentifier(m.name)) wr(self).props.set(k, { v, e: false, priv: true })
		else yield* set(self, k, v)
	}
}

// ------------------------------------------------------------ modules

export function* ensureModule(file) {
	const S = X.S
	if (S.mods[file]) return S.mods[file]
	const info = moduleInfo(file)
	const scope = newScope(null, true)
	wr(scope).module = file
	X.S.mods[file] = scope
	// dependency order; libraries are evaluated on first use (their top levels are pure declarations)
	if (!info.lib)
		for (const spec of info.deps) {
			const r = resolveModule(file, spec)
			if (r?.file && !r.lib) yield* ensureModule(r.file)
		}
	const ctx = { scope, frame: { thisv: undefined }, mod: info, fn: null }
	hoistVars(info.sf, ctx)
	const c = yield* execBlockIn(info.sf.statements, ctx)
	wr(scope).evaluated = true
	return scope
}
export function hasExport(file, name, seen = new Set()) {
	if (seen.has(file)) return false
	seen.add(file)
	const info = moduleInfo(file)
	if (info.exports.has(name)) return true
	if (name === 'default') return false
	return info.stars.some(spec => {
		const r = resolveModule(file, spec)
		return r?.file ? hasExport(r.file, name, seen) : false
	})
}
export function exportNames(file, seen = new Set()) {
	if (seen.has(file)) return new Set()
	seen.add(file)
	const info = moduleInfo(file)
	const out = new Set(info.exports.keys())
	for (const spec of info.stars) {
		const r = resolveModule(file, spec)
		if (r?.file) for (const n of exportNames(r.file, seen)) if (n !== 'default') out.add(n)
	}
	return out
}
export function* importFrom(fromFile, spec, name) {
	const r = resolveModule(fromFile, spec)
	if (!r) throw new Unsupported(`cannot resolve ${spec} from ${fromFile}`)
	if (r.model) {
		const ns = yield* modelModule(r.model)
		if (name === '*') return ns
		return yield* get(ns, name)
	}
	if (name === '*') {
		const ns = mkObject({}, null)
		for (const n of exportNames(r.file)) {
			const v = yield* lookupExport(r.file, n)
			if (v !== NOEXPORT) wr(ns).props.set(n, { v, e: true })
		}
		return ns
	}
	const v = yield* lookupExport(r.file, name)
	if (v === NOEXPORT) throw new Unsupported(`no value export ${name} in ${r.file}`)
	return v
}
export const NOEXPORT = Symbol('no export')
export function* lookupExport(file, name, seen = new Set()) {
	const info = moduleInfo(file)
	if (seen.has(file)) return NOEXPORT
	seen.add(file)
	const e = info.exports.get(name)
	if (e) {
		if (e.spec) return yield* importFrom(file, e.spec, e.name)
		yield* ensureModule(file)
		const scope = rd(X.S.mods[file])
		const v = scope.vars.get(e.local)
		if (v) {
			if (v.tdz) yield* throwErr('ReferenceError', `Cannot access '${name}' before initialization`)
			return v.v
		}
		const im = info.imports.get(e.local)
		if (im) return yield* importFrom(file, im.spec, im.name)
		return NOEXPORT
	}
	if (name !== 'default')
		for (const spec of info.stars) {
			const r = resolveModule(file, spec)
			if (!r) continue
			if (r.model) {
				const ns = yield* modelModule(r.model)
				if (yield* hasOwn(ns, name)) return yield* get(ns, name)
				continue
			}
			if (!hasExport(r.file, name) && !starsReachModel(r.file)) continue
			const v = yield* lookupExport(r.file, name, seen)
			if (v !== NOEXPORT) return v
		}
	return NOEXPORT
}
function starsReachModel(file, seen = new Set()) {
	if (seen.has(file)) return false
	seen.add(file)
	return moduleInfo(file).stars.some(s => {
		const r = resolveModule(file, s)
		return r?.model || (r?.file && starsReachModel(r.file, seen))
	})
}

// ------------------------------------------------------------ scopes

function declare(ctx, name, kind) {
	wr(ctx.scope).vars.set(name, { v: undefined, tdz: kind !== 'var' && kind !== 'function', c: kind === 'const' })
}
function hoistVars(node, ctx) {
	const visit = n => {
		if (ts.isVariableDeclarationList(n) && !(n.flags & ts.NodeFlags.BlockScoped)) {
			for (const d of n.declarations) for (const nm of names(d.name)) if (!rd(ctx.scope).vars.has(nm)) declare(ctx, nm, 'var')
		}
		if (isFnLike(n) || ts.isClassLike(n)) return
		ts.forEachChild(n, visit)
	}
	ts.forEachChild(node, visit)
}
function names(n, out = []) {
	if (ts.isIdentifier(n)) out.push(n.text)
	else for (const e of n.elements) if (!ts.isOmittedExpression(e)) names(e.name, out)
	return out
}
function hoistBlock(stmts, ctx) {
	for (const s of stmts) {
		if (ts.isVariableStatement(s) && s.declarationList.flags & ts.NodeFlags.BlockScoped) {
			if (hasMod(s, K.DeclareKeyword)) continue
			const c = s.declarationList.flags & ts.NodeFlags.Const
			for (const d of s.declarationList.declarations) for (const n of names(d.name)) declare(ctx, n, c ? 'const' : 'let')
		} else if (ts.isClassDeclaration(s) && s.name) declare(ctx, s.name.text, 'let')
		else if (ts.isEnumDeclaration(s)) declare(ctx, s.name.text, 'let')
	}
	for (const s of stmts)
		if (ts.isFunctionDeclaration(s) && s.body) {
			const n = s.name?.text ?? '*default*'
			wr(ctx.scope).vars.set(n, { v: mkFunction(s, ctx) })
		}
}
export function lookupVar(ctx, name) {
	let id = ctx.scope
	while (id) {
		const o = rd(id)
		const v = o.vars.get(name)
		if (v) return { scope: id, v }
		if (o.module) return { module: o.module }
		id = o.parent
	}
	return null
}
function* readVar(ctx, name, node) {
	const r = lookupVar(ctx, name)
	if (r?.v) {
		if (r.v.tdz) yield* throwErr('ReferenceError', `Cannot access '${name}' before initialization`)
		return resolve(r.v.v)
	}
	if (r?.module) {
		const info = moduleInfo(r.module)
		const im = info.imports.get(name)
		if (im) return resolve(yield* importFrom(r.module, im.spec, im.name))
	}
	if (name === 'undefined') return undefined
	if (name === 'NaN') return NaN
	if (name === 'Infinity') return Infinity
	if (name === 'arguments' && ctx.frame?.args) return mkArray(ctx.frame.args)
	const g = rd(X.S.g.globalThis)
	const p = g.props.get(name)
	if (p) return p.get ? yield* call(p.get, X.S.g.globalThis, []) : resolve(p.v)
	throw new Unsupported(`unknown global '${name}'`)
}
function* writeVar(ctx, name, v) {
	const r = lookupVar(ctx, name)
	if (!r?.v) {
		if (rd(X.S.g.globalThis).props.has(name)) {
			yield* set(X.S.g.globalThis, name, v)
			return
		}
		throw new Unsupported(`assignment to unknown variable '${name}'`)
	}
	if (r.v.tdz) yield* throwErr('ReferenceError', `Cannot access '${name}' before initialization`)
	if (r.v.c) yield* throwErr('TypeError', 'Assignment to constant variable.')
	wr(r.scope).vars.set(name, { ...r.v, v })
}
function initVar(ctx, name, v, kind) {
	// find the declaring scope (block for let/const, function for var)
	let id = ctx.scope
	while (id) {
		const o = rd(id)
		if (o.vars.has(name)) {
			const e = o.vars.get(name)
			wr(id).vars.set(name, { v, c: kind === 'const' })
			return
		}
		id = o.parent
	}
	wr(ctx.scope).vars.set(name, { v, c: kind === 'const' })
}

/** binds a pattern to a value; mode 'let'|'const'|'var' declares in ctx.scope, 'assign' writes */
export function* bindPattern(pat, v, ctx, mode) {
	if (ts.isIdentifier(pat)) {
		if (mode === 'assign') yield* writeVar(ctx, pat.text, v)
		else if (mode === 'var') initVar(ctx, pat.text, v, 'var')
		else wr(ctx.scope).vars.set(pat.text, { v, c: mode === 'const' })
		return
	}
	if (ts.isObjectBindingPattern(pat)) {
		v = resolve(v)
		if (v === undefined || v === null) yield* throwErr('TypeError', `Cannot destructure ${v}`)
		if (isSym(v) && maskOf(v) & M.NULLISH && isMask(v, M.NULLISH, 'destructuring')) yield* throwErr('TypeError', 'Cannot destructure a nullish value')
		const used = []
		for (const e of pat.elements) {
			if (e.dotDotDotToken) {
				const o = mkObject({})
				yield* copyProps(o, v)
				for (const k of used) yield* del(o, k)
				yield* bindPattern(e.name, o, ctx, mode)
				continue
			}
			const k = e.propertyName ? yield* propName(e.propertyName, ctx) : e.name.text
			used.push(k)
			let x = resolve(yield* get(v, k))
			if (e.initializer && isMask(x, M.UND, 'default')) x = yield* ev(e.initializer, ctx)
			yield* bindPattern(e.name, x, ctx, mode)
		}
		return
	}
	if (ts.isArrayBindingPattern(pat)) {
		yield* bindArray(pat.elements, v, ctx, (n, x) => bindPattern(n, x, ctx, mode))
		return
	}
	throw new Unsupported(`pattern ${K[pat.kind]}`)
}
function* bindArray(elements, v, ctx, bind) {
	v = resolve(v)
	if (isSym(v)) {
		let i = 0
		for (const e of elements) {
			if (ts.isOmittedExpression(e)) {
				i++
				continue
			}
			if (e.dotDotDotToken) throw new Unsupported('rest of unknown iterable')
			let x = yield* get(v, String(i++))
			if (e.initializer && isMask(x, M.UND, 'default')) x = yield* ev(e.initializer, ctx)
			yield* bind(e.name, x)
		}
		return
	}
	const segs = yield* pull(v, elements.length, elements.some(e => e.dotDotDotToken))
	let i = 0
	for (const e of elements) {
		if (ts.isOmittedExpression(e)) {
			i++
			continue
		}
		if (e.dotDotDotToken) {
			yield* bind(e.name, mkArray(segs.slice(i)))
			break
		}
		let x = segs[i++]
		if (isMany(x)) throw new Unsupported('destructuring a summarised array')
		x = resolve(x)
		if (e.initializer && isMask(x, M.UND, 'default')) x = yield* ev(e.initializer, ctx)
		yield* bind(e.name, x)
	}
}
/** assignment destructuring: expression patterns */
function* assignPattern(node, v, ctx) {
	node = unwrap(node)
	if (ts.isObjectLiteralExpression(node)) {
		const used = []
		v = resolve(v)
		if (v === undefined || v === null) yield* throwErr('TypeError', `Cannot destructure ${v}`)
		for (const p of node.properties) {
			if (ts.isSpreadAssignment(p)) {
				const o = mkObject({})
				yield* copyProps(o, v)
				for (const k of used) yield* del(o, k)
				yield* assignTo(p.expression, o, ctx)
				continue
			}
			if (ts.isShorthandPropertyAssignment(p)) used.push(p.name.text)
			if (ts.isShorthandPropertyAssignment(p)) {
				let x = resolve(yield* get(v, p.name.text))
				if (p.objectAssignmentInitializer && isMask(x, M.UND, 'default')) x = yield* ev(p.objectAssignmentInitializer, ctx)
				yield* writeVar(ctx, p.name.text, x)
			} else if (ts.isPropertyAssignment(p)) {
				const k = yield* propName(p.name, ctx)
				used.push(k)
				let target = p.initializer
				let x = resolve(yield* get(v, k))
				if (ts.isBinaryExpression(target) && target.operatorToken.kind === K.EqualsToken) {
					if (isMask(x, M.UND, 'default')) x = yield* ev(target.right, ctx)
					target = target.left
				}
				yield* assignTo(target, x, ctx)
			} else throw new Unsupported('assignment pattern')
		}
		return
	}
	const segs = yield* pull(v, node.elements.length, node.elements.some(e => ts.isSpreadElement(e)))
	let i = 0
	for (const e of node.elements) {
		if (ts.isOmittedExpression(e)) {
			i++
			continue
		}
		if (ts.isSpreadElement(e)) {
			yield* assignTo(e.expression, mkArray(segs.slice(i)), ctx)
			break
		}
		let t = e
		let x = segs[i++]
		if (isMany(x)) throw new Unsupported('destructuring a summarised array')
		if (ts.isBinaryExpression(t) && t.operatorToken.kind === K.EqualsToken) {
			if (isMask(x, M.UND, 'default')) x = yield* ev(t.right, ctx)
			t = t.left
		}
		yield* assignTo(t, x, ctx)
	}
}
function unwrap(n) {
	while (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isTypeAssertionExpression(n) || ts.isSatisfiesExpression?.(n)) n = n.expression
	return n
}
function* assignTo(target, v, ctx) {
	target = unwrap(target)
	if (ts.isIdentifier(target)) return yield* writeVar(ctx, target.text, v)
	if (ts.isPropertyAccessExpression(target)) {
		const b = yield* ev(target.expression, ctx)
		X.loc = target
		return yield* set(b, target.name.text, v)
	}
	if (ts.isElementAccessExpression(target)) {
		const b = yield* ev(target.expression, ctx)
		const k = yield* keyAt(target.argumentExpression, ctx)
		X.loc = target
		return yield* set(b, k, v)
	}
	if (ts.isObjectLiteralExpression(target) || ts.isArrayLiteralExpression(target)) return yield* assignPattern(target, v, ctx)
	throw new Unsupported(`assignment target ${K[target.kind]}`)
}
function* keyAt(n, ctx) {
	return toKey(yield* toPrim(yield* ev(n, ctx), 'string'))
}

function* propName(n, ctx) {
	if (ts.isIdentifier(n) || ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return n.text
	if (ts.isPrivateIdentifier(n)) return n.text
	if (ts.isNumericLiteral(n)) return String(Number(n.text.replace(/_/g, '')))
	if (ts.isComputedPropertyName(n)) return yield* keyAt(n.expression, ctx)
	throw new Unsupported(`property name ${K[n.kind]}`)
}

// ------------------------------------------------------------ statements

export function* execBlockIn(stmts, ctx) {
	hoistBlock(stmts, ctx)
	for (const s of stmts) {
		const c = yield* exec(s, ctx)
		if (c) return c
	}
	return undefined
}
function* execBlock(stmts, ctx) {
	return yield* execBlockIn(stmts, { ...ctx, scope: newScope(ctx.scope) })
}

function* exec(n, ctx) {
	X.loc = n
	switch (n.kind) {
		case K.ExpressionStatement:
			yield* ev(n.expression, ctx)
			return
		case K.VariableStatement:
			if (hasMod(n, K.DeclareKeyword)) return
			yield* execVarList(n.declarationList, ctx)
			return
		case K.ReturnStatement: {
			const v = n.expression ? yield* ev(n.expression, ctx) : undefined
			return { type: 'return', v }
		}
		case K.IfStatement: {
			const c = yield* ev(n.expression, ctx)
			X.loc = n.expression
			if (truthy(c, 'if')) return yield* exec(n.thenStatement, ctx)
			if (n.elseStatement) return yield* exec(n.elseStatement, ctx)
			return
		}
		case K.Block:
			return yield* execBlock(n.statements, ctx)
		case K.FunctionDeclaration:
		case K.InterfaceDeclaration:
		case K.TypeAliasDeclaration:
		case K.ImportDeclaration:
		case K.ExportDeclaration:
		case K.EmptyStatement:
		case K.NotEmittedStatement:
			return
		case K.ModuleDeclaration: {
			if (hasMod(n, K.DeclareKeyword) || !n.body) return
			const onlyTypes = ts.isModuleBlock(n.body) && n.body.statements.every(s => ts.isTypeAliasDeclaration(s) || ts.isInterfaceDeclaration(s))
			if (!onlyTypes) throw new Unsupported('namespace with values')
			return
		}
		case K.ExportAssignment: {
			const v = yield* ev(n.expression, ctx)
			wr(ctx.scope).vars.set('*default*', { v })
			return
		}
		case K.ClassDeclaration: {
			const c = yield* evClass(n, ctx)
			initVar(ctx, n.name?.text ?? '*default*', c, 'let')
			return
		}
		case K.EnumDeclaration: {
			const o = mkObject({})
			let next = 0
			for (const m of n.members) {
				const k = yield* propName(m.name, ctx)
				const v = m.initializer ? yield* ev(m.initializer, ctx) : next
				if (typeof v === 'number') {
					next = v + 1
					yield* set(o, String(v), k)
				}
				yield* set(o, k, v)
			}
			initVar(ctx, n.name.text, o, 'const')
			return
		}
		case K.ThrowStatement: {
			const v = yield* ev(n.expression, ctx)
			throw new JSThrow(v, n)
		}
		case K.TryStatement: {
			let c
			let pending = null
			try {
				c = yield* execBlock(n.tryBlock.statements, ctx)
			} catch (e) {
				if (!(e instanceof JSThrow || e instanceof GenReturn)) throw e
				if (!n.catchClause || e instanceof GenReturn) pending = e
				else {
					const cctx = { ...ctx, scope: newScope(ctx.scope) }
					try {
						if (n.catchClause.variableDeclaration) yield* bindPattern(n.catchClause.variableDeclaration.name, e.value, cctx, 'let')
						c = yield* execBlock(n.catchClause.block.statements, cctx)
					} catch (e2) {
						if (!(e2 instanceof JSThrow || e2 instanceof GenReturn) || !n.finallyBlock) throw e2
						pending = e2
					}
				}
			}
			if (n.finallyBlock) {
				const fc = yield* execBlock(n.finallyBlock.statements, ctx)
				if (fc) return fc
			}
			if (pending) throw pending
			return c
		}
		case K.ForOfStatement: {
			const it = resolve(yield* ev(n.expression, ctx))
			if (n.awaitModifier) return yield* forAwait(n, it, ctx)
			const coll = isRef(it) ? collKind(it) : null
			const summarised = isSym(it) || (coll === 'array' && (yield* arrRead(it)).some(isMany)) || (isRef(it) && rd(it).kind === 'proxy' && resolve(yield* get(rd(it).handler, 'get')) === undefined)
			if (!summarised) return yield* forCursor(yield* cursor(it), e => loopBody(n, e, ctx))
			const segs = yield* iterate(it)
			return yield* labelled(n, yield* forSegs(segs, e => loopBody(n, e, ctx), n))
		}
		case K.ForInStatement: {
			const o = resolve(yield* ev(n.expression, ctx))
			if (o === undefined || o === null) return
			const keys = (yield* ownKeys(o, 'string')).slice()
			// keys of the prototypes that are not hidden; keys deleted meanwhile are skipped
			for (let p = isRef(o) ? protoOf(o) : null, seen = isRef(o) ? yield* ownKeys(o, 'string', false) : []; p; p = protoOf(p)) {
				for (const k of yield* ownKeys(p, 'string')) {
					if (isMany(k)) throw new Unsupported('for in over an unknown prototype')
					if (!seen.some(x => !isMany(x) && eq3(x, k) === true)) keys.push(k)
				}
				seen = [...seen, ...(yield* ownKeys(p, 'string', false))]
			}
			return yield* labelled(n, yield* forSegs(keys, function* (e) {
				if (isRef(o) && !isSym(e) && !(yield* hasProp(o, e))) return undefined
				return yield* loopBody(n, e, ctx)
			}, n))
		}
		case K.ForStatement:
			return yield* execFor(n, ctx)
		case K.WhileStatement:
		case K.DoStatement: {
			let first = n.kind === K.DoStatement
			for (let i = 0; ; i++) {
				if (!first) {
					const before = X.S.path.length
					const c = yield* ev(n.expression, ctx)
					X.loc = n.expression
					const t = truthy3(c)
					if (t === null || X.S.path.length > before) ctx.loopForks = (ctx.loopForks ?? 0) + 1
					if (!truthy(c, 'while')) return
				}
				first = false
				if (i > MAX_UNROLL || (ctx.loopForks ?? 0) > 8) throw new Unsupported('loop with an undecided condition')
				const comp = ownLabel(n, yield* exec(n.statement, ctx))
				if (comp) {
					if (comp.type === 'break' && !comp.label) return
					if (comp.type === 'continue' && !comp.label) continue
					return comp
				}
			}
		}
		case K.BreakStatement:
			return { type: 'break', label: n.label?.text }
		case K.ContinueStatement:
			return { type: 'continue', label: n.label?.text }
		case K.LabeledStatement: {
			const c = yield* exec(n.statement, ctx)
			if (c && c.label === n.label.text) return
			return c
		}
		case K.SwitchStatement: {
			const v = yield* ev(n.expression, ctx)
			const sctx = { ...ctx, scope: newScope(ctx.scope) }
			hoistBlock(n.caseBlock.clauses.flatMap(c => [...c.statements]), sctx)
			let on = -1
			const cl = n.caseBlock.clauses
			for (let i = 0; i < cl.length && on < 0; i++) {
				if (ts.isDefaultClause(cl[i])) continue
				const w = yield* ev(cl[i].expression, sctx)
				X.loc = cl[i]
				if (strictEq(v, w)) on = i
			}
			if (on < 0) on = cl.findIndex(c => ts.isDefaultClause(c))
			if (on < 0) return
			for (let i = on; i < cl.length; i++)
				for (const s of cl[i].statements) {
					const c = yield* exec(s, sctx)
					if (c) {
						if (c.type === 'break' && !c.label) return
						return c
					}
				}
			return
		}
	}
	throw new Unsupported(`statement ${K[n.kind]}`)
}
function protoOf(r) {
	const o = rd(r)
	return o.kind === 'draft' ? rd(o.view).proto : o.kind === 'proxy' ? protoOf(o.target) : o.proto
}
function* labelled(n, c) {
	return c
}
/** a completion naming a label of this very loop is as one without label */
function ownLabel(n, c) {
	if (c?.label) for (let p = n.parent; p && ts.isLabeledStatement(p); p = p.parent) if (p.label.text === c.label) return { ...c, label: undefined }
	return c
}
function* loopBody(n, elem, ctx) {
	const bctx = { ...ctx, scope: newScope(ctx.scope) }
	const init = n.initializer
	if (ts.isVariableDeclarationList(init)) {
		const mode = init.flags & ts.NodeFlags.Const ? 'const' : init.flags & ts.NodeFlags.Let ? 'let' : 'var'
		yield* bindPattern(init.declarations[0].name, elem, bctx, mode)
	} else yield* assignTo(init, elem, bctx)
	const c = ownLabel(n, yield* exec(n.statement, bctx))
	if (c?.type === 'continue' && !c.label) return undefined
	return c
}
function* execVarList(l, ctx) {
	const mode = l.flags & ts.NodeFlags.Const ? 'const' : l.flags & ts.NodeFlags.Let ? 'let' : 'var'
	for (const d of l.declarations) {
		if (!d.initializer) {
			if (mode !== 'var') for (const nm of names(d.name)) wr(ctx.scope).vars.set(nm, { v: undefined })
			continue
		}
		const v = yield* evNamed(d.initializer, ctx, ts.isIdentifier(d.name) ? d.name.text : undefined)
		X.loc = d
		yield* bindPattern(d.name, v, ctx, mode)
	}
}
/** for (let i = 0; i < X.length; i++) over a summarised collection: the index ranges over its positions */
function* execFor(n, ctx) {
	let c = { ...ctx, scope: newScope(ctx.scope) }
	if (n.initializer) {
		if (ts.isVariableDeclarationList(n.initializer)) yield* execVarList(n.initializer, c)
		else yield* ev(n.initializer, c)
	}
	let forks = 0
	for (let i = 0; ; i++) {
		if (n.condition) {
			if (i === 0) {
				const s = yield* indexLoop(n, c)
				if (s !== undefined) return s.c
			}
			const before = X.S.path.length
			const v = yield* ev(n.condition, c)
			X.loc = n.condition
			const t = truthy(v, 'for')
			if (X.S.path.length > before) forks++
			if (!t) return
		}
		if (i > MAX_UNROLL || forks > 8) throw new Unsupported('loop with an undecided condition')
		const comp = ownLabel(n, yield* exec(n.statement, c))
		if (comp) {
			if (comp.type === 'break' && !comp.label) return
			if (!(comp.type === 'continue' && !comp.label)) return comp
		}
		// per-iteration binding
		const o = rd(c.scope)
		const ns = newScope(ctx.scope)
		wr(ns).vars = new Map(o.vars)
		c = { ...c, scope: ns }
		if (n.incrementor) yield* ev(n.incrementor, c)
	}
}
function* indexLoop(n, c) {
	const cond = unwrap(n.condition)
	if (!ts.isBinaryExpression(cond)) return undefined
	if (cond.operatorToken.kind !== K.LessThanToken && cond.operatorToken.kind !== K.ExclamationEqualsEqualsToken) return undefined
	if (!ts.isIdentifier(cond.left)) return undefined
	const iv = lookupVar(c, cond.left.text)
	if (!iv?.v || resolve(iv.v.v) !== 0) return undefined
	const inc = n.incrementor && unwrap(n.incrementor)
	const isInc = inc && (((ts.isPostfixUnaryExpression(inc) || ts.isPrefixUnaryExpression(inc)) && inc.operator === K.PlusPlusToken && ts.isIdentifier(inc.operand) && inc.operand.text === cond.left.text) || (ts.isBinaryExpression(inc) && inc.operatorToken.kind === K.PlusEqualsToken && ts.isIdentifier(inc.left) && inc.left.text === cond.left.text && ts.isNumericLiteral(inc.right) && inc.right.text === '1'))
	if (!isInc) return undefined
	const before = X.S.path.length
	const bound = resolve(yield* ev(cond.right, c))
	if (!isSym(bound) || bound.op !== 'len') return undefined
	const coll = bound.args[0]
	let segs
	if (isRef(coll)) {
		const o = rd(coll)
		if (o.kind !== 'array' || o.ver !== bound.args[1]) return undefined
		segs = o.segs.slice()
	} else if (isSym(coll) && coll.op === 'collection') {
		segs = [new Many(mk('elemOf', [coll], { mask: M.STR }))]
	} else return undefined
	const name = cond.left.text
	const res = yield* forSegs(segs, function* (e) {
		const b = { ...c, scope: newScope(c.scope) }
		const idx = freshSym('i', { mask: M.NUM })
		X.S.facts.set(idx.id, { ...(fact(idx) ?? {}), elem: { arr: isRef(coll) ? coll.id : coll, v: e } })
		wr(b.scope).vars.set(name, { v: idx })
		const r = ownLabel(n, yield* exec(n.statement, b))
		return r?.type === 'continue' && !r.label ? undefined : r
	}, n)
	return { c: res }
}

// ------------------------------------------------------------ expressions

function* evNamed(n, ctx, name) {
	const v = yield* ev(n, ctx)
	const u = unwrap(n)
	if (name && (ts.isArrowFunction(u) || ts.isFunctionExpression(u) || ts.isClassExpression(u)) && isRef(v) && !rd(v).name) wr(v).name = name
	return v
}

export function* ev(n, ctx) {
	tick()
	switch (n.kind) {
		case K.NumericLiteral:
			return Number(n.text.replace(/_/g, ''))
		case K.StringLiteral:
		case K.NoSubstitutionTemplateLiteral:
			return n.text
		case K.BigIntLiteral:
			return BigInt(n.text.replace(/n$/, ''))
		case K.TrueKeyword:
			return true
		case K.FalseKeyword:
			return false
		case K.NullKeyword:
			return null
		case K.ThisKeyword:
			if (ctx.frame?.needThis) yield* throwErr('ReferenceError', "Must call super constructor before accessing 'this'")
			return resolve(ctx.frame?.thisv)
		case K.Identifier:
			return yield* readVar(ctx, n.text, n)
		case K.ParenthesizedExpression:
		case K.AsExpression:
		case K.NonNullExpression:
		case K.TypeAssertionExpression:
		case K.SatisfiesExpression:
		case K.PartiallyEmittedExpression:
			return yield* ev(n.expression, ctx)
		case K.ExpressionWithTypeArguments:
			return yield* ev(n.expression, ctx)
		case K.TemplateExpression: {
			const parts = [n.head.text]
			for (const s of n.templateSpans) {
				const v = yield* toPrim(yield* ev(s.expression, ctx), 'string')
				if (typeof v === 'symbol' || (isSym(v) && maskOf(v) === M.SYM)) yield* throwErr('TypeError', 'Cannot convert a Symbol value to a string')
				parts.push(toStr(v), s.literal.text)
			}
			return concat(...parts)
		}
		case K.ObjectLiteralExpression:
			return yield* evObject(n, ctx)
		case K.ArrayLiteralExpression: {
			const segs = []
			for (const e of n.elements) {
				if (ts.isOmittedExpression(e)) segs.push(undefined)
				else if (ts.isSpreadElement(e)) segs.push(...(yield* iterate(yield* ev(e.expression, ctx))))
				else segs.push(yield* ev(e, ctx))
			}
			X.loc = n
			return mkArray(segs)
		}
		case K.ArrowFunction:
		case K.FunctionExpression:
			return mkFunction(n, ctx)
		case K.ClassExpression:
			return yield* evClass(n, ctx)
		case K.RegularExpressionLiteral: {
			const i = n.text.lastIndexOf('/')
			return mkRegExp(n.text.slice(1, i), n.text.slice(i + 1))
		}
		case K.ConditionalExpression: {
			const c = yield* ev(n.condition, ctx)
			X.loc = n.condition
			return truthy(c, '?:') ? yield* ev(n.whenTrue, ctx) : yield* ev(n.whenFalse, ctx)
		}
		case K.BinaryExpression:
			return yield* evBinary(n, ctx)
		case K.PrefixUnaryExpression:
			return yield* evPrefix(n, ctx)
		case K.PostfixUnaryExpression: {
			const r = yield* lref(n.operand, ctx)
			const old = yield* toNum(yield* lget(r, ctx))
			const nv = arith(n.operator === K.PlusPlusToken ? '+' : '-', old, typeof old === 'bigint' ? 1n : 1)
			X.loc = n
			yield* lset(r, nv, ctx)
			return old
		}
		case K.TypeOfExpression: {
			const u = unwrap(n.expression)
			if (ts.isIdentifier(u)) {
				const r = lookupVar(ctx, u.text)
				if (!r?.v && !(r?.module && moduleInfo(r.module).imports.has(u.text)) && !['undefined', 'NaN', 'Infinity', 'arguments'].includes(u.text) && !rd(X.S.g.globalThis).props.has(u.text)) {
					if (Object.hasOwn(rd(X.S.g.globalThis).real, u.text)) throw new Unsupported(`unknown global '${u.text}'`)
					return 'undefined'
				}
			}
			const v = resolve(yield* ev(n.expression, ctx))
			X.loc = n
			return typeofValue(v)
		}
		case K.VoidExpression:
			yield* ev(n.expression, ctx)
			return undefined
		case K.DeleteExpression: {
			const t = unwrap(n.expression)
			if (!ts.isPropertyAccessExpression(t) && !ts.isElementAccessExpression(t)) throw new Unsupported('delete target')
			const b = yield* evChain(t.expression, ctx)
			if (b.short) return true
			const base = resolve(b.v)
			if (t.questionDotToken && isMask(base, M.NULLISH, '?.')) return true
			const k = ts.isPropertyAccessExpression(t) ? t.name.text : yield* keyAt(t.argumentExpression, ctx)
			X.loc = n
			return yield* del(base, k)
		}
		case K.AwaitExpression: {
			const v = yield* ev(n.expression, ctx)
			X.loc = n
			return yield* awaitValue(v)
		}
		case K.PropertyAccessExpression:
		case K.ElementAccessExpression:
		case K.CallExpression: {
			const r = yield* evChain(n, ctx)
			return r.short ? undefined : resolve(r.v)
		}
		case K.NewExpression: {
			const c = yield* ev(n.expression, ctx)
			const args = yield* evArgs(n.arguments ?? [], ctx)
			X.loc = n
			return yield* construct(c, args)
		}
		case K.CommaListExpression:
			throw new Unsupported('comma list')
		case K.MetaProperty:
			if (n.keywordToken === K.NewKeyword) return ctx.frame?.newTarget
			throw new Unsupported('import.meta')
		case K.SuperKeyword:
			throw new Unsupported('super')
		case K.YieldExpression:
			return yield* evYield(n, ctx)
		case K.SpreadElement:
			throw new Unsupported('spread')
		case K.TaggedTemplateExpression:
		{
			const c = yield* evChain(n.tag, ctx)
			const spans = ts.isNoSubstitutionTemplateLiteral(n.template) ? [] : n.template.templateSpans
			const quasis = [ts.isNoSubstitutionTemplateLiteral(n.template) ? n.template : n.template.head, ...spans.map(s => s.literal)]
			const strings = mkArray(quasis.map(q => q.text))
			wr(strings).props.set('raw', { v: mkArray(quasis.map(q => q.rawText ?? q.text)), e: false })
			const args = [strings]
			for (const s of spans) args.push(yield* ev(s.expression, ctx))
			X.loc = n
			return resolve(yield* call(c.v, c.thisv, args, n))
		}
	}
	throw new Unsupported(`expression ${K[n.kind]}`)
}

export function* awaitValue(v) {
	const r = yield { await: v }
	return resolve(r)
}
export function typeofValue(v) {
	v = resolve(v)
	const names = typeNames(maskOf(v))
	if (names.length === 1) return names[0]
	return mk('typeof', [v], { mask: M.STR })
}
/** conversion of an object to a primitive value */
export function* toPrim(v, hint = 'default') {
	v = resolve(v)
	if (!isRef(v)) return v
	const o = rd(v)
	if (o.base || o.dyn.length || o.kind === 'opaqueNs' || (o.kind === 'draft' && (rd(o.view).base || rd(o.view).dyn.length))) return v
	const ex = resolve(yield* get(v, Symbol.toPrimitive))
	if (ex !== undefined && ex !== null) {
		const r = resolve(yield* call(ex, v, [hint]))
		if (isRef(r)) yield* throwErr('TypeError', 'Cannot convert object to primitive value')
		return r
	}
	if (o.cls === 'Date' && hint === 'default') hint = 'string'
	for (const m of hint === 'string' ? ['toString', 'valueOf'] : ['valueOf', 'toString']) {
		const f = resolve(yield* get(v, m))
		if (isSym(f) && maskOf(f) & M.FUN) return v
		if (!isCallable(f)) continue
		const r = resolve(yield* call(f, v, []))
		if (!isRef(r)) return r
	}
	yield* throwErr('TypeError', 'Cannot convert object to primitive value')
}
export function* arrJoin(segs, sep) {
	if (segs.some(isMany)) return mk('join', [...segs, sep], { mask: M.STR })
	const out = []
	for (let i = 0; i < segs.length; i++) {
		if (i) out.push(sep)
		const s = resolve(segs[i])
		out.push(s === undefined || s === null ? '' : toStr(yield* toPrim(s, 'string')))
	}
	return concat(...out)
}
export function mkRegExp(source, flags) {
	return alloc({ kind: 'regexp', proto: R('RegExpPrototype'), props: new Map([['lastIndex', { v: 0, e: false }]]), dyn: [], source, flags, cls: 'RegExp' })
}

export function* evArgs(list, ctx) {
	const out = []
	for (const a of list) {
		if (ts.isSpreadElement(a)) out.push(...(yield* iterate(yield* ev(a.expression, ctx))))
		else out.push(yield* ev(a, ctx))
	}
	return out
}

/** member / call chains with optional links; gives { v, thisv } or { short: true } */
function* evChain(n, ctx) {
	if (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n)) {
		const u = unwrap(n)
		if (ts.isPropertyAccessExpression(u) || ts.isElementAccessExpression(u) || ts.isCallExpression(u)) {
			const r = yield* evChain(u, ctx)
			// (a?.b).c ends the chain; a?.b!.c does not
			if (r.short && ts.isParenthesizedExpression(n)) return { v: undefined }
			return r
		}
		return { v: yield* ev(u, ctx) }
	}
	if (ts.isPropertyAccessExpression(n) || ts.isElementAccessExpression(n)) {
		if (n.expression.kind === K.SuperKeyword) {
			const home = rd(ctx.frame.home)
			const key = ts.isPropertyAccessExpression(n) ? n.name.text : yield* keyAt(n.argumentExpression, ctx)
			const v = home.proto ? yield* get(home.proto, key, ctx.frame.thisv) : undefined
			return { v, thisv: ctx.frame.thisv }
		}
		const b = yield* evChain(n.expression, ctx)
		if (b.short) return b
		const base = resolve(b.v)
		if (n.questionDotToken) {
			X.loc = n
			if (isMask(base, M.NULLISH, '?.')) return { short: true }
		}
		const key = ts.isPropertyAccessExpression(n) ? n.name.text : yield* keyAt(n.argumentExpression, ctx)
		X.loc = n
		if (!ts.isPropertyAccessExpression(n)) X.stats.dynamic.add(n)
		const v = yield* get(base, key)
		return { v, thisv: base }
	}
	if (ts.isCallExpression(n)) {
		if (n.expression.kind === K.SuperKeyword) {
			const args = yield* evArgs(n.arguments, ctx)
			X.loc = n
			return { v: yield* superCall(ctx.frame, args) }
		}
		if (n.expression.kind === K.ImportKeyword) throw new Unsupported('dynamic import')
		const c = yield* evChain(n.expression, ctx)
		if (c.short) return c
		if (n.questionDotToken) {
			X.loc = n
			if (isMask(c.v, M.NULLISH, '?.()')) return { short: true }
		}
		const args = yield* evArgs(n.arguments, ctx)
		X.loc = n
		X.stats.callSites.add(n)
		note(n, c.v)
		const v = yield* callNamed(c.v, c.thisv, args, n)
		return { v }
	}
	return { v: yield* ev(n, ctx) }
}
/** what the call sites of the sources are resolved to, for the evidence */
function note(n, f) {
	f = resolve(f)
	const o = isRef(f) ? rd(f) : null
	let s = X.stats.indirect.get(n)
	if (!s) X.stats.indirect.set(n, (s = new Set()))
	s.add(!o ? 'value' : o.client ? 'client' : o.node ?? o.kind)
}
function* callNamed(fn, thisv, args, n) {
	fn = resolve(fn)
	// a method of an unknown promise
	if (isSym(fn) && fn.op === 'sel' && ['then', 'catch', 'finally'].includes(fn.args[1]) && eq3(fn.args[0], resolve(thisv)) === true && maskOf(thisv) & M.REF) {
		const k = yield* thenableKind(resolve(thisv))
		if (k === 'opaque') {
			const m = resolve(yield* get(R('PromisePrototype'), fn.args[1]))
			return yield* call(m, thisv, args, n)
		}
	}
	return yield* call(fn, thisv, args, n)
}

function* evObject(n, ctx) {
	X.loc = n
	const o = mkObject({})
	for (const p of n.properties) {
		if (ts.isPropertyAssignment(p)) {
			const k = yield* propName(p.name, ctx)
			const v = yield* evNamed(p.initializer, ctx, typeof k === 'string' ? k : undefined)
			if (k === '__proto__' && !ts.isComputedPropertyName(p.name)) {
				if (isRef(resolve(v)) || resolve(v) === null) wr(o).proto = resolve(v)
				else if (isSym(resolve(v))) throw new Unsupported('unknown prototype')
			} else yield* defineData(o, k, v)
		} else if (ts.isShorthandPropertyAssignment(p)) {
			yield* defineData(o, p.name.text, yield* readVar(ctx, p.name.text, p))
		} else if (ts.isSpreadAssignment(p)) {
			yield* copyProps(o, yield* ev(p.expression, ctx), true)
		} else if (ts.isMethodDeclaration(p)) {
			const k = yield* propName(p.name, ctx)
			yield* defineData(o, k, mkFunction(p, ctx, { home: o, name: typeof k === 'string' ? k : '' }))
		} else if (ts.isGetAccessor(p) || ts.isSetAccessor(p)) {
			const k = yield* propName(p.name, ctx)
			const f = mkFunction(p, ctx, { home: o })
			const w = wr(o)
			const cur = w.props.get(k) ?? { e: true }
			delete cur.v
			w.props.set(k, { ...cur, [ts.isGetAccessor(p) ? 'get' : 'set']: f })
		} else throw new Unsupported('object member')
	}
	return o
}
function* defineData(o, k, v) {
	if (isSym(k)) return yield* set(o, k, v)
	if (rd(o).dyn.length || rd(o).base) return yield* set(o, k, v)
	wr(o).props.set(k, { v, e: true })
}

function* evClass(n, ctx) {
	const scope = newScope(ctx.scope)
	const cctx = { ...ctx, scope }
	const ext = n.heritageClauses?.find(h => h.token === K.ExtendsKeyword)
	let parent = R('FunctionPrototype')
	let protoParent = R('ObjectPrototype')
	if (ext) {
		parent = resolve(yield* ev(ext.types[0].expression, ctx))
		if (isSym(parent)) throw new Unsupported('class extends an unknown value')
		protoParent = resolve(yield* get(parent, 'prototype'))
	}
	const proto = mkObject({}, isRef(protoParent) ? protoParent : null)
	const ctorNode = n.members.find(m => ts.isConstructorDeclaration(m) && m.body)
	const name = n.name?.text ?? ''
	const cls = alloc({ kind: 'function', isClass: true, proto: parent, props: new Map(), dyn: [], node: n, scope, mod: ctx.mod, name, derived: !!ext, ctorNode, home: proto, site: n, fields: n.members.filter(m => ts.isPropertyDeclaration(m) && !hasMod(m, K.StaticKeyword) && !hasMod(m, K.DeclareKeyword)) })
	wr(cls).props.set('prototype', { v: proto, e: false })
	wr(proto).props.set('constructor', { v: cls, e: false })
	if (name) wr(scope).vars.set(name, { v: cls })
	for (const m of n.members) {
		const target = hasMod(m, K.StaticKeyword) ? cls : proto
		if (ts.isMethodDeclaration(m) && m.body) {
			const k = yield* propName(m.name, cctx)
			wr(target).props.set(k, { v: mkFunction(m, cctx, { home: target, name: String(k) }), e: false, priv: ts.isPrivateIdentifier(m.name) })
		} else if (ts.isGetAccessor(m) || ts.isSetAccessor(m)) {
			const k = yield* propName(m.name, cctx)
			const cur = rd(target).props.get(k) ?? { e: false, priv: ts.isPrivateIdentifier(m.name) }
			wr(target).props.set(k, { ...cur, [ts.isGetAccessor(m) ? 'get' : 'set']: mkFunction(m, cctx, { home: target }) })
		} else if (ts.isPropertyDeclaration(m) && hasMod(m, K.StaticKeyword)) {
			const k = yield* propName(m.name, cctx)
			const fctx = { ...cctx, frame: { thisv: cls, home: cls } }
			const v = m.initializer ? yield* evNamed(m.initializer, fctx, typeof k === 'string' ? k : undefined) : undefined
			wr(cls).props.set(k, { v, e: !ts.isPrivateIdentifier(m.name), priv: ts.isPrivateIdentifier(m.name) })
		} else if (ts.isClassStaticBlockDeclaration(m)) {
			const bctx = { ...cctx, scope: newScope(scope, true), frame: { thisv: cls, home: cls } }
			hoistVars(m.body, bctx)
			yield* execBlockIn(m.body.statements, bctx)
		}
	}
	return cls
}

export function* toNum(v) {
	v = resolve(v)
	if (isSym(v)) return maskOf(v) === M.NUM || maskOf(v) === M.BIG ? v : mk('Number', [v], { mask: M.NUM })
	if (isRef(v)) {
		const p = yield* toPrim(v, 'number')
		return isRef(p) ? mk('Number', [p], { mask: M.NUM }) : yield* toNum(p)
	}
	if (typeof v === 'symbol') yield* throwErr('TypeError', 'Cannot convert a Symbol value to a number')
	return typeof v === 'bigint' ? v : Number(v)
}
export function arith(op, a, b) {
	if (isConst(a) && isConst(b)) {
		switch (op) {
			case '+': return a + b
			case '-': return a - b
			case '*': return a * b
			case '/': return a / b
			case '%': return a % b
			case '**': return a ** b
			case '&': return a & b
			case '|': return a | b
			case '^': return a ^ b
			case '<<': return a << b
			case '>>': return a >> b
			case '>>>': return a >>> b
		}
	}
	if (op === '-' && isConst(b) && isSym(a) && a.op === '+' && a.args[1] === b) return a.args[0]
	if (op === '+' && isConst(b) && isSym(a) && a.op === '-' && a.args[1] === b) return a.args[0]
	return mk(op, [a, b], { mask: M.NUM })
}
/** a draw scaled to a whole number below n */
function drawnBelow(v, n) {
	v = resolve(v)
	if (!isSym(v)) return false
	if (v.op === 'Math.floor' || v.op === 'Math.trunc' || ((v.op === '|' || v.op === '>>' || v.op === '>>>') && resolve(v.args[1]) === 0)) v = resolve(v.args[0])
	else return false
	if (!isSym(v) || v.op !== '*') return false
	const [a, b] = v.args.map(resolve)
	const [r, k] = isSym(a) ? [a, b] : [b, a]
	return isSym(r) && r.op.startsWith('fresh:random#') && typeof k === 'number' && k >= 0 && k <= n
}
/** the length random text usually has (its digits hold the 52 bits of a draw); null: not made of random draws */
function drawnLength(v) {
	const n = lengthOf(v)
	return n && n.drawn ? n.len : null
}
function lengthOf(v) {
	v = resolve(v)
	if (typeof v === 'string') return { len: v.length, drawn: false }
	if (!isSym(v)) return null
	const [a, ...rest] = v.args.map(resolve)
	const random = x => isSym(x) && x.op.startsWith('fresh:random#')
	if (random(v) && maskOf(v) === M.STR) return { len: 36, drawn: true }
	if (v.op === 'String' && random(a)) return { len: 18, drawn: true }
	if (v.op === 'Number.toString' && random(a)) {
		const radix = rest[0] ?? 10
		return typeof radix === 'number' ? { len: Math.ceil(52 / Math.log2(radix)) + 2, drawn: true } : null
	}
	if (v.op === 'str') {
		const parts = v.args.map(lengthOf)
		return parts.every(Boolean) ? { len: parts.reduce((k, p) => k + p.len, 0), drawn: parts.some(p => p.drawn) } : null
	}
	if (/^String\.(slice|substring|substr)$/.test(v.op) && rest.every(x => typeof x === 'number' || x === undefined)) {
		const n = lengthOf(a)
		return n && { len: 'x'.repeat(n.len)[v.op.slice(7)](...rest).length, drawn: n.drawn }
	}
	if (/^String\.(toUpperCase|toLowerCase)$/.test(v.op)) return lengthOf(a)
	if (/^(String\.)?charAt$/.test(v.op) && typeof a === 'string' && drawnBelow(rest[0], a.length)) return { len: 1, drawn: true }
	return null
}
/** a < b */
export function lessThan(a, b) {
	a = resolve(a)
	b = resolve(b)
	if (isConst(a) && isConst(b)) return a < b
	// lengths and indexes are never negative
	if (isConst(a) && isSym(b) && atLeast(b) !== null && a < atLeast(b)) return true
	if (isConst(b) && isSym(a) && atLeast(a) !== null && b <= atLeast(a)) return false
	return truthy(mk('<', [a, b], { mask: M.BOO }), 'comparison')
}

const ASSIGN_OPS = new Map([
	[K.PlusEqualsToken, '+'], [K.MinusEqualsToken, '-'], [K.AsteriskEqualsToken, '*'], [K.SlashEqualsToken, '/'], [K.PercentEqualsToken, '%'], [K.AmpersandEqualsToken, '&'], [K.BarEqualsToken, '|'], [K.CaretEqualsToken, '^'], [K.AsteriskAsteriskEqualsToken, '**'],
	[K.LessThanLessThanEqualsToken, '<<'], [K.GreaterThanGreaterThanEqualsToken, '>>'], [K.GreaterThanGreaterThanGreaterThanEqualsToken, '>>>']
])
const ARITH = new Map([
	[K.MinusToken, '-'], [K.AsteriskToken, '*'], [K.SlashToken, '/'], [K.PercentToken, '%'], [K.AmpersandToken, '&'], [K.BarToken, '|'], [K.CaretToken, '^'], [K.AsteriskAsteriskToken, '**'], [K.LessThanLessThanToken, '<<'], [K.GreaterThanGreaterThanToken, '>>'], [K.GreaterThanGreaterThanGreaterThanToken, '>>>']
])
function* plus(a, b) {
	a = yield* toPrim(a)
	b = yield* toPrim(b)
	if (isConst(a) && isConst(b)) return typeof a === 'symbol' || typeof b === 'symbol' ? yield* throwErr('TypeError', 'Cannot convert a Symbol value') : a + b
	const sa = !(maskOf(a) & ~M.STR)
	const sb = !(maskOf(b) & ~M.STR)
	if (sa || sb || isRef(a) || isRef(b)) return concat(toStr(a), toStr(b))
	if (maskOf(a) === M.NUM && maskOf(b) === M.NUM) return arith('+', a, b)
	return mk('+?', [a, b], { mask: M.NUM | M.STR | M.BIG })
}

/** the place an assignment goes to, its parts evaluated once */
function* lref(n, ctx) {
	n = unwrap(n)
	if (ts.isIdentifier(n)) return { n }
	if (n.expression?.kind === K.SuperKeyword) throw new Unsupported('assignment to a member of super')
	if (ts.isPropertyAccessExpression(n)) return { n, b: resolve(yield* ev(n.expression, ctx)), k: n.name.text }
	if (ts.isElementAccessExpression(n)) {
		const b = resolve(yield* ev(n.expression, ctx))
		return { n, b, k: yield* keyAt(n.argumentExpression, ctx) }
	}
	throw new Unsupported(`assignment target ${K[n.kind]}`)
}
function* lget(r, ctx) {
	X.loc = r.n
	return resolve('k' in r ? yield* get(r.b, r.k) : yield* readVar(ctx, r.n.text, r.n))
}
function* lset(r, v, ctx) {
	if ('k' in r) yield* set(r.b, r.k, v)
	else yield* writeVar(ctx, r.n.text, v)
}
function* evBinary(n, ctx) {
	const op = n.operatorToken.kind
	switch (op) {
		case K.EqualsToken: {
			const t = unwrap(n.left)
			if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) {
				const b = yield* ev(t.expression, ctx)
				const k = ts.isPropertyAccessExpression(t) ? t.name.text : yield* keyAt(t.argumentExpression, ctx)
				const v = yield* evNamed(n.right, ctx, undefined)
				X.loc = n
				yield* set(b, k, v)
				return v
			}
			const v = yield* evNamed(n.right, ctx, ts.isIdentifier(t) ? t.text : undefined)
			X.loc = n
			yield* assignTo(n.left, v, ctx)
			return v
		}
		case K.CommaToken:
			yield* ev(n.left, ctx)
			return yield* ev(n.right, ctx)
		case K.AmpersandAmpersandToken: {
			const a = yield* ev(n.left, ctx)
			X.loc = n.left
			return truthy(a, '&&') ? yield* ev(n.right, ctx) : resolve(a)
		}
		case K.BarBarToken: {
			const a = yield* ev(n.left, ctx)
			X.loc = n.left
			return truthy(a, '||') ? resolve(a) : yield* ev(n.right, ctx)
		}
		case K.QuestionQuestionToken: {
			const a = yield* ev(n.left, ctx)
			X.loc = n.left
			return isMask(a, M.NULLISH, '??') ? yield* ev(n.right, ctx) : resolve(a)
		}
		case K.AmpersandAmpersandEqualsToken:
		case K.BarBarEqualsToken:
		case K.QuestionQuestionEqualsToken: {
			const r = yield* lref(n.left, ctx)
			const a = yield* lget(r, ctx)
			X.loc = n.left
			const doIt = op === K.QuestionQuestionEqualsToken ? isMask(a, M.NULLISH, '??=') : truthy(a, 'assignment') === (op === K.AmpersandAmpersandEqualsToken)
			if (!doIt) return resolve(a)
			const v = yield* evNamed(n.right, ctx, ts.isIdentifier(n.left) ? n.left.text : undefined)
			yield* lset(r, v, ctx)
			return v
		}
	}
	if (ASSIGN_OPS.has(op)) {
		const r = yield* lref(n.left, ctx)
		const a = yield* lget(r, ctx)
		const b = yield* ev(n.right, ctx)
		X.loc = n
		const v = op === K.PlusEqualsToken ? yield* plus(a, b) : arith(ASSIGN_OPS.get(op), yield* toNum(a), yield* toNum(b))
		yield* lset(r, v, ctx)
		return v
	}
	if (op === K.InKeyword && ts.isPrivateIdentifier(n.left)) return yield* hasProp(yield* ev(n.right, ctx), n.left.text)
	const a = resolve(yield* ev(n.left, ctx))
	const b0 = yield* ev(n.right, ctx)
	const b = resolve(b0)
	X.loc = n
	return yield* binop(op, resolve(a), b)
}
function typeofCmp(a, b) {
	// typeof x compared with a constant narrows x
	for (const [t, c] of [[a, b], [b, a]]) if (isSym(t) && t.op === 'typeof' && typeof c === 'string') return isMask(t.args[0], typeofMask(c), `typeof ${show(t.args[0])}`) && decideObjNull(t.args[0], c)
	return null
}
function decideObjNull() {
	return true
}
export function* binop(op, a, b) {
	switch (op) {
		case K.PlusToken:
			return yield* plus(a, b)
		case K.EqualsEqualsEqualsToken: {
			const t = typeofCmp(a, b)
			return t !== null ? t : strictEq(a, b)
		}
		case K.ExclamationEqualsEqualsToken: {
			const t = typeofCmp(a, b)
			return t !== null ? !t : !strictEq(a, b)
		}
		case K.EqualsEqualsToken:
		case K.ExclamationEqualsToken: {
			const neg = op === K.ExclamationEqualsToken
			const t = typeofCmp(a, b)
			if (t !== null) return neg ? !t : t
			let r
			if (isRef(a) && isConst(b) && b !== null && b !== undefined) a = yield* toPrim(a)
			else if (isRef(b) && isConst(a) && a !== null && a !== undefined) b = yield* toPrim(b)
			if (a === null || a === undefined) r = isMask(b, M.NULLISH, '==')
			else if (b === null || b === undefined) r = isMask(a, M.NULLISH, '==')
			else if (maskOf(a) === maskOf(b)) r = strictEq(a, b)
			else if (isConst(a) && isConst(b)) r = a == b
			else if (!(maskOf(a) & M.REF) || !(maskOf(b) & M.REF)) r = truthy(mk('==', [a, b], { mask: M.BOO }), '==')
			else r = strictEq(a, b)
			return neg ? !r : r
		}
		case K.LessThanToken:
		case K.GreaterThanToken:
		case K.LessThanEqualsToken:
		case K.GreaterThanEqualsToken:
			a = yield* toPrim(a, 'number')
			b = yield* toPrim(b, 'number')
	}
	switch (op) {
		case K.LessThanToken:
			return lessThan(a, b)
		case K.GreaterThanToken:
			return lessThan(b, a)
		case K.LessThanEqualsToken:
			return isConst(a) && isConst(b) ? a <= b : !lessThan(b, a)
		case K.GreaterThanEqualsToken:
			return isConst(a) && isConst(b) ? a >= b : !lessThan(a, b)
		case K.InKeyword:
			return yield* hasProp(b, toKey(a))
		case K.InstanceOfKeyword: {
			if (isSym(b)) return truthy(mk('instanceof', [a, b], { mask: M.BOO }), 'instanceof')
			if (!isCallable(b)) yield* throwErr('TypeError', "Right-hand side of 'instanceof' is not callable")
			while (rd(b).kind === 'bound') b = resolve(rd(b).target)
			if (isSym(b)) return truthy(mk('instanceof', [a, b], { mask: M.BOO }), 'instanceof')
			{
				const h = resolve(yield* get(b, Symbol.hasInstance))
				if (h !== undefined) return truthy(yield* call(h, b, [a]), 'instanceof')
			}
			const proto = resolve(yield* get(b, 'prototype'))
			if (isSym(a)) {
				if (!(maskOf(a) & M.REF)) return false
				if (proto === R('FunctionPrototype')) return isMask(a, M.FUN, 'instanceof Function')
				return truthy(mk('instanceof', [a, b], { mask: M.BOO }), 'instanceof')
			}
			if (!isRef(a)) return false
			let o = rd(a)
			if (o.kind === 'draft') o = rd(o.view)
			for (let p = o.proto; p; p = rd(p).proto) if (p === proto) return true
			return false
		}
	}
	if (ARITH.has(op)) return arith(ARITH.get(op), yield* toNum(a), yield* toNum(b))
	throw new Unsupported(`operator ${K[op]}`)
}
function* evPrefix(n, ctx) {
	switch (n.operator) {
		case K.ExclamationToken: {
			const v = yield* ev(n.operand, ctx)
			X.loc = n.operand
			return !truthy(v, '!')
		}
		case K.MinusToken: {
			const v = yield* toNum(yield* ev(n.operand, ctx))
			return isConst(v) ? -v : mk('neg', [v], { mask: M.NUM })
		}
		case K.PlusToken:
			return yield* toNum(yield* ev(n.operand, ctx))
		case K.TildeToken: {
			const v = yield* toNum(yield* ev(n.operand, ctx))
			return isConst(v) ? ~v : mk('~', [v], { mask: M.NUM })
		}
		case K.PlusPlusToken:
		case K.MinusMinusToken: {
			const r = yield* lref(n.operand, ctx)
			const old = yield* toNum(yield* lget(r, ctx))
			const v = arith(n.operator === K.PlusPlusToken ? '+' : '-', old, typeof old === 'bigint' ? 1n : 1)
			X.loc = n
			yield* lset(r, v, ctx)
			return v
		}
	}
	throw new Unsupported('prefix operator')
}
