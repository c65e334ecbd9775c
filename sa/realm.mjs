// Abstract models of the standard library and the host.
import {
	M, Many, X, JSThrow, Unsupported, alloc, assumeMask, choose, concat, effect, endsWith3, eq3, fact, freshSym, isConst, isMany, isMask, isRef, isSym,
	maskOf, mk, named, rd, resolve, same, settleTypes, show, startsWith3, strictEq, strParts, taint, toStr, truthy, wr, assumeNe, assumeEq, keyOf
} from './core.mjs'
import { structured } from './strdom.mjs'
import {
	R, arrElems, arrJoin, arrLen, arrOf, arrRead, arrWrite, call, construct, copyProps, del, drain, enqueue, forSegs, fulfill, get, hasOwn, hasProp, isArrayRef,
	isCallable, asyncGenStep, cursor, genStep, iterate, iterResult, iterStep, mkArray, mkGenerator, mkIter, mkNative, mkObject, mkPromise, mkRegExp, ownKeys, promiseThen, rejectP, resolveP, set, subscribe, summarise, throwErr,
	thenableKind, toKey, toNum, toPrim, typeofValue, arith, lessThan
} from './interp.mjs'

/** names the host defines: those without a model are not undefined */
const HOST_NAMES = Object.fromEntries(
	[
		...Object.getOwnPropertyNames(globalThis).filter(n => !['process', 'Buffer', 'global', 'setImmediate', 'clearImmediate', 'undefined', 'NaN', 'Infinity', 'eval'].includes(n)),
		...'alert cancelAnimationFrame close confirm customElements Element frames getComputedStyle history HTMLElement Image indexedDB innerHeight innerWidth KeyboardEvent matchMedia MutationObserver Node open opener origin outerHeight outerWidth parent postMessage prompt requestIdleCallback ResizeObserver screen scrollTo top visualViewport XMLHttpRequest'.split(' ')
	].map(n => [n, Object])
)
const names = s => Object.fromEntries(s.split(' ').map(n => [n, Object]))

export function initRealm() {
	const realm = (X.S.g.realm = {})
	const proto = (name, parent = realm.ObjectPrototype, extra = {}) => (realm[name] = alloc({ kind: 'object', proto: parent ?? null, props: new Map(), dyn: [], base: null, name, secret: true, real: globalThis[name.replace(/Prototype$/, '')]?.prototype, ...extra }))
	proto('ObjectPrototype', null)
	proto('FunctionPrototype')
	for (const n of ['Array', 'String', 'Number', 'Symbol', 'Boolean', 'Promise', 'Map', 'Set', 'WeakMap', 'WeakSet', 'RegExp', 'Error', 'Date', 'BigInt']) proto(`${n}Prototype`)
	for (const n of ['TypeError', 'RangeError', 'ReferenceError', 'SyntaxError', 'AggregateError', 'DOMException']) proto(`${n}Prototype`, realm.ErrorPrototype)
	proto('IteratorPrototype')
	proto('ArrayIteratorPrototype', realm.IteratorPrototype)
	proto('GeneratorPrototype', realm.IteratorPrototype)
	proto('AsyncGeneratorPrototype')
	const glob = alloc({ kind: 'object', proto: realm.ObjectPrototype, props: new Map(), dyn: [], base: null, name: 'globalThis', secret: true, real: HOST_NAMES })
	X.S.g.globalThis = glob
	const def = (target, name, impl, extra) => {
		const f = mkNative(typeof name === 'symbol' ? String(name) : name, impl, { secret: true, ...extra })
		wr(target).props.set(name, { v: f, e: false })
		return f
	}
	const g = (name, v) => wr(glob).props.set(name, { v, e: false })
	const ctor = (name, { call: c, construct: k, statics = {} }) => {
		const f = mkNative(name, c ?? function* () {
			yield* throwErr('TypeError', `Class constructor ${name} cannot be invoked without 'new'`)
		}, { ctor: k, secret: true, real: globalThis[name] })
		wr(f).props.set('prototype', { v: realm[`${name}Prototype`], e: false })
		wr(realm[`${name}Prototype`]).props.set('constructor', { v: f, e: false })
		for (const s of Object.keys(statics)) def(f, s, statics[s])
		g(name, f)
		return f
	}

	// ---------------------------------------------------------------- Function
	const FP = realm.FunctionPrototype
	def(FP, 'call', function* (t, [th, ...a]) {
		return yield* call(t, th, a)
	})
	def(FP, 'apply', function* (t, [th, arr]) {
		arr = resolve(arr)
		return yield* call(t, th, arr === undefined || arr === null ? [] : yield* iterate(arr))
	})
	def(FP, 'bind', function* (t, [th, ...a]) {
		t = resolve(t)
		if (isSym(t)) {
			const b = alloc({ kind: 'bound', proto: FP, props: new Map(), dyn: [], target: t, thisv: resolve(th), args: a, name: `bound ${show(t)}` })
			return b
		}
		return alloc({ kind: 'bound', proto: FP, props: new Map(), dyn: [], target: t, thisv: resolve(th), args: a, name: rd(t).name ? `bound ${rd(t).name}` : 'bound' })
	})
	def(FP, 'toString', function* (t) {
		return mk('sourceOf', [resolve(t)], { mask: M.STR })
	})
	wr(FP).props.set('name', { v: '', e: false })
	wr(FP).props.set('length', { v: 0, e: false })
	ctor('Function', { call: function* () {
		throw new Unsupported('Function constructor')
	} })

	// ---------------------------------------------------------------- Object
	const defineProp = function* (o, k, d) {
		k = toKey(k)
		d = resolve(d)
		const desc = { e: false }
		const old = isRef(o) && !isSym(k) ? rd(o).props.get(k) : undefined
		if (old) Object.assign(desc, old)
		const pick = function* (n) {
			return (yield* hasOwn(d, n)) ? { v: resolve(yield* get(d, n)) } : null
		}
		const val = yield* pick('value')
		const gt = yield* pick('get')
		const st = yield* pick('set')
		const en = yield* pick('enumerable')
		const w = yield* pick('writable')
		if (val) desc.v = val.v
		else if (!gt && !st && !old) desc.v = undefined
		if (gt) {
			delete desc.v
			desc.get = gt.v
		}
		if (st) {
			delete desc.v
			desc.set = st.v
		}
		if (en) desc.e = truthy(en.v)
		if (w) desc.w = truthy(w.v)
		else if (val && !old) desc.w = false
		const cf = yield* pick('configurable')
		if (cf) desc.c = truthy(cf.v)
		else if (!old) desc.c = false
		if (old?.c === false) {
			const same = !gt && !st && desc.c === false && desc.e === old.e && (old.w !== false || desc.w === false) && (!val || old.w !== false || eq3(val.v, old.v) === true) && !(val && (old.get || old.set))
			if (!same) yield* throwErr('TypeError', `Cannot redefine property: ${show(k)}`)
		}
		if (!old && isRef(o) && rd(o).noext) yield* throwErr('TypeError', `Cannot define property ${show(k)}, object is not extensible`)
		if (isSym(k)) {
			yield* set(o, k, desc.v)
			return
		}
		if (rd(o).frozen) yield* throwErr('TypeError', 'Cannot define property on a frozen object')
		wr(o).props.set(k, desc)
	}
	const freeze = o => {
		o = resolve(o)
		if (isRef(o)) wr(o).frozen = true
		else if (isSym(o)) {
			if (!fact(o)?.frozen) X.S.facts.set(o.id, { ...(fact(o) ?? {}), frozen: true })
		}
		return o
	}
	X.S.g.freeze = null
	const Obj = ctor('Object', {
		call: function* (_t, [v]) {
			v = resolve(v)
			if (isSym(v)) {
				if (maskOf(v) & M.REF && isMask(v, M.REF, 'Object()')) return resolve(v)
				v = resolve(v)
				if (isSym(v) && maskOf(v) & (M.UND | M.NUL) && isMask(v, M.UND | M.NUL, 'Object()')) return mkObject({})
				return mk('boxed', [resolve(v)], { mask: M.OBJ })
			}
			if (v === undefined || v === null) return mkObject({})
			return isRef(v) ? v : mk('boxed', [v], { mask: M.OBJ })
		},
		construct: function* ([v], newTarget) {
			const p = newTarget ? resolve(yield* get(newTarget, 'prototype')) : realm.ObjectPrototype
			return mkObject({}, isRef(p) ? p : realm.ObjectPrototype)
		},
		statics: {
			*freeze(_t, [o]) {
				return freeze(o)
			},
			*isFrozen(_t, [o]) {
				o = resolve(o)
				if (isRef(o)) return !!rd(o).frozen
				if (isSym(o)) return !(maskOf(o) & M.REF) || !!fact(o)?.frozen || truthy(mk('isFrozen', [o], { mask: M.BOO }))
				return true
			},
			*seal(_t, [o]) {
				o = resolve(o)
				if (isRef(o)) Object.assign(wr(o), { noext: true, sealed: true })
				return o
			},
			*isSealed(_t, [o]) {
				o = resolve(o)
				if (isSym(o)) throw new Unsupported('Object.isSealed of an unknown value')
				return !isRef(o) || !!rd(o).frozen || (!!rd(o).noext && (!!rd(o).sealed || !rd(o).props.size))
			},
			*isExtensible(_t, [o]) {
				o = resolve(o)
				if (isSym(o)) throw new Unsupported('Object.isExtensible of an unknown value')
				return isRef(o) && !rd(o).frozen && !rd(o).noext
			},
			*preventExtensions(_t, [o]) {
				o = resolve(o)
				if (isRef(o)) wr(o).noext = true
				return o
			},
			*is(_t, [a, b]) {
				return same(a, b, 'Object.is')
			},
			*keys(_t, [o]) {
				o = resolve(o)
				if (o === undefined || o === null) yield* throwErr('TypeError', 'Cannot convert undefined or null to object')
				if (isSym(o) && maskOf(o) & M.NULLISH && isMask(o, M.NULLISH)) yield* throwErr('TypeError', 'Cannot convert undefined or null to object')
				return mkArray(yield* ownKeys(o, 'string'))
			},
			*getOwnPropertyNames(_t, [o]) {
				return mkArray(yield* ownKeys(o, 'string', false))
			},
			*getOwnPropertySymbols(_t, [o]) {
				return mkArray(yield* ownKeys(o, 'symbol', false))
			},
			*values(_t, [o]) {
				const out = []
				for (const k of yield* ownKeys(o, 'string')) out.push(isMany(k) ? new Many(yield* get(o, k.rep), { valuesOf: o }) : yield* get(o, k))
				return mkArray(out)
			},
			*entries(_t, [o]) {
				const out = []
				for (const k of yield* ownKeys(o, 'string')) {
					if (isMany(k)) {
						const e = mk('entryOf', [isRef(resolve(o)) ? resolve(o) : o], { shape: null })
						out.push(new Many(mkEntrySym(k.rep, yield* get(o, k.rep))))
					} else out.push(mkArray([k, yield* get(o, k)]))
				}
				return mkArray(out)
			},
			*fromEntries(_t, [it]) {
				const o = mkObject({})
				yield* forSegs(yield* iterate(it), function* (e) {
					yield* set(o, toKey(yield* get(e, '0')), yield* get(e, '1'))
				})
				return o
			},
			*assign(_t, [target, ...srcs]) {
				target = resolve(target)
				for (const s of srcs) {
					const v = resolve(s)
					if (v === undefined || v === null) continue
					if (isSym(v) && isRef(target)) {
						yield* copyProps(target, v)
						continue
					}
					if (isRef(v) && rd(v).base && isRef(target)) {
						yield* copyProps(target, v)
						continue
					}
					for (const k of yield* ownKeys(v, 'all')) yield* set(target, k, yield* get(v, k))
				}
				return target
			},
			*create(_t, [p, descs]) {
				p = resolve(p)
				const o = mkObject({}, p === null ? null : p)
				descs = resolve(descs)
				if (descs !== undefined) for (const k of yield* ownKeys(descs, 'all')) yield* defineProp(o, k, yield* get(descs, k))
				return o
			},
			*defineProperty(_t, [o, k, d]) {
				o = resolve(o)
				if (!isRef(o)) throw new Unsupported('defineProperty on an unknown value')
				yield* defineProp(o, k, d)
				return o
			},
			*defineProperties(_t, [o, ds]) {
				for (const k of yield* ownKeys(ds, 'all')) yield* defineProp(resolve(o), k, yield* get(ds, k))
				return resolve(o)
			},
			*getOwnPropertyDescriptors(_t, [o]) {
				const out = mkObject({})
				const f = rd(Obj).props.get('getOwnPropertyDescriptor').v
				for (const k of [...(yield* ownKeys(o, 'string', false)), ...(yield* ownKeys(o, 'symbol', false))]) {
					if (isMany(k)) throw new Unsupported('descriptors of an unknown object')
					yield* set(out, k, yield* call(f, undefined, [o, k]))
				}
				return out
			},
			*groupBy(_t, [it, f]) {
				const out = mkObject({}, null)
				let i = 0
				for (const e of yield* iterate(it)) {
					if (isMany(e)) throw new Unsupported('groupBy of a summarised iterable')
					const k = toKey(yield* toPrim(yield* call(f, undefined, [e, i++]), 'string'))
					if (!(yield* hasOwn(out, k))) yield* set(out, k, mkArray([]))
					const a = resolve(yield* get(out, k))
					wr(a).segs.push(e)
					wr(a).ver++
				}
				return out
			},
			*getOwnPropertyDescriptor(_t, [o, k]) {
				o = resolve(o)
				k = toKey(k)
				if (!(yield* hasOwn(o, k))) return undefined
				if (isRef(o) && !isSym(k)) {
					const p = rd(o).props.get(k)
					if (p) {
						const d = { enumerable: p.e !== false, configurable: p.c !== false && !rd(o).frozen }
						if (p.get || p.set) Object.assign(d, { get: p.get, set: p.set })
						else Object.assign(d, { value: p.v, writable: p.w !== false && !rd(o).frozen })
						return mkObject(d)
					}
				}
				return mkObject({ value: yield* get(o, k), writable: true, enumerable: true, configurable: true })
			},
			*getPrototypeOf(_t, [o]) {
				o = resolve(o)
				if (isRef(o)) {
					const x = rd(o)
					return (x.kind === 'draft' ? rd(x.view).proto : x.proto) ?? null
				}
				return mk('protoOf', [o], { mask: M.OBJ | M.NUL })
			},
			*setPrototypeOf(_t, [o, p]) {
				o = resolve(o)
				if (isRef(o)) wr(o).proto = resolve(p)
				return o
			},
			*hasOwn(_t, [o, k]) {
				return yield* hasOwn(o, toKey(k))
			}
		}
	})
	const OP = realm.ObjectPrototype
	def(OP, 'hasOwnProperty', function* (t, [k]) {
		return yield* hasOwn(t, toKey(k))
	})
	def(OP, 'propertyIsEnumerable', function* (t, [k]) {
		k = toKey(k)
		t = resolve(t)
		if (!(yield* hasOwn(t, k))) return false
		return isRef(t) && !isSym(k) ? (rd(t).kind === 'draft' ? rd(rd(t).view) : rd(t)).props.get(k)?.e !== false : true
	})
	wr(OP).props.set('__proto__', {
		get: mkNative('get __proto__', function* (t) {
			t = resolve(t)
			if (!isRef(t)) return mk('protoOf', [t], { mask: M.OBJ | M.NUL })
			const x = rd(t)
			return (x.kind === 'draft' ? rd(x.view).proto : x.proto) ?? null
		}),
		set: mkNative('set __proto__', function* (t, [v]) {
			t = resolve(t)
			v = resolve(v)
			if (!isRef(t)) return
			if (rd(t).kind === 'draft') yield* throwErr('Error', '[Immer] Object.setPrototypeOf() cannot be used on an Immer draft')
			if (isSym(v)) {
				if (!isMask(v, M.REF | M.NUL, 'prototype')) return
				throw new Unsupported('prototype set to an unknown object')
			}
			if (v !== null && !isRef(v)) return
			if (rd(t).frozen || rd(t).noext) yield* throwErr('TypeError', 'object is not extensible')
			wr(t).proto = v
		}),
		e: false
	})
	def(OP, 'toString', function* (t) {
		t = resolve(t)
		if (isSym(t)) return mk('Object.toString', [t], { mask: M.STR })
		if (!isRef(t)) return Object.prototype.toString.call(t)
		const o = rd(t)
		if (o.base || o.dyn.length) return mk('Object.toString', [t], { mask: M.STR })
		const tag = resolve(yield* get(t, Symbol.toStringTag))
		if (typeof tag === 'string') return `[object ${tag}]`
		if (tag !== undefined) return mk('Object.toString', [t], { mask: M.STR })
		const name = isArrayRef(t) ? 'Array' : isCallable(t) ? 'Function' : ({ map: 'Map', set: 'Set', promise: 'Promise', regexp: 'RegExp' })[o.kind] ?? (['Error', 'Date', 'Storage', 'Navigator', 'Location'].includes(o.cls) ? o.cls : 'Object')
		return `[object ${name}]`
	})
	def(OP, 'toLocaleString', function* (t) {
		return mk('Object.toString', [resolve(t)], { mask: M.STR })
	})
	def(OP, 'valueOf', function* (t) {
		return t
	})
	def(OP, 'isPrototypeOf', function* (t, [v]) {
		v = resolve(v)
		if (isSym(v)) throw new Unsupported('isPrototypeOf')
		if (!isRef(v)) return false
		for (let p = resolve(yield* call(rd(Obj).props.get('getPrototypeOf').v, undefined, [v])); isRef(p); p = rd(p).proto) if (p === resolve(t)) return true
		return false
	})
	// ---------------------------------------------------------------- Array
	const AP = realm.ArrayPrototype
	const relIndex = (i, n) => (i < 0 ? Math.max(0, n + i) : Math.min(i, n))
	/** position of x (SameValueZero / strict): list of [index, certain] */
	const find = function* (t, pred) {
		const els = yield* arrElems(t)
		for (let i = 0; i < els.length; i++) {
			if (isMany(els[i])) {
				const e = els[i]
				let hit = false
				const c = yield* summarise(e, function* (x) {
					if (yield* pred(x, undefined)) return { type: 'return', v: x }
					return undefined
				})
				if (c) return { i: -2, v: c.v }
				continue
			}
			if (yield* pred(els[i], i)) return { i, v: els[i], exact: els.slice(0, i).every(s => !isMany(s)) }
		}
		return null
	}
	const strictPred = x =>
		function* (e) {
			return strictEq(e, x)
		}
	def(AP, 'push', function* (t, a) {
		const s = yield* arrRead(t)
		yield* arrWrite(t, [...s, ...a])
		return arrLen(arrOf(t), resolve(t))
	})
	def(AP, 'unshift', function* (t, a) {
		const s = yield* arrRead(t)
		yield* arrWrite(t, [...a, ...s])
		return arrLen(arrOf(t), resolve(t))
	})
	const takeEnd = (fromFront) =>
		function* (t) {
			const els = yield* arrElems(t)
			if (!els.length) return undefined
			const i = fromFront ? 0 : els.length - 1
			if (isMany(els[i])) throw new Unsupported('pop/shift of a summarised array')
			yield* arrWrite(t, els.filter((_, j) => j !== i))
			return els[i]
		}
	def(AP, 'pop', takeEnd(false))
	def(AP, 'shift', takeEnd(true))
	def(AP, 'splice', function* (t, args) {
		const s = yield* arrRead(t)
		let [start, count, ...ins] = args
		start = resolve(start)
		count = resolve(count)
		if (s.some(isMany)) {
			const f = isSym(start) && fact(start)?.elem
			// splice(indexOf(x), 1) where x lies in the summarised part: the summary still describes the rest
			if (f && count === 1 && !ins.length) {
				yield* arrWrite(t, s.slice())
				return mkArray([f.v])
			}
		}
		if (isSym(start) || isSym(count)) throw new Unsupported('splice at an unknown position')
		const n = s.length
		if (s.some(isMany)) {
			if (start >= 0 && !s.slice(0, start + (count ?? 0)).some(isMany)) {
			} else if (start < 0 && !s.slice(start).some(isMany)) {
			} else throw new Unsupported('splice of a summarised array')
		}
		const st = relIndex(Math.trunc(start ?? 0), n)
		const ct = args.length < 2 ? n - st : Math.max(0, Math.min(Math.trunc(count ?? 0), n - st))
		const els = yield* arrElems(t)
		const removed = els.slice(st, st + ct)
		const out = (yield* arrRead(t)).slice()
		out.splice(st, ct, ...ins)
		yield* arrWrite(t, out)
		return mkArray(removed)
	})
	def(AP, 'slice', function* (t, [a, b]) {
		t = resolve(t)
		const s = yield* arrElems(t)
		a = resolve(a) ?? 0
		b = resolve(b)
		if (a === 0 && b === undefined) return mkArray(s)
		if (s.some(isMany) || isSym(a) || isSym(b)) throw new Unsupported('slice of a summarised array')
		return mkArray(s.slice(a, b))
	})
	def(AP, 'concat', function* (t, a) {
		const out = [...(yield* arrElems(t))]
		for (const x of a) {
			if (isMany(x)) out.push(x)
			else if (isArrayRef(x)) out.push(...(yield* arrElems(x)))
			else out.push(x)
		}
		return mkArray(out)
	})
	def(AP, 'indexOf', function* (t, [x]) {
		const r = yield* find(t, strictPred(x))
		if (!r) return -1
		if (r.exact) return r.i
		const idx = freshSym('index', { mask: M.NUM })
		X.S.facts.set(idx.id, { elem: { arr: resolve(t).id, v: r.v } })
		return idx
	})
	def(AP, 'lastIndexOf', function* (t, [x]) {
		const els = yield* arrElems(t)
		if (els.some(isMany)) throw new Unsupported('lastIndexOf of a summarised array')
		for (let i = els.length - 1; i >= 0; i--) if (strictEq(els[i], x)) return i
		return -1
	})
	def(AP, 'includes', function* (t, [x]) {
		return !!(yield* find(t, function* (e) {
			return same(e, x, 'includes')
		}))
	})
	const cb = (f, th) =>
		function* (e, i, t) {
			return yield* call(f, th, [e, i ?? freshSym('index', { mask: M.NUM }), t])
		}
	def(AP, 'find', function* (t, [f, th]) {
		const c = cb(f, th)
		const r = yield* find(t, function* (e, i) {
			return truthy(yield* c(e, i, t))
		})
		return r ? r.v : undefined
	})
	def(AP, 'findIndex', function* (t, [f, th]) {
		const c = cb(f, th)
		const r = yield* find(t, function* (e, i) {
			return truthy(yield* c(e, i, t))
		})
		if (!r) return -1
		if (r.exact) return r.i
		const idx = freshSym('index', { mask: M.NUM })
		X.S.facts.set(idx.id, { elem: { arr: resolve(t).id, v: r.v } })
		return idx
	})
	for (const [name, what] of [['findLast', 1], ['findLastIndex', 0]])
		def(AP, name, function* (t, [f, th]) {
			const n = (yield* arrRead(t)).length
			if ((yield* arrRead(t)).some(isMany)) throw new Unsupported(name)
			for (let i = n - 1; i >= 0; i--) {
				const e = yield* get(t, String(i))
				if (truthy(yield* call(f, th, [e, i, t]))) return what ? e : i
			}
			return what ? undefined : -1
		})
	def(AP, 'some', function* (t, [f, th]) {
		const c = cb(f, th)
		return !!(yield* find(t, function* (e, i) {
			return truthy(yield* c(e, i, t))
		}))
	})
	def(AP, 'every', function* (t, [f, th]) {
		const c = cb(f, th)
		return !(yield* find(t, function* (e, i) {
			return !truthy(yield* c(e, i, t))
		}))
	})
	// forEach visits the live array: positions are re-read, the length is fixed at the start
	def(AP, 'forEach', function* (t, [f, th]) {
		const first = yield* arrRead(t)
		if (first.some(isMany)) {
			const els = yield* arrElems(t)
			const o0 = arrOf(t)
			const ver = o0.ver
			yield* forSegs(els, function* (e, i) {
				yield* call(f, th, [e, i, t])
				return undefined
			})
			if (arrOf(t)?.ver !== ver) throw new Unsupported('array modified while being iterated')
			return undefined
		}
		const n = first.length
		for (let i = 0; i < n; i++) {
			const now = yield* arrRead(t)
			if (i >= now.length) break
			const e = yield* get(t, String(i))
			yield* call(f, th, [e, i, t])
		}
		return undefined
	})
	def(AP, 'map', function* (t, [f, th]) {
		const out = []
		let i = 0
		for (const e of yield* arrElems(t)) {
			if (isMany(e)) {
				let v
				yield* summariseMap(e, function* (x) {
					return yield* call(f, th, [x, freshSym('index', { mask: M.NUM }), t])
				}, out)
			} else out.push(yield* call(f, th, [e, i, t]))
			i++
		}
		return mkArray(out)
	})
	def(AP, 'flatMap', function* (t, [f, th]) {
		const out = []
		let i = 0
		for (const e of yield* arrElems(t)) {
			if (isMany(e)) throw new Unsupported('flatMap of a summarised array')
			const r = yield* call(f, th, [e, i++, t])
			if (isArrayRef(r)) out.push(...(yield* arrElems(r)))
			else out.push(r)
		}
		return mkArray(out)
	})
	const flatten = function* (t, depth, out) {
		for (const e of yield* arrElems(t)) {
			if (!isMany(e) && depth > 0 && isArrayRef(e)) yield* flatten(e, depth - 1, out)
			else out.push(e)
		}
		return out
	}
	def(AP, 'flat', function* (t, [d]) {
		d = resolve(d)
		if (isSym(d)) throw new Unsupported('flat to an unknown depth')
		return mkArray(yield* flatten(t, d === undefined ? 1 : Number(d), []))
	})
	def(AP, 'filter', function* (t, [f, th]) {
		const out = []
		let i = 0
		for (const e of yield* arrElems(t)) {
			if (isMany(e)) {
				yield* summariseFilter(e, function* (x) {
					return truthy(yield* call(f, th, [x, freshSym('index', { mask: M.NUM }), t]), 'filter')
				}, out)
			} else if (truthy(yield* call(f, th, [e, i, t]), 'filter')) out.push(e)
			i++
		}
		return mkArray(out)
	})
	const reduce = rev =>
		function* (t, args) {
			let els = yield* arrElems(t)
			if (rev) els = els.slice().reverse()
			const [f] = args
			let acc
			let i = 0
			if (args.length > 1) acc = args[1]
			else {
				if (!els.length) yield* throwErr('TypeError', 'Reduce of empty array with no initial value')
				if (isMany(els[0])) throw new Unsupported('reduce of a summarised array')
				acc = els[0]
				i = 1
			}
			for (; i < els.length; i++) {
				if (isMany(els[i])) {
					const a = acc
					let stable = true
					const c = yield* summarise(els[i], function* (x) {
						const r = yield* call(f, undefined, [a, x, freshSym('index', { mask: M.NUM }), t])
						if (eq3(r, a) !== true) return { type: 'return', v: r, unstable: true }
						return undefined
					})
					if (c) throw new Unsupported('reduce over a summarised array changes its accumulator')
				} else acc = yield* call(f, undefined, [acc, els[i], rev ? els.length - 1 - i : i, t])
			}
			return acc
		}
	def(AP, 'reduce', reduce(false))
	def(AP, 'reduceRight', reduce(true))
	def(AP, 'join', function* (t, [sep]) {
		return yield* arrJoin(yield* arrElems(t), resolve(sep) === undefined ? ',' : resolve(sep))
	})
	def(AP, 'toString', function* (t) {
		return yield* arrJoin(yield* arrElems(t), ',')
	})
	def(AP, 'reverse', function* (t) {
		yield* arrWrite(t, (yield* arrRead(t)).slice().reverse())
		return t
	})
	def(AP, 'toReversed', function* (t) {
		return mkArray((yield* arrElems(t)).reverse())
	})
	/** a stable sort: unknown comparisons split the partition */
	const sorted = function* (els, f) {
		if (els.length > 1 && els.some(isMany)) throw new Unsupported('sort of a summarised array')
		f = resolve(f)
		const undef = els.filter(e => resolve(e) === undefined)
		const rest = els.filter(e => resolve(e) !== undefined)
		const keys = []
		if (f === undefined) for (const e of rest) keys.push(toStr(yield* toPrim(e, 'string')))
		const out = []
		for (let i = 0; i < rest.length; i++) {
			let at = out.length
			while (at > 0) {
				const j = out[at - 1]
				const before = f === undefined ? lessThan(keys[i], keys[j]) : lessThan(yield* toNum(yield* call(f, undefined, [rest[i], rest[j]])), 0)
				if (!before) break
				at--
			}
			out.splice(at, 0, i)
		}
		return [...out.map(i => rest[i]), ...undef]
	}
	def(AP, 'sort', function* (t, [f]) {
		const out = yield* sorted((yield* arrElems(t)).slice(), f)
		if (out.length > 1) yield* arrWrite(t, out)
		return t
	})
	def(AP, 'toSorted', function* (t, [f]) {
		return mkArray(yield* sorted((yield* arrElems(t)).slice(), f))
	})
	def(AP, 'toSpliced', function* (t, args) {
		const c = mkArray(yield* arrElems(t))
		yield* call(rd(AP).props.get('splice').v, c, args)
		return c
	})
	def(AP, 'copyWithin', function* (t, a) {
		const els = (yield* arrElems(t)).slice()
		a = a.map(resolve)
		if (els.some(isMany) || a.some(isSym)) throw new Unsupported('copyWithin')
		yield* arrWrite(t, els.copyWithin(...a))
		return t
	})
	def(AP, 'at', function* (t, [i]) {
		const s = yield* arrElems(t)
		i = resolve(i)
		if (s.some(isMany) || isSym(i)) throw new Unsupported('at')
		return s.at(i)
	})
	def(AP, 'with', function* (t, [i, v]) {
		const s = yield* arrElems(t)
		i = resolve(i)
		if (s.some(isMany) || isSym(i)) throw new Unsupported('with')
		return mkArray(s.with(i, v))
	})
	def(AP, 'fill', function* (t, [v, a, b]) {
		const els = (yield* arrRead(t)).slice()
		a = resolve(a)
		b = resolve(b)
		if (isSym(a) || isSym(b) || ((a !== undefined || b !== undefined) && els.some(isMany))) throw new Unsupported('fill')
		if (a === undefined && b === undefined) yield* arrWrite(t, els.map(() => v))
		else yield* arrWrite(t, els.fill(v, a, b))
		return t
	})
	for (const mode of ['keys', 'values', 'entries'])
		def(AP, mode, function* (t) {
			t = resolve(t)
			const els = yield* arrRead(t)
			if (!els.some(isMany)) return mkIter({ src: t, mode })
			if (mode === 'keys') return mkArray(els.map((_, i) => i))
			return mkArray(mode === 'values' ? yield* arrElems(t) : (yield* arrElems(t)).map((e, i) => (isMany(e) ? e : mkArray([i, e]))))
		})
	wr(AP).props.set(Symbol.iterator, { v: rd(AP).props.get('values').v, e: false })
	// iterators
	def(realm.IteratorPrototype, Symbol.iterator, function* (t) {
		return t
	})
	def(realm.ArrayIteratorPrototype, 'next', function* (t) {
		t = resolve(t)
		if (!isRef(t) || !rd(t).it) yield* throwErr('TypeError', 'next method called on incompatible receiver')
		const r = yield* iterStep(t)
		return iterResult(r.v, !!r.done)
	})
	for (const kind of ['next', 'return', 'throw']) {
		def(realm.GeneratorPrototype, kind, function* (t, [v]) {
			return yield* genStep(t, kind, resolve(v))
		})
		def(realm.AsyncGeneratorPrototype, kind, function* (t, [v]) {
			return yield* asyncGenStep(t, kind, resolve(v))
		})
	}
	def(realm.AsyncGeneratorPrototype, Symbol.asyncIterator, function* (t) {
		return t
	})
	const lazily = (name, body) =>
		def(realm.IteratorPrototype, name, function* (t, a) {
			return mkGenerator(() => body(t, a))
		})
	const walk = function* (t, f) {
		const c = yield* cursor(t)
		for (let i = 0; ; i++) {
			if (i > 2000) throw new Unsupported('unbounded iteration')
			const r = yield* c.next()
			if (r.done) return undefined
			let x
			try {
				x = yield* f(r.v, i)
			} catch (e) {
				yield* c.close()
				throw e
			}
			if (x) {
				yield* c.close()
				return x
			}
		}
	}
	lazily('map', (t, [f]) =>
		walk(t, function* (v, i) {
			yield { gen: resolve(yield* call(f, undefined, [v, i])) }
		})
	)
	lazily('filter', (t, [f]) =>
		walk(t, function* (v, i) {
			if (truthy(yield* call(f, undefined, [v, i]), 'filter')) yield { gen: v }
		})
	)
	def(realm.IteratorPrototype, 'toArray', function* (t) {
		const out = []
		yield* walk(t, function* (v) {
			out.push(v)
		})
		return mkArray(out)
	})
	def(realm.IteratorPrototype, 'forEach', function* (t, [f]) {
		yield* walk(t, function* (v, i) {
			yield* call(f, undefined, [v, i])
		})
	})
	def(realm.IteratorPrototype, 'some', function* (t, [f]) {
		return !!(yield* walk(t, function* (v, i) {
			return truthy(yield* call(f, undefined, [v, i])) ? { v } : undefined
		}))
	})
	def(realm.IteratorPrototype, 'every', function* (t, [f]) {
		return !(yield* walk(t, function* (v, i) {
			return truthy(yield* call(f, undefined, [v, i])) ? undefined : { v }
		}))
	})
	def(realm.IteratorPrototype, 'find', function* (t, [f]) {
		return (yield* walk(t, function* (v, i) {
			return truthy(yield* call(f, undefined, [v, i])) ? { v } : undefined
		}))?.v
	})
	def(realm.IteratorPrototype, 'reduce', function* (t, a) {
		let acc = a[1]
		let first = a.length < 2
		yield* walk(t, function* (v, i) {
			acc = first ? v : yield* call(a[0], undefined, [acc, v, i])
			first = false
		})
		if (first) yield* throwErr('TypeError', 'Reduce of a done iterator with no initial value')
		return acc
	})
	const mkArrayOf = function* (a) {
		const n = a.length === 1 ? resolve(a[0]) : undefined
		if (typeof n !== 'number') return mkArray(a)
		if (!(n >= 0 && n < 2 ** 32 && Number.isInteger(n))) yield* throwErr('RangeError', 'Invalid array length')
		if (n > 10000) throw new Unsupported('a very long array')
		return mkArray(Array(n).fill(undefined), n ? { holes: true } : {})
	}
	for (const n of ['forEach', 'map', 'filter', 'reduce', 'reduceRight', 'some', 'every', 'flat', 'flatMap', 'sort', 'indexOf', 'lastIndexOf']) {
		const { impl } = rd(rd(AP).props.get(n).v)
		wr(rd(AP).props.get(n).v).impl = function* (t, a, x) {
			t = resolve(t)
			if (isRef(t) && rd(t).holes && rd(t).ver === 0) throw new Unsupported(`Array.prototype.${n} over an array with holes`)
			return yield* impl(t, a, x)
		}
	}
	ctor('Array', {
		call: function* (_t, a) {
			return yield* mkArrayOf(a)
		},
		construct: mkArrayOf,
		statics: {
			*isArray(_t, [v]) {
				v = resolve(v)
				if (isSym(v)) return !!(maskOf(v) & M.OBJ) && truthy(mk('isArray', [v], { mask: M.BOO }), 'Array.isArray')
				return isArrayRef(v)
			},
			*from(_t, [it, f]) {
				it = resolve(it)
				let segs
				if (isRef(it) && rd(it).kind === 'object' && resolve(yield* get(it, Symbol.iterator)) === undefined) {
					const n = resolve(yield* get(it, 'length'))
					if (typeof n === 'number') {
						segs = []
						for (let i = 0; i < n; i++) segs.push(yield* get(it, String(i)))
					} else if (isSym(n) && n.op === 'len') {
						const coll = n.args[0]
						segs = [new Many(mk('positionOf', [coll], { mask: M.NUM }), { idxOf: coll })]
					} else throw new Unsupported('Array.from of an unknown array-like')
				} else segs = yield* iterate(it)
				f = resolve(f)
				if (f === undefined) return mkArray(segs)
				const out = []
				for (let i = 0; i < segs.length; i++) {
					if (isMany(segs[i])) {
						const m = segs[i]
						yield* summariseMap(m, function* (x) {
							const idx = freshSym('i', { mask: M.NUM })
							if (m.tag?.idxOf) X.S.facts.set(idx.id, { elem: { arr: m.tag.idxOf, v: mk('elemOf', [m.tag.idxOf], { mask: M.STR }) } })
							return yield* call(f, undefined, [m.tag?.idxOf ? undefined : x, idx])
						}, out)
					} else out.push(yield* call(f, undefined, [segs[i], i]))
				}
				return mkArray(out)
			},
			*of(_t, a) {
				return mkArray(a)
			}
		}
	})

	// ---------------------------------------------------------------- String
	const SP = realm.StringPrototype
	const str = v => settleTypes(toStr(resolve(v)))
	/** the text of a symbol, null for other values */
	const symText = function* (v) {
		v = resolve(v)
		if (typeof v === 'symbol') return String(v)
		if (!isSym(v) || maskOf(v) !== M.SYM || (!('description' in v.opts) && v.op !== 'Symbol.for')) return null
		const d = v.op === 'Symbol.for' ? v.args[0] : v.opts.description
		return concat('Symbol(', d === undefined ? '' : toStr(d), ')')
	}
	const pure = (name, mask = M.STR) =>
		def(SP, name, function* (t, a) {
			const s = resolve(str(t))
			const args = a.map(resolve)
			if (isConst(s) && args.every(x => isConst(x) || isRegex(x))) {
				const r = s[name](...args.map(toHost))
				if (Array.isArray(r)) return mkArray(r)
				return r
			}
			const r = structured(name, s, args, x => (isRegex(x) ? rd(x) : null))
			if (r !== undefined) return r
			for (const x of args) if (isRef(x) && rd(x).kind !== 'regexp' && isCallable(x)) throw new Unsupported(`String.${name} with a callback on an unknown string`)
			const vague = args.some(x => isSym(x)) && [s, ...args].some(x => isSym(x) && strParts(x).length > 1)
			return mk(`String.${name}`, [s, ...args.map(x => (isRegex(x) ? `/${rd(x).source}/${rd(x).flags}` : x))], vague ? { mask, vague } : { mask })
		})
	const isRegex = x => isRef(x) && rd(x).kind === 'regexp'
	const toHost = x => (isRegex(x) ? new RegExp(rd(x).source, rd(x).flags) : x)
	for (const n of ['substr', 'trim', 'trimStart', 'trimEnd', 'toLowerCase', 'toUpperCase', 'toLocaleLowerCase', 'toLocaleUpperCase', 'charAt', 'padStart', 'padEnd', 'repeat', 'normalize', 'at']) pure(n)
	for (const n of ['charCodeAt', 'codePointAt', 'search', 'localeCompare']) pure(n, M.NUM)
	/** the array a match gives */
	const mkMatch = function* (m) {
		if (!m) return null
		const a = mkArray([...m])
		if (m.index === undefined) return a
		wr(a).props.set('index', { v: m.index, e: true })
		wr(a).props.set('input', { v: m.input, e: true })
		wr(a).props.set('groups', { v: m.groups ? yield* fromHost({ ...m.groups }) : undefined, e: true })
		return a
	}
	def(SP, 'match', function* (t, [pat]) {
		const s = resolve(str(t))
		pat = resolve(pat)
		if (isConst(s) && (isConst(pat) || isRegex(pat))) return yield* mkMatch(s.match(toHost(pat)))
		const r = structured('match', s, [pat], x => (isRegex(x) ? rd(x) : null))
		if (r !== undefined) return r
		return mk('String.match', [s, isRegex(pat) ? `/${rd(pat).source}/${rd(pat).flags}` : pat], { mask: M.OBJ | M.NUL })
	})
	def(SP, 'matchAll', function* (t, [pat]) {
		const s = resolve(str(t))
		pat = resolve(pat)
		if (!isConst(s) || !(isConst(pat) || isRegex(pat))) throw new Unsupported('matchAll on an unknown string')
		if (isRegex(pat) && !rd(pat).flags.includes('g')) yield* throwErr('TypeError', 'String.prototype.matchAll called with a non-global RegExp argument')
		const list = []
		for (const m of s.matchAll(toHost(pat))) list.push(yield* mkMatch(m))
		return mkIter({ list })
	})
	def(SP, Symbol.iterator, function* (t) {
		const s = resolve(str(t))
		if (!isConst(s)) throw new Unsupported('iterator of an unknown string')
		return mkIter({ list: [...s] })
	})
	const replaceImpl = name =>
		function* (t, [pat, rep]) {
			const s = resolve(str(t))
			pat = resolve(pat)
			rep = resolve(rep)
			if (isConst(s) && (isConst(pat) || isRegex(pat))) {
				if (isConst(rep)) return s[name](toHost(pat), rep)
				// callback replacement on a constant string
				const pieces = []
				const parts = []
				if (!isCallable(rep)) throw new Unsupported(`${name} by an unknown value`)
				s[name](toHost(pat), (...m) => {
					const off = m.findIndex((x, i) => i > 0 && typeof x === 'number')
					parts.push({ m: m.slice(0, off), at: m[off], groups: m[off + 2] })
					return ''
				})
				let pos = 0
				for (const p of parts) {
					pieces.push(s.slice(pos, p.at))
					pieces.push(toStr(yield* toPrim(yield* call(rep, undefined, [...p.m, p.at, s, ...(p.groups ? [yield* fromHost({ ...p.groups })] : [])]), 'string')))
					pos = p.at + p.m[0].length
				}
				pieces.push(s.slice(pos))
				return concat(...pieces)
			}
			const st = structured(name, s, [pat, rep], x => (isRegex(x) ? rd(x) : null))
			if (st !== undefined) return st
			return mk(`String.${name}`, [s, isRegex(pat) ? `/${rd(pat).source}/${rd(pat).flags}` : pat, rep], { mask: M.STR })
		}
	def(SP, 'replace', replaceImpl('replace'))
	def(SP, 'replaceAll', replaceImpl('replaceAll'))
	def(SP, 'concat', function* (t, a) {
		return concat(str(t), ...a.map(str))
	})
	def(SP, 'toString', function* (t) {
		return resolve(t)
	})
	def(SP, 'valueOf', function* (t) {
		return resolve(t)
	})
	const startsWithQ = (s, p) => {
		if (isConst(s) && isConst(p)) return s.startsWith(p)
		return startsWith3(s, p) ?? truthy(mk('String.startsWith', [s, p], { mask: M.BOO }), 'startsWith')
	}
	const includes3 = (s, p) => {
		const st = structured('includes', s, [p], () => null)
		if (st !== undefined) return st
		if (strParts(s).some(x => typeof x === 'string' && typeof p === 'string' && x.includes(p))) return true
		if (startsWith3(s, p) === true || endsWith3(s, p) === true) return true
		return null
	}
	for (const name of ['indexOf', 'lastIndexOf'])
		def(SP, name, function* (t, [p, pos]) {
			const s = resolve(str(t))
			p = resolve(str(p))
			pos = resolve(pos)
			if (isConst(s) && isConst(p) && isConst(pos)) return pos === undefined ? s[name](p) : s[name](p, pos)
			if (pos !== undefined) {
				// lastIndexOf(p, 0): p at the very beginning, or nowhere
				if (name === 'lastIndexOf' && pos === 0) return startsWithQ(s, p) ? 0 : -1
				throw new Unsupported(`${name} with a position on an unknown string`)
			}
			const r = structured(name, s, [p], () => null)
			if (r !== undefined) return r
			if (includes3(s, p) === false) return -1
			if (name === 'indexOf' && startsWithQ(s, p)) return 0
			if (includes3(s, p) ?? truthy(mk('String.includes', [s, p], { mask: M.BOO }), 'includes')) return name === 'indexOf' ? mk('positionIn', [s, p], { mask: M.NUM, vague: isSym(s) && strParts(s).length > 1 }) : mk('String.lastIndexOf', [s, p], { mask: M.NUM, vague: true })
			return -1
		})
	// slice(0, n) and slice(n) where n is the length of another text: decided by whether the string starts with that text
	for (const name of ['slice', 'substring'])
		def(SP, name, function* (t, [a, b]) {
			const s = resolve(str(t))
			a = resolve(a)
			b = resolve(b)
			const args = b === undefined ? (a === undefined ? [] : [a]) : [a, b]
			if (isConst(s) && args.every(isConst)) return s[name](...args)
			const r = structured(name, s, args, () => null)
			if (r !== undefined) return r
			// cuts that lie within the known text at the beginning
			const first = strParts(s)[0]
			if (typeof first === 'string' && (a === undefined || (typeof a === 'number' && a >= 0))) {
				const from = Math.trunc(a ?? 0)
				if (b === undefined && from <= first.length) return concat(first.slice(from), ...strParts(s).slice(1))
				if (typeof b === 'number' && b >= from && b <= first.length) return first.slice(from, b)
				if (typeof b === 'number' && b > first.length && from <= first.length) return concat(first.slice(from), mk('String.slice', [concat(...strParts(s).slice(1)), 0, b - first.length], { mask: M.STR }))
			}
			const textOf = n => (isSym(n) && n.op === 'len' && n.args.length === 1 && !(maskOf(n.args[0]) & ~M.STR) ? n.args[0] : null)
			const vague = args.some(isSym) ? { vague: true } : {}
			if ((a === 0 || a === undefined) && textOf(b) !== null) {
				const p = resolve(textOf(b))
				if (startsWithQ(s, p)) return p
				const v = mk(`String.${name}`, [s, a, b], { mask: M.STR, ...vague })
				assumeNe(v, p)
				return v
			}
			if (b === undefined && textOf(a) !== null) {
				const p = resolve(textOf(a))
				const [x, y] = [strParts(s), strParts(p)]
				if (y.every((q, i) => (i < y.length - 1 || isSym(q) ? eq3(q, x[i]) === true : typeof x[i] === 'string' && x[i].startsWith(q)))) {
					const last = y.at(-1)
					return concat(...(typeof last === 'string' ? [x[y.length - 1].slice(last.length)] : []), ...x.slice(y.length))
				}
			}
			return mk(`String.${name}`, [s, ...args], { mask: M.STR, ...vague })
		})
	const affix = (name, dec) =>
		def(SP, name, function* (t, [p, pos]) {
			const s = resolve(str(t))
			p = resolve(str(p))
			if (resolve(pos) !== undefined) throw new Unsupported(`${name} with position`)
			if (isConst(s) && isConst(p)) return s[name](p)
			const d = dec(s, p)
			if (d !== null) return d
			return truthy(mk(`String.${name}`, [s, p], { mask: M.BOO }), name)
		})
	affix('startsWith', startsWith3)
	affix('endsWith', endsWith3)
	affix('includes', includes3)
	def(SP, 'split', function* (t, [sep, lim]) {
		const s = resolve(str(t))
		sep = resolve(sep)
		if (isConst(s) && (isConst(sep) || isRegex(sep))) return mkArray(s.split(toHost(sep), resolve(lim)))
		const st = structured('split', s, resolve(lim) === undefined ? [sep] : [sep, resolve(lim)], () => null)
		if (st !== undefined) return mkArray(st)
		if (typeof sep === 'string' && isSym(s)) return mkArray([new Many(mk('String.split', [s, sep], { mask: M.STR }))])
		throw new Unsupported('split of an unknown string')
	})
	ctor('String', {
		call: function* (_t, a) {
			if (!a.length) return ''
			const v = yield* toPrim(a[0], 'string')
			return (yield* symText(v)) ?? toStr(v)
		},
		statics: {
			*raw(_t, [s, ...vs]) {
				const raw = yield* arrElems(yield* get(s, 'raw'))
				const out = []
				for (let i = 0; i < raw.length; i++) {
					out.push(raw[i])
					if (i < raw.length - 1 && i < vs.length) out.push(toStr(yield* toPrim(vs[i], 'string')))
				}
				return concat(...out)
			},
			*fromCharCode(_t, a) {
				const args = a.map(resolve)
				return args.every(isConst) ? String.fromCharCode(...args) : mk('fromCharCode', args, { mask: M.STR })
			}
		}
	})
	// ---------------------------------------------------------------- Number / Boolean / Symbol / Math
	def(realm.NumberPrototype, 'toString', function* (t, [radix]) {
		t = resolve(t)
		radix = resolve(radix)
		if (radix !== undefined && isConst(radix) && !(Math.trunc(Number(radix)) >= 2 && Math.trunc(Number(radix)) <= 36)) yield* throwErr('RangeError', 'toString() radix must be between 2 and 36')
		if (isConst(t) && (radix === undefined || isConst(radix))) return t.toString(radix)
		return mk('Number.toString', [t, radix], { mask: M.STR })
	})
	for (const n of ['toFixed', 'toPrecision', 'toExponential'])
		def(realm.NumberPrototype, n, function* (t, [d]) {
			t = resolve(t)
			d = resolve(d)
			if (isConst(t) && isConst(d)) {
				try {
					return t[n](d)
				} catch {
					yield* throwErr('RangeError', n)
				}
			}
			return mk(`Number.${n}`, [t, d], { mask: M.STR })
		})
	for (const n of ['Number', 'Boolean', 'BigInt', 'Symbol'])
		def(realm[`${n}Prototype`], 'valueOf', function* (t) {
			return resolve(t)
		})
	for (const n of ['Boolean', 'BigInt'])
		def(realm[`${n}Prototype`], 'toString', function* (t) {
			return toStr(t)
		})
	ctor('Number', {
		call: function* (_t, [v]) {
			return yield* toNum(v)
		},
		statics: {
			*isNaN(_t, [v]) {
				v = resolve(v)
				if (isConst(v)) return Number.isNaN(v)
				if (!(maskOf(v) & M.NUM)) return false
				return same(v, NaN, 'isNaN')
			},
			*isInteger(_t, [v]) {
				v = resolve(v)
				if (!(maskOf(v) & M.NUM)) return false
				return isConst(v) ? Number.isInteger(v) : truthy(mk('isInteger', [v], { mask: M.BOO }))
			},
			*isSafeInteger(_t, [v]) {
				v = resolve(v)
				if (!(maskOf(v) & M.NUM)) return false
				return isConst(v) ? Number.isSafeInteger(v) : truthy(mk('isSafeInteger', [v], { mask: M.BOO }))
			},
			*isFinite(_t, [v]) {
				v = resolve(v)
				if (!(maskOf(v) & M.NUM)) return false
				return isConst(v) ? Number.isFinite(v) : truthy(mk('isFinite', [v], { mask: M.BOO }))
			}
		}
	})
	ctor('Boolean', {
		call: function* (_t, [v]) {
			return truthy(v, 'Boolean()')
		}
	})
	const SymCtor = ctor('Symbol', {
		call: function* (_t, [d]) {
			d = resolve(d)
			return freshSym(`Symbol(${show(d)})`, { mask: M.SYM, atom: true, description: d })
		},
		statics: {
			*for(_t, [k]) {
				return mk('Symbol.for', [toStr(yield* toPrim(k, 'string'))], { mask: M.SYM, atom: false })
			},
			*keyFor(_t, [s]) {
				s = resolve(s)
				if (isSym(s) && s.op === 'Symbol.for') return s.args[0]
				if (isSym(s) && !('description' in s.opts)) throw new Unsupported('Symbol.keyFor of an unknown symbol')
				return undefined
			}
		}
	})
	for (const n of ['iterator', 'asyncIterator', 'toStringTag', 'toPrimitive', 'hasInstance', 'species']) wr(SymCtor).props.set(n, { v: Symbol[n], e: false })
	def(realm.SymbolPrototype, 'toString', function* (t) {
		return (yield* symText(t)) ?? mk('String', [resolve(t)], { mask: M.STR })
	})
	wr(realm.SymbolPrototype).props.set('description', {
		get: mkNative('get description', function* (t) {
			t = resolve(t)
			if (typeof t === 'symbol') return t.description
			if (t.op === 'Symbol.for') return t.args[0]
			if ('description' in (t.opts ?? {})) return t.opts.description === undefined ? undefined : toStr(t.opts.description)
			return mk('description', [t], { mask: M.STR | M.UND })
		}),
		e: false
	})
	const math = mkObject({}, OP, { secret: true, name: 'Math', real: Math })
	for (const n of ['floor', 'ceil', 'round', 'abs', 'max', 'min', 'trunc', 'pow', 'sqrt', 'sign', 'log', 'log2', 'log10', 'exp', 'cbrt', 'hypot', 'imul', 'clz32', 'sin', 'cos', 'tan', 'atan2'])
		def(math, n, function* (_t, a) {
			const args = []
			for (const x of a) args.push(isMany(x) ? x.rep : yield* toNum(x))
			return a.every(x => !isMany(x)) && args.every(isConst) ? Math[n](...args) : mk(`Math.${n}`, args, { mask: M.NUM })
		})
	def(math, 'random', function* () {
		const v = freshSym('random', { mask: M.NUM })
		effect({ t: 'random', v })
		return v
	})
	g('Math', math)

	// ---------------------------------------------------------------- Map / Set / Weak*
	const sameZero = (a, b) => (resolve(b) === 0 ? same(a, 0, 'map key') : same(a, b, 'map key'))
	const entryOf = (o, k) => {
		for (const e of o.entries) if (sameZero(e.k, k)) return e
		return null
	}
	const coll = v => {
		v = resolve(v)
		const o = rd(v)
		return o.kind === 'draft' ? resolve(o.view) : v
	}
	const chg = v => {
		v = resolve(v)
		if (rd(v).kind === 'draft') {
			let r = v
			while (r) {
				const o = wr(r)
				if (o.modified) break
				o.modified = true
				r = o.parent
			}
		}
	}
	const addEntry = (c, e) => {
		const w = wr(c)
		w.nq = (w.nq ?? 0) + 1
		w.entries.push({ ...e, q: w.nq })
	}
	const mapLike = (name, kind) => {
		const P = realm[`${name}Prototype`]
		def(P, 'get', function* (t, [k]) {
			return entryOf(rd(coll(t)), k)?.v
		})
		def(P, 'has', function* (t, [k]) {
			return !!entryOf(rd(coll(t)), k)
		})
		def(P, 'set', function* (t, [k, v]) {
			const c = coll(t)
			const e = entryOf(rd(c), k)
			chg(t)
			if (e) wr(c).entries.find(x => x.k === e.k).v = v
			else addEntry(c, { k: resolve(k) === 0 ? 0 : k, v })
			return t
		})
		def(P, 'add', function* (t, [k]) {
			const c = coll(t)
			if (!entryOf(rd(c), k)) {
				chg(t)
				addEntry(c, { k: resolve(k) === 0 ? 0 : k, v: k })
			}
			return t
		})
		def(P, 'delete', function* (t, [k]) {
			const c = coll(t)
			const e = entryOf(rd(c), k)
			if (!e) return false
			chg(t)
			const w = wr(c)
			w.entries = w.entries.filter(x => x.k !== e.k)
			return true
		})
		def(P, 'clear', function* (t) {
			chg(t)
			wr(coll(t)).entries = []
		})
		// live iteration: entries removed during the visit are skipped, added ones are visited
		def(P, 'forEach', function* (t, [f, th]) {
			let pos = 0
			for (let guard = 0; guard < 2000; guard++) {
				const e = rd(coll(t)).entries.find(x => x.q > pos)
				if (!e) return undefined
				pos = e.q
				yield* call(f, th, kind === 'map' ? [e.v, e.k, t] : [e.k, e.k, t])
			}
			throw new Unsupported('unbounded forEach')
		})
		if (!name.startsWith('Weak')) {
			for (const mode of ['keys', 'values', 'entries'])
				def(P, mode, function* (t) {
					return mkIter({ src: resolve(t), mode: kind === 'set' && mode !== 'entries' ? 'keys' : mode })
				})
			wr(P).props.set(Symbol.iterator, { v: rd(P).props.get(kind === 'map' ? 'entries' : 'values').v, e: false })
		}
		ctor(name, {
			construct: function* ([it]) {
				const m = alloc({ kind, proto: P, props: new Map(), dyn: [], entries: [] })
				it = resolve(it)
				if (it !== undefined && it !== null) {
					for (const e of yield* iterate(it)) {
						if (isMany(e)) throw new Unsupported(`${name} of a summarised iterable`)
						if (kind === 'map') yield* call(rd(P).props.get('set').v, m, [yield* get(e, '0'), yield* get(e, '1')])
						else yield* call(rd(P).props.get('add').v, m, [e])
					}
				}
				return m
			}
		})
	}
	mapLike('Map', 'map')
	mapLike('Set', 'set')
	mapLike('WeakMap', 'map')
	mapLike('WeakSet', 'set')

	// ---------------------------------------------------------------- Promise
	const PP = realm.PromisePrototype
	def(PP, 'then', function* (t, [f, r]) {
		return yield* promiseThen(t, f, r)
	})
	def(PP, 'catch', function* (t, [r]) {
		return yield* promiseThen(t, undefined, r)
	})
	def(PP, 'finally', function* (t, [f]) {
		const p = mkPromise()
		const after = (ok, x) =>
			function* () {
				if (ok) fulfill(p, x)
				else rejectP(p, x)
			}
		const run = ok =>
			function* (x) {
				let y
				try {
					y = yield* call(f, undefined, [])
				} catch (e) {
					if (!(e instanceof JSThrow)) throw e
					return void rejectP(p, e.value)
				}
				yield* subscribe(y, after(ok, x), function* (e) {
					rejectP(p, e)
				})
			}
		yield* subscribe(t, run(true), run(false))
		return p
	})
	const resolved = function* (v) {
		v = resolve(v)
		if (isRef(v) && rd(v).kind === 'promise') return v
		const p = mkPromise()
		yield* resolveP(p, v)
		return p
	}
	const all = settled =>
		function* (_t, [it]) {
			const segs = yield* iterate(it)
			if (segs.some(isMany)) throw new Unsupported('Promise.all of a summarised iterable')
			const p = mkPromise()
			const out = mkArray(segs.map(() => undefined))
			let left = segs.length
			if (!left) fulfill(p, out)
			const cnt = mkObject({ left })
			for (let i = 0; i < segs.length; i++) {
				const done = function* (v) {
					wr(out).segs[i] = v
					const l = rd(cnt).props.get('left').v - 1
					wr(cnt).props.set('left', { v: l })
					if (l === 0) fulfill(p, out)
				}
				yield* subscribe(
					segs[i],
					settled
						? function* (v) {
								yield* done(mkObject({ status: 'fulfilled', value: v }))
							}
						: done,
					settled
						? function* (e) {
								yield* done(mkObject({ status: 'rejected', reason: e }))
							}
						: function* (e) {
								rejectP(p, e)
							}
				)
			}
			return p
		}
	ctor('Promise', {
		construct: function* ([ex]) {
			const p = mkPromise()
			const rf = mkNative('resolve', function* (_t, [v]) {
				if (rd(p).state === 'pending' && !rd(p).locked) {
					wr(p).locked = true
					yield* resolveP(p, v)
				}
			})
			const rj = mkNative('reject', function* (_t, [e]) {
				if (rd(p).state === 'pending' && !rd(p).locked) {
					wr(p).locked = true
					rejectP(p, e)
				}
			})
			try {
				yield* call(ex, undefined, [rf, rj])
			} catch (e) {
				if (!(e instanceof JSThrow)) throw e
				if (!rd(p).locked) rejectP(p, e.value)
			}
			return p
		},
		statics: {
			*resolve(_t, [v]) {
				return yield* resolved(v)
			},
			*reject(_t, [e]) {
				const p = mkPromise()
				rejectP(p, e)
				return p
			},
			*withResolvers() {
				let rf
				let rj
				const p = yield* construct(rd(X.S.g.globalThis).props.get('Promise').v, [mkNative('executor', function* (_t, [a, b]) {
					rf = a
					rj = b
				})])
				return mkObject({ promise: p, resolve: rf, reject: rj })
			},
			*any(_t, [it]) {
				const segs = yield* iterate(it)
				if (segs.some(isMany)) throw new Unsupported('Promise.any of a summarised iterable')
				const p = mkPromise()
				const errs = mkArray(segs.map(() => undefined))
				const cnt = mkObject({ left: segs.length })
				const fail = function* () {
					rejectP(p, alloc({ kind: 'object', cls: 'Error', proto: realm.AggregateErrorPrototype, props: new Map([['message', { v: 'All promises were rejected', e: false }], ['errors', { v: errs, e: false }]]), dyn: [], base: null, name: 'AggregateError' }))
				}
				if (!segs.length) yield* fail()
				for (let i = 0; i < segs.length; i++)
					yield* subscribe(
						segs[i],
						function* (x) {
							fulfill(p, x)
						},
						function* (e) {
							wr(errs).segs[i] = e
							const l = rd(cnt).props.get('left').v - 1
							wr(cnt).props.set('left', { v: l })
							if (!l) yield* fail()
						}
					)
				return p
			},
			all: all(false),
			allSettled: all(true),
			*race(_t, [it]) {
				const p = mkPromise()
				for (const v of yield* iterate(it))
					yield* subscribe(
						v,
						function* (x) {
							fulfill(p, x)
						},
						function* (e) {
							rejectP(p, e)
						}
					)
				return p
			}
		}
	})
	g('queueMicrotask', mkNative('queueMicrotask', function* (_t, [f]) {
		enqueue(function* () {
			yield* call(f, undefined, [])
		})
	}))

	// ---------------------------------------------------------------- Errors, JSON, Reflect, Proxy, RegExp
	for (const n of ['Error', 'TypeError', 'RangeError', 'ReferenceError', 'SyntaxError']) {
		const make = function* ([m, o], nt) {
			const p = nt ? resolve(yield* get(nt, 'prototype')) : realm[`${n}Prototype`]
			const e = alloc({ kind: 'object', cls: 'Error', proto: isRef(p) ? p : realm[`${n}Prototype`], props: new Map(), dyn: [], base: null })
			m = resolve(m)
			if (m !== undefined) wr(e).props.set('message', { v: toStr(m), e: false })
			o = resolve(o)
			if (o !== undefined && isRef(o) && (yield* hasOwn(o, 'cause'))) wr(e).props.set('cause', { v: yield* get(o, 'cause'), e: false })
			wr(e).props.set('stack', { v: mk('stack', [e], { mask: M.STR }), e: false })
			return e
		}
		const c = ctor(n, { call: function* (_t, a) {
			return yield* make(a)
		}, construct: make })
		wr(realm[`${n}Prototype`]).props.set('name', { v: n, e: false })
		if (n === 'Error') def(c, 'captureStackTrace', function* () {})
	}
	wr(realm.ErrorPrototype).props.set('message', { v: '', e: false })
	def(realm.ErrorPrototype, 'toString', function* (t) {
		t = resolve(t)
		if (isRef(t) && !rd(t).base) {
			const part = function* (k, d) {
				const v = resolve(yield* get(t, k))
				return v === undefined ? d : toStr(yield* toPrim(v, 'string'))
			}
			const n = yield* part('name', 'Error')
			const m = yield* part('message', '')
			if (n === '') return m
			if (m === '') return n
			if (isConst(n) && isConst(m)) return `${n}: ${m}`
		}
		return mk('Error.toString', [t], { mask: M.STR })
	})
	const json = mkObject({}, OP, { secret: true, name: 'JSON', real: JSON })
	def(json, 'stringify', function* (_t, [v, rep, space]) {
		v = resolve(v)
		rep = resolve(rep)
		if (isSym(rep)) throw new Unsupported('JSON.stringify with an unknown replacer')
		space = resolve(space)
		const opts = { stack: [] }
		if (isRef(rep) && isCallable(rep)) opts.replacer = rep
		else if (isRef(rep) && isArrayRef(rep)) {
			opts.keys = []
			for (const k of yield* arrElems(rep)) {
				if (isMany(k)) throw new Unsupported('JSON.stringify with a summarised list of keys')
				const x = resolve(k)
				if (isConst(x) && (typeof x === 'string' || typeof x === 'number') && !opts.keys.includes(String(x))) opts.keys.push(String(x))
				else if (!isConst(x)) throw new Unsupported('JSON.stringify with unknown keys')
			}
		}
		if (isSym(v) && opts.replacer) v = resolve(yield* jsonMember(v, '', mkObject({ '': v }), opts))
		if (isSym(v)) {
			if (v.op === 'JSON.parse' && !opts.keys) return mk('JSON.text', [v.args[0]], { mask: M.STR })
			if (maskOf(v) & (M.UND | M.FUN | M.SYM) && isMask(v, M.UND | M.FUN | M.SYM, 'JSON.stringify')) return undefined
			return mk('JSON.stringify', [resolve(v), ...(opts.keys ?? [])], { mask: M.STR })
		}
		v = resolve(yield* jsonMember(v, '', mkObject({ '': v }), opts))
		if (isJsonless(v)) return undefined
		// the text is that of the value as it is now
		const copy = yield* jsonCopy(v, 0, opts)
		const h = jsonHost(copy)
		if (h && (space === undefined || isConst(space))) return JSON.stringify(h.v, null, space)
		return mk('JSON.stringify', [copy], { mask: M.STR })
	})
	def(json, 'parse', function* (_t, [s, rev]) {
		s = yield* toPrim(s, 'string')
		rev = resolve(rev)
		if (isSym(s) || isRef(s)) {
			if (rev !== undefined) throw new Unsupported('JSON.parse of an unknown text with a reviver')
			if (isRef(s)) return mk('JSON.parse', [s])
			if (s.op === 'JSON.stringify' && s.args.length === 1) return yield* jsonCopy(s.args[0])
			if (s.op === 'JSON.text') return mk('JSON.parse', [s.args[0]], { mask: M.ALL & ~(M.UND | M.FUN | M.SYM | M.BIG), thenable: false })
			return mk('JSON.parse', [s], { mask: M.ALL & ~(M.UND | M.FUN | M.SYM | M.BIG), thenable: false })
		}
		let r
		try {
			r = JSON.parse(s)
		} catch {
			yield* throwErr('SyntaxError', 'Unexpected token in JSON')
		}
		r = yield* fromHost(r)
		if (rev === undefined) return r
		const revive = function* (holder, k) {
			const v = resolve(yield* get(holder, k))
			if (isRef(v))
				for (const x of yield* ownKeys(v)) {
					const y = resolve(yield* revive(v, x))
					if (y === undefined) yield* del(v, x)
					else yield* set(v, x, y)
				}
			return yield* call(rev, holder, [k, v])
		}
		return yield* revive(mkObject({ '': r }), '')
	})
	g('JSON', json)
	const reflect = mkObject({}, OP, { secret: true, name: 'Reflect', real: Reflect })
	def(reflect, 'get', function* (_t, [o, k, r]) {
		return yield* get(o, toKey(k), r === undefined ? o : resolve(r))
	})
	/** why an ordinary object refuses a write, or null */
	const refused = (o, k) => {
		for (let at = o; at; at = rd(at).proto) {
			const x = rd(at)
			const p = isSym(k) ? undefined : x.props.get(k)
			if (!p) continue
			if (p.get || p.set) return p.set ? null : 'no setter'
			return p.w === false || x.frozen ? 'read only' : at === o || !rd(o).noext ? null : 'not extensible'
		}
		return rd(o).frozen || rd(o).noext ? 'not extensible' : null
	}
	const plainRef = o => isRef(o) && rd(o).kind !== 'proxy' && rd(o).kind !== 'draft'
	def(reflect, 'set', function* (_t, args) {
		const [o, key, v] = args
		const k = toKey(key)
		const t = resolve(o)
		const r = args.length > 3 ? resolve(args[3]) : t
		if (!isRef(t) && !isSym(t)) yield* throwErr('TypeError', 'Reflect.set called on non-object')
		if (r !== t) {
			if (!plainRef(t)) throw new Unsupported('Reflect.set with a receiver')
			for (let at = t; at && !isSym(k); at = rd(at).proto) {
				const p = rd(at).props.get(k)
				if (!p) continue
				if (p.get || p.set) {
					if (!p.set) return false
					yield* call(p.set, r, [v])
					return true
				}
				if (p.w === false || rd(at).frozen) return false
				break
			}
			if (!(maskOf(r) & M.REF)) return false
			if (isSym(r) && !isMask(r, M.REF, 'receiver')) return false
			if (plainRef(r) && (rd(r).frozen || refused(r, k))) return false
			yield* set(r, k, v)
			return true
		}
		if (isRef(t) && rd(t).kind === 'proxy') {
			const trap = resolve(yield* get(rd(t).handler, 'set'))
			if (trap !== undefined) return truthy(yield* call(trap, rd(t).handler, [rd(t).target, k, v, t]), 'set trap')
		}
		if (plainRef(t) && !rd(t).segs && refused(t, k)) return false
		if (plainRef(t) && rd(t).frozen) return false
		yield* set(t, k, v)
		return true
	})
	def(reflect, 'has', function* (_t, [o, k]) {
		return yield* hasProp(o, toKey(k))
	})
	def(reflect, 'ownKeys', function* (_t, [o]) {
		return mkArray([...(yield* ownKeys(o, 'string', false)), ...(yield* ownKeys(o, 'symbol', false))])
	})
	def(reflect, 'deleteProperty', function* (_t, [o, k]) {
		const t = resolve(o)
		k = toKey(k)
		if (!isRef(t) && !isSym(t)) yield* throwErr('TypeError', 'Reflect.deleteProperty called on non-object')
		if (plainRef(t) && (yield* hasOwn(t, k)) && (rd(t).frozen || rd(t).props.get(k)?.c === false)) return false
		return yield* del(t, k)
	})
	def(reflect, 'apply', function* (_t, [f, th, a]) {
		return yield* call(f, th, yield* iterate(a))
	})
	def(reflect, 'construct', function* (_t, [f, a, nt]) {
		return yield* construct(f, yield* iterate(a), nt === undefined ? f : nt)
	})
	def(reflect, 'defineProperty', function* (_t, [o, k, d]) {
		const t = resolve(o)
		if (plainRef(t)) {
			const old = rd(t).props.get(toKey(k))
			if (rd(t).frozen || (rd(t).noext && !old)) return false
			if (old?.c === false) throw new Unsupported('Reflect.defineProperty of a property that is not configurable')
		}
		yield* defineProp(t, k, d)
		return true
	})
	def(reflect, 'getPrototypeOf', function* (_t, [o]) {
		o = resolve(o)
		return yield* call(rd(Obj).props.get('getPrototypeOf').v, undefined, [o])
	})
	for (const n of ['getOwnPropertyDescriptor', 'isExtensible'])
		def(reflect, n, function* (_t, a) {
			return yield* call(rd(Obj).props.get(n).v, undefined, a)
		})
	for (const n of ['setPrototypeOf', 'preventExtensions'])
		def(reflect, n, function* (_t, a) {
			yield* call(rd(Obj).props.get(n).v, undefined, a)
			return true
		})
	g('Reflect', reflect)
	const mkProxy = function* ([target, handler]) {
		target = resolve(target)
		return alloc({ kind: 'proxy', proto: null, props: new Map(), dyn: [], target, handler: resolve(handler), callable: isCallable(target) })
	}
	g('Proxy', mkNative('Proxy', null, { ctor: mkProxy, secret: true }))
	const execHost = function* (t, s) {
		t = resolve(t)
		const o = rd(t)
		const re = new RegExp(o.source, o.flags)
		const stateful = re.global || re.sticky
		if (stateful) {
			const at = resolve(yield* get(t, 'lastIndex'))
			if (isSym(at)) throw new Unsupported('RegExp from an unknown position')
			re.lastIndex = at
		}
		const m = re.exec(s)
		if (stateful) yield* set(t, 'lastIndex', re.lastIndex)
		return m
	}
	def(realm.RegExpPrototype, 'test', function* (t, [s]) {
		s = settleTypes(toStr(yield* toPrim(s, 'string')))
		const o = rd(resolve(t))
		if (isConst(s)) return !!(yield* execHost(t, s))
		if (/[gy]/.test(o.flags)) throw new Unsupported('RegExp.test from a position in an unknown string')
		return truthy(mk('RegExp.test', [`/${o.source}/${o.flags}`, s], { mask: M.BOO }), 'RegExp.test')
	})
	def(realm.RegExpPrototype, 'exec', function* (t, [s]) {
		s = toStr(yield* toPrim(s, 'string'))
		if (!isConst(s)) throw new Unsupported('RegExp.exec on an unknown string')
		return yield* mkMatch(yield* execHost(t, s))
	})
	def(realm.RegExpPrototype, 'toString', function* (t) {
		const o = rd(resolve(t))
		return `/${o.source}/${o.flags}`
	})
	for (const [k, f] of Object.entries({ global: 'g', ignoreCase: 'i', multiline: 'm', sticky: 'y', unicode: 'u', dotAll: 's' }))
		wr(realm.RegExpPrototype).props.set(k, { get: mkNative(k, function* (t) {
			return rd(resolve(t)).flags.includes(f)
		}), e: false })
	ctor('RegExp', {
		construct: function* ([s, f]) {
			s = resolve(s)
			if (isRef(s) && rd(s).kind === 'regexp') return mkRegExp(rd(s).source, resolve(f) ?? rd(s).flags)
			if (!isConst(s)) throw new Unsupported('RegExp from an unknown string')
			return mkRegExp(String(s), resolve(f) ?? '')
		}
	})
	/** dates hold a time; what depends on the time zone stays symbolic */
	const now = function* () {
		const v = freshSym('now', { mask: M.NUM })
		effect({ t: 'clock', v })
		return v
	}
	const DP = realm.DatePrototype
	const timeOf = function* (t) {
		t = resolve(t)
		if (!isRef(t) || rd(t).cls !== 'Date') yield* throwErr('TypeError', 'this is not a Date object.')
		return resolve(rd(t).time)
	}
	for (const n of ['getTime', 'valueOf'])
		def(DP, n, function* (t) {
			return yield* timeOf(t)
		})
	for (const n of ['toISOString', 'toJSON', 'toUTCString', 'getUTCFullYear', 'getUTCMonth', 'getUTCDate', 'getUTCDay', 'getUTCHours', 'getUTCMinutes', 'getUTCSeconds', 'getUTCMilliseconds'])
		def(DP, n, function* (t) {
			const v = yield* timeOf(t)
			if (isSym(v)) return mk(`Date.${n}`, [v], { mask: n.startsWith('get') ? M.NUM : M.STR })
			if (n === 'toISOString' && Number.isNaN(v)) yield* throwErr('RangeError', 'Invalid time value')
			return new Date(v)[n]()
		})
	for (const n of ['toString', 'toDateString', 'toTimeString', 'toLocaleString', 'toLocaleDateString', 'toLocaleTimeString', 'getFullYear', 'getMonth', 'getDate', 'getDay', 'getHours', 'getMinutes', 'getSeconds', 'getMilliseconds', 'getTimezoneOffset'])
		def(DP, n, function* (t, a) {
			return mk(`Date.${n}`, [yield* timeOf(t), ...a.map(resolve)], { mask: n.startsWith('get') ? M.NUM : M.STR })
		})
	def(DP, 'setTime', function* (t, [v]) {
		yield* timeOf(t)
		wr(resolve(t)).time = yield* toNum(v)
		return rd(resolve(t)).time
	})
	ctor('Date', {
		call: function* () {
			return mk('Date.toString', [yield* now()], { mask: M.STR })
		},
		construct: function* (a, nt) {
			const p = nt ? resolve(yield* get(nt, 'prototype')) : DP
			let time
			if (!a.length) time = yield* now()
			else {
				const first = resolve(a[0])
				const args = []
				if (isRef(first) && rd(first).cls === 'Date') args.push(rd(first).time)
				else for (const x of a) args.push(yield* toPrim(x))
				if (args.length === 1 && isConst(args[0]) && (typeof args[0] !== 'string' || /^\d{4}-\d\d-\d\d(T.*Z)?$/.test(args[0]))) time = new Date(args[0]).getTime()
				else time = args.length === 1 && maskOf(args[0]) === M.NUM ? args[0] : mk('Date.time', args, { mask: M.NUM })
			}
			return alloc({ kind: 'object', cls: 'Date', proto: isRef(p) ? p : DP, props: new Map(), dyn: [], base: null, time })
		},
		statics: {
			now,
			*parse(_t, [s]) {
				s = resolve(s)
				return isConst(s) && /Z$/.test(String(s)) ? Date.parse(s) : mk('Date.time', [s], { mask: M.NUM })
			}
		}
	})
	g('structuredClone', mkNative('structuredClone', function* (_t, [v]) {
		return yield* cloneDeep(v, new Map())
	}))
	g('isNaN', mkNative('isNaN', function* (_t, [v]) {
		const n = yield* toNum(v)
		return isConst(n) ? Number.isNaN(n) : same(n, NaN, 'isNaN')
	}))
	// text codecs: what one encodes the other decodes (well-formed strings); btoa() takes characters up to U+00FF only
	const codec = (n, impl) =>
		g(n, mkNative(n, function* (_t, [v]) {
			v = toStr(resolve(v))
			if (!isSym(v)) {
				try {
					return globalThis[n](v)
				} catch {
					yield* throwErr('Error', n)
				}
			}
			return yield* impl(v)
		}))
	const latin1 = v => isSym(v) && (v.op === 'unescape' || v.op === 'encodeURIComponent' || v.op === 'base64encode' || v.op === 'escape' || v.op === 'btoa' || !!v.word)
	codec('encodeURIComponent', function* (v) {
		return mk('encodeURIComponent', [v], { mask: M.STR })
	})
	codec('decodeURIComponent', function* (v) {
		return v.op === 'encodeURIComponent' ? v.args[0] : mk('decodeURIComponent', [v], { mask: M.STR })
	})
	codec('unescape', function* (v) {
		return v.op === 'escape' ? v.args[0] : mk('unescape', [v], { mask: M.STR })
	})
	codec('escape', function* (v) {
		return v.op === 'unescape' && v.args[0].op === 'encodeURIComponent' ? v.args[0] : mk('escape', [v], { mask: M.STR })
	})
	codec('btoa', function* (v) {
		if (!latin1(v) && !truthy(mk('isLatin1', [v], { mask: M.BOO }))) yield* throwErr('InvalidCharacterError', 'The string to be encoded contains characters outside of the Latin1 range.')
		return mk('btoa', [v], { mask: M.STR })
	})
	codec('atob', function* (v) {
		return v.op === 'btoa' ? v.args[0] : mk('atob', [v], { mask: M.STR })
	})
	for (const n of ['parseInt', 'parseFloat'])
		g(n, mkNative(n, function* (_t, a) {
			const args = []
			for (const x of a) args.push(yield* toPrim(x, 'string'))
			if (args.every(isConst) && globalThis[n]) {
				try {
					return globalThis[n](...args)
				} catch {
					yield* throwErr('Error', n)
				}
			}
			return mk(n, args, { mask: n.startsWith('parse') ? M.NUM : M.STR })
		}))
	for (const n of ['parseInt', 'parseFloat']) wr(rd(glob).props.get('Number').v).props.set(n, { v: rd(glob).props.get(n).v, e: false })
	for (const n of ['setTimeout', 'setInterval', 'clearTimeout', 'clearInterval', 'requestAnimationFrame'])
		g(n, mkNative(n, function* (_t, a) {
			effect({ t: 'timer', op: n, args: a })
			return freshSym('timer', { mask: M.NUM })
		}))
	const cons = mkObject({}, OP, { secret: true })
	for (const n of ['log', 'info', 'warn', 'error', 'debug', 'trace'])
		def(cons, n, function* (_t, a) {
			effect({ t: 'console', method: n, args: a })
		})
	g('console', cons)
	initHost(def, g, OP)
	g('globalThis', glob)
	g('window', glob)
	g('self', glob)
}

function* cloneDeep(v, seen) {
	v = resolve(v)
	if (isConst(v)) {
		if (typeof v === 'symbol') yield* throwErr('Error', 'DataCloneError')
		return v
	}
	if (isSym(v)) {
		if (maskOf(v) & (M.FUN | M.SYM) && isMask(v, M.FUN | M.SYM, 'structuredClone')) yield* throwErr('Error', 'DataCloneError')
		return maskOf(v) & M.REF ? mk('clone', [v], { mask: maskOf(v) }) : resolve(v)
	}
	if (seen.has(v)) return seen.get(v)
	const o = rd(v)
	if (maskOf(v) === M.FUN || o.kind === 'promise' || o.kind === 'proxy' || o.kind === 'draft') yield* throwErr('Error', 'DataCloneError')
	if (o.base || o.dyn.length || o.segs?.some(isMany)) return mk('clone', [v], { mask: M.OBJ })
	let c
	if (o.kind === 'array') {
		seen.set(v, (c = mkArray([])))
		for (const e of o.segs) {
			const x = yield* cloneDeep(e, seen)
			wr(c).segs.push(x)
		}
		return c
	}
	if (o.kind === 'map' || o.kind === 'set') {
		seen.set(v, (c = alloc({ kind: o.kind, proto: R(o.kind === 'map' ? 'MapPrototype' : 'SetPrototype'), props: new Map(), dyn: [], entries: [] })))
		for (const e of o.entries) {
			const x = { k: yield* cloneDeep(e.k, seen), v: yield* cloneDeep(e.v, seen), q: e.q }
			Object.assign(wr(c), { nq: o.nq })
			wr(c).entries.push(x)
		}
		return c
	}
	if (o.kind !== 'object' || (o.cls && o.cls !== 'Date' && o.proto && rd(o.proto).secret)) return mk('clone', [v], { mask: M.OBJ })
	seen.set(v, (c = o.cls === 'Date' ? alloc({ ...o, props: new Map() }) : mkObject({})))
	for (const k of yield* ownKeys(v)) yield* set(c, k, yield* cloneDeep(yield* get(v, k), seen))
	return c
}
/** what JSON makes of a member before it is written */
function* jsonMember(v, key, holder, opts) {
	v = resolve(v)
	if (isRef(v) && !rd(v).base && !rd(v).dyn?.length) {
		const f = resolve(yield* get(v, 'toJSON'))
		if (isRef(f) && isCallable(f)) v = resolve(yield* call(f, v, [key]))
		else if (isSym(f) && maskOf(f) & M.FUN && isMask(f, M.FUN, 'toJSON')) throw new Unsupported('toJSON that may be an unknown function')
	}
	if (opts?.replacer) v = resolve(yield* call(opts.replacer, holder, [key, v]))
	return v
}
/** what reading back the JSON text of x gives */
export function* jsonCopy(x, depth = 0, opts = { stack: [] }) {
	x = resolve(x)
	if (typeof x === 'bigint') yield* throwErr('TypeError', 'Do not know how to serialize a BigInt')
	if (typeof x === 'number' && !Number.isFinite(x)) return null
	if (Object.is(x, -0)) return 0
	if (isConst(x)) return x
	if (isSym(x) && !(maskOf(x) & M.REF)) return x
	if (isSym(x) && x.op === 'jsonCopy') return x
	if (isRef(x) && depth < 8) {
		const o = rd(x)
		if (opts.stack.includes(x)) yield* throwErr('TypeError', 'Converting circular structure to JSON')
		const inner = { ...opts, stack: [...opts.stack, x] }
		if (isArrayRef(x)) {
			const out = []
			let i = 0
			for (const e of yield* arrElems(x)) {
				if (isMany(e)) out.push(new Many(yield* jsonCopy(e.rep, depth + 1, inner), e.tag))
				else {
					const m = yield* jsonMember(e, String(i), x, opts)
					const c = isJsonless(m) ? null : yield* jsonCopy(m, depth + 1, inner)
					out.push(c)
				}
				i++
			}
			return mkArray(out)
		}
		if (['draft', 'object', 'map', 'set', 'promise', 'regexp', 'proxy'].includes(o.kind) && !o.base && !['Storage', 'Navigator', 'Location'].includes(o.cls)) {
			const out = mkObject({})
			for (const k of opts.keys ?? (yield* ownKeys(x))) {
				if (isMany(k)) throw new Unsupported('JSON of an object of unknown keys')
				if (opts.keys && !(yield* hasOwn(x, k))) continue
				const v = yield* jsonMember(yield* get(x, k), k, x, opts)
				if (isJsonless(v)) continue
				const c = yield* jsonCopy(v, depth + 1, inner)
				if (isConst(k)) wr(out).props.set(k, { v: c, e: true })
				else yield* set(out, k, c)
			}
			return out
		}
	}
	return mk('jsonCopy', [x], { mask: maskOf(x), thenable: false })
}
function isJsonless(v) {
	v = resolve(v)
	const none = M.UND | M.FUN | M.SYM
	const m = maskOf(v)
	if (!(m & none)) return false
	if (!(m & ~none)) return true
	return isMask(v, none, 'JSON member')
}
/** { v } when every part is a constant */
function jsonHost(x) {
	x = resolve(x)
	if (!isRef(x)) return isSym(x) ? null : { v: x }
	const o = rd(x)
	if (o.kind === 'array') {
		const out = []
		for (const e of o.segs) {
			const h = isMany(e) ? null : jsonHost(e)
			if (!h) return null
			out.push(h.v)
		}
		return { v: out }
	}
	if (o.kind !== 'object' || o.cls || o.dyn?.length || o.base) return null
	const out = {}
	for (const [k, p] of o.props) {
		if (typeof k !== 'string' || p.get || p.set) return null
		const h = jsonHost(p.v)
		if (!h) return null
		if (p.e !== false) Object.defineProperty(out, k, { value: h.v, enumerable: true, configurable: true, writable: true })
	}
	return { v: out }
}
export function* fromHost(v) {
	if (Array.isArray(v)) {
		const out = []
		for (const e of v) out.push(yield* fromHost(e))
		return mkArray(out)
	}
	if (v && typeof v === 'object') {
		const o = mkObject({})
		for (const k of Object.keys(v)) wr(o).props.set(k, { v: yield* fromHost(v[k]), e: true })
		return o
	}
	return v
}
function mkEntrySym(k, v) {
	return mkArray([k, v])
}
function* summariseMap(m, f, out) {
	const res = []
	yield* summarise(m, function* (x) {
		const r = yield* f(x)
		res.push({ x, r, S: X.S })
		return undefined
	})
	// the image of the generic element, when it is the same term in every partition
	const imgs = [...new Set(res.map(r => keyOf(r.r)))]
	if (imgs.length === 1) {
		const r0 = res[0]
		const v = r0.r
		if (isRef(v) && X.S.heap.get(v.id) !== r0.S.heap.get(v.id)) {
			taint('mapped objects of a summarised array')
			out.push(new Many(freshSym('mapped')))
		} else out.push(new Many(v === r0.x ? m.rep : v, { image: { of: m, x: r0.x, v } }))
	} else {
		const r = freshSym('mapped', {})
		out.push(new Many(r))
	}
}
function* summariseFilter(m, pred, out) {
	const keep = []
	yield* summarise(m, function* (x) {
		const b = yield* pred(x)
		keep.push({ x, b, facts: X.S.facts, path: X.S.path })
		return undefined
	})
	const yes = keep.filter(k => k.b)
	if (!yes.length) return
	if (yes.length === keep.length) {
		out.push(m)
		return
	}
	// the surviving elements carry the facts of the partitions that keep them
	const rep = freshSym('kept', { mask: maskOf(m.rep), filtered: { of: m, alts: yes.map(y => ({ x: y.x, facts: y.facts })), dropped: keep.filter(k => !k.b).map(y => ({ x: y.x, facts: y.facts })) } })
	if (yes.length === 1) {
		// re-state boolean facts about the generic element for the kept representative
		const before = X.S.facts
		for (const [id, f] of yes[0].facts) {
			if (before.has(id)) continue
		}
	}
	out.push(new Many(rep, { ...m.tag, filtered: true }))
}

// -------------------------------------------------------------------- host

/** Storage: entries are (key, value) pairs with pairwise decided keys; `rest` stands for further unknown entries */
export function mkStorage(name, { entries = [], rest = null } = {}) {
	const o = alloc({ kind: 'object', cls: 'Storage', proto: R('ObjectPrototype'), props: new Map(), dyn: [], base: null, name, entries: entries.map(([k, v]) => ({ k, v })), rest, ver: 0, isStorage: true })
	const def = (n, impl) => wr(o).props.set(n, { v: mkNative(n, impl), e: false })
	const check = function* (t) {
		t = resolve(t)
		if (t !== o) yield* throwErr('TypeError', 'Illegal invocation')
	}
	const find = k => {
		for (const e of rd(o).entries) if (same(e.k, k, 'storage key')) return e
		return null
	}
	def('getItem', function* (t, [k]) {
		yield* check(t)
		k = toStr(resolve(k))
		const e = find(k)
		const v = e ? (e.gone ? null : e.v) : rd(o).rest ? mk('stored', [rd(o).rest, k], { mask: M.STR | M.NUL }) : null
		effect({ t: 'storage', op: 'get', store: o, key: k, v })
		return v
	})
	def('setItem', function* (t, [k, v]) {
		yield* check(t)
		k = toStr(resolve(k))
		v = toStr(resolve(v))
		const e = find(k)
		if (e) {
			const w = wr(o).entries.find(x => x.k === e.k)
			w.v = v
			w.gone = false
		} else {
			wr(o).entries.push({ k, v })
			wr(o).ver++
		}
		effect({ t: 'storage', op: 'set', store: o, key: k, v })
	})
	def('removeItem', function* (t, [k]) {
		yield* check(t)
		k = toStr(resolve(k))
		const e = find(k)
		if (e) {
			const w = wr(o)
			if (w.rest) w.entries.find(x => x.k === e.k).gone = true
			else w.entries = w.entries.filter(x => x.k !== e.k)
			w.ver++
		} else if (rd(o).rest) {
			wr(o).entries.push({ k, v: null, gone: true })
			wr(o).ver++
		}
		effect({ t: 'storage', op: 'remove', store: o, key: k })
	})
	def('clear', function* (t) {
		yield* check(t)
		const w = wr(o)
		w.entries = []
		w.rest = null
		w.ver++
		effect({ t: 'storage', op: 'clear', store: o })
	})
	def('key', function* (t, [i]) {
		yield* check(t)
		i = resolve(i)
		if (isSym(i)) {
			const e = fact(i)?.elem
			if (e) return e.v
			taint('storage.key at an unknown position')
			return freshSym('key', { mask: M.STR | M.NUL })
		}
		const x = rd(o)
		if (x.rest) {
			taint('storage.key at a fixed position of an unknown storage')
			return freshSym('key', { mask: M.STR | M.NUL })
		}
		return x.entries[i]?.k ?? null
	})
	wr(o).props.set('length', {
		get: mkNative('length', function* () {
			const x = rd(o)
			if (!x.rest) return x.entries.length
			return mk('len', [mk('collection', [o, x.ver], { mask: M.OBJ }), 0], { mask: M.NUM })
		}),
		e: false
	})
	return o
}

function initHost(def, g, OP) {
	g('localStorage', mkStorage('localStorage', { rest: named('contents of localStorage', { mask: M.OBJ }) }))
	g('sessionStorage', mkStorage('sessionStorage', { rest: named('contents of sessionStorage', { mask: M.OBJ }) }))
	g('navigator', mkObject({ language: named('navigator.language', { mask: M.STR }), languages: mkArray([named('navigator.language', { mask: M.STR })]), userAgent: named('navigator.userAgent', { mask: M.STR }), platform: named('navigator.platform', { mask: M.STR }) }, OP, { name: 'navigator', cls: 'Navigator', real: names('onLine cookieEnabled vendor vendorSub product productSub appVersion appName appCodeName oscpu hardwareConcurrency deviceMemory maxTouchPoints serviceWorker permissions clipboard geolocation mediaDevices userAgentData webdriver doNotTrack connection storage locks sendBeacon share vibrate plugins mimeTypes') }))
	g('location', mkObject({ href: named('location.href', { mask: M.STR }) }, OP, { name: 'location', cls: 'Location', real: names('host hostname pathname search hash protocol port origin assign reload replace ancestorOrigins toString') }))
	g('document', named('document', { mask: M.OBJ, atom: true }))
	// methods of the window: called on it, or on nothing
	const ofWindow = function* (t) {
		t = resolve(t)
		if (t !== undefined && t !== null && t !== X.S.g.globalThis) yield* throwErr('TypeError', 'Illegal invocation')
	}
	g('fetch', mkNative('fetch', function* (t, a) {
		yield* ofWindow(t)
		const r = freshSym('response promise', { mask: M.OBJ, isPromise: true })
		effect({ t: 'fetch', this: t, args: a, ret: r })
		return r
	}))
	g('addEventListener', mkNative('addEventListener', function* (t, [type, fn, opts]) {
		yield* ofWindow(t)
		effect({ t: 'listen', op: 'add', this: t, type: resolve(type), fn: resolve(fn), opts: resolve(opts) })
	}))
	g('removeEventListener', mkNative('removeEventListener', function* (t, [type, fn, opts]) {
		yield* ofWindow(t)
		effect({ t: 'listen', op: 'remove', this: t, type: resolve(type), fn: resolve(fn), opts: resolve(opts) })
	}))
	g('dispatchEvent', mkNative('dispatchEvent', function* (t, [ev]) {
		effect({ t: 'dispatch', ev })
		return true
	}))
	const crypto = mkObject({}, OP)
	def(crypto, 'randomUUID', function* () {
		const v = freshSym('random', { mask: M.STR })
		effect({ t: 'random', v })
		return v
	})
	def(crypto, 'getRandomValues', function* (_t, [a]) {
		effect({ t: 'random', v: a })
		return a
	})
	g('crypto', crypto)
}
