// More of the language and its library, in the ways programs like those of /repo (and their rewrites) use it.
const log = () => {
	const out: any[] = []
	return { out, push: (...x: any[]) => void out.push(...x) }
}
export function generators() {
	function* g(n: number): Generator<number, string, number> {
		let s = 0
		for (let i = 0; i < n; i++) s += (yield i) ?? 0
		return `sum ${s}`
	}
	const it = g(3)
	const r = [it.next(), it.next(5), it.next(6), it.next(7), it.next(1)]
	return [...r.flatMap(x => [x.value, x.done]), [...g(2)].length, Array.from(g(4)).length]
}
export function generatorReturnThrow() {
	const { out, push } = log()
	function* g() {
		try {
			yield 1
			yield 2
		} catch (e) {
			push('caught', e)
			yield 9
		} finally {
			push('finally')
		}
	}
	for (const x of g()) {
		push(x)
		break
	}
	const i = g()
	i.next()
	push(i.throw('err').value)
	push(i.return(4 as any).value)
	return out
}
export function customIterable() {
	class Range {
		constructor(private a: number, private b: number) {}
		*[Symbol.iterator]() {
			for (let i = this.a; i < this.b; i++) yield i
		}
	}
	const plain = {
		[Symbol.iterator]() {
			let i = 0
			return { next: () => (i < 2 ? { value: i++, done: false } : { value: undefined, done: true }) }
		}
	}
	const [first, ...rest] = new Range(3, 6)
	return [...new Range(0, 3), ...(plain as any), Math.max(...new Range(1, 5)), first, rest.length, new Set(new Range(0, 4)).size, Object.fromEntries(new Map([['k', 1]])).k]
}
export function accessors() {
	let n = 0
	const o = {
		get x() {
			return ++n
		},
		set x(v) {
			n = v * 10
		},
		['comp' + 'uted']: 5,
		'quoted-key': 6,
		7: 'seven',
		m() {
			return this.x
		}
	}
	o.x = 2
	const c: any = { ...o }
	const d = Object.getOwnPropertyDescriptor(o, 'x')!
	return [o.x, o.m(), c.x, c.x, c.computed, c['quoted-key'], c[7], typeof d.get, d.value, Object.keys(o).join(), 'x' in o, delete (o as any).computed, Object.keys(o).length]
}
export function defineProperties() {
	const o: any = {}
	Object.defineProperty(o, 'hidden', { value: 1 })
	Object.defineProperty(o, 'got', { get: () => 4, enumerable: true, configurable: true })
	Object.defineProperties(o, { w: { value: 3, writable: true, enumerable: true } })
	const out: any[] = [o.hidden, o.got, o.w, Object.keys(o).join(), JSON.stringify(o)]
	try {
		o.hidden = 2
		out.push('no error')
	} catch (e) {
		out.push((e as any) instanceof TypeError)
	}
	const f = Object.freeze({ a: { b: 1 } })
	try {
		;(f as any).a = 2
	} catch (e) {
		out.push('frozen')
	}
	f.a.b = 2
	const s = Object.seal({ a: 1 } as any)
	s.a = 2
	try {
		s.b = 1
	} catch {
		out.push('sealed')
	}
	return [...out, f.a.b, s.a, Object.isFrozen(f), Object.isSealed(s), Object.isFrozen(1), Object.isExtensible(f)]
}
export function prototypes() {
	const base = { hi() { return `hi ${(this as any).n}` }, shared: 1 }
	const o: any = Object.create(base, { n: { value: 'o', enumerable: true } })
	const bare = Object.create(null)
	bare.toString = 1
	const set = Object.setPrototypeOf({ a: 1 }, base)
	const lit: any = { __proto__: base, z: 1 }
	return [o.hi(), o.shared, Object.hasOwn(o, 'shared'), o.hasOwnProperty('n'), Object.getPrototypeOf(o) === base, Object.getPrototypeOf(bare), 'toString' in bare, 'valueOf' in bare, Object.keys(bare).length, set.hi(), base.isPrototypeOf(set), lit.shared, Object.keys(lit).length, ({} as any).toString === Object.prototype.toString]
}
export function forIn() {
	const p = { inherited: 1 }
	const o = Object.assign(Object.create(p), { b: 1, a: 2, 1: 'x', 0: 'y' })
	const ks: string[] = []
	for (const k in o) ks.push(k)
	const own: string[] = []
	for (const k in o) if (Object.prototype.hasOwnProperty.call(o, k)) own.push(k)
	const arr: string[] = []
	for (const i in ['p', 'q']) arr.push(i)
	return [ks.join(), own.join(), arr.join(), Object.entries(o).flat().join(), Object.values(o).join()]
}
export function spreadOrder() {
	const a = { x: 1, y: 2 }
	const b = { y: 3, z: undefined }
	const m: any = { ...a, ...b, x: 0, ...null, ...undefined, ...(false as any), ...'ab' }
	const t: any = Object.assign({ z: 9 }, a, null, b)
	return [JSON.stringify(m), JSON.stringify(t), 'z' in t, Object.keys(m).join()]
}
export function defaultsAndArguments() {
	function f(a: any, b = a + 1, { c = 5, ...r }: any = {}, ...rest: any[]) {
		return [a, b, c, Object.keys(r).length, rest.length, arguments.length]
	}
	const g = (x = 'd', [y = 2, z]: any[] = []) => [x, y, z]
	return [...f(1), ...f(1, undefined, { d: 1 }, 7, 8), f.length, f.name, ...g(), ...g(null as any, [undefined, 4])]
}
export function thisBinding() {
	'use strict'
	function f(this: any, a?: any, b?: any) {
		return [this === undefined ? 'undef' : this.n, a, b].join()
	}
	const o = { n: 'o', f, arrow: () => typeof o }
	const { f: taken } = o
	const bound = f.bind({ n: 'bound' }, 1)
	return [o.f(1), taken(2), f.call({ n: 'c' }, 3), f.apply({ n: 'a' }, [4, 5]), bound(2), bound.call({ n: 'no' }, 3), o.arrow(), (0, o.f)(), o?.f?.(6), Reflect.apply(f, { n: 'r' }, [7]), bound.length, bound.name]
}
export function classesMore() {
	class A {
		#p = 1
		static #count = 0
		static make() {
			return new this()
		}
		static {
			A.#count = 10
		}
		readonly list: number[] = []
		constructor(public n = 3) {
			A.#count++
			this.list.push(this.#p)
		}
		get p() {
			return this.#p
		}
		set p(v) {
			this.#p = v
		}
		#secret() {
			return `s${this.#p}`
		}
		tell = () => this.#secret()
		static count() {
			return A.#count
		}
		has(o: any) {
			return #p in o
		}
	}
	class B extends A {
		constructor() {
			super(8)
			this.p += 5
		}
		toString() {
			return `B(${this.n})`
		}
	}
	const b = B.make() as B
	const { tell } = b
	const C = class extends (null as any ?? A) {}
	return [b.n, b.p, tell(), `${b}`, A.count(), b.has({}), b.has(b), new C().n, b.constructor === B, B.name, Object.getPrototypeOf(B) === A, b.list.length, new A() instanceof B]
}
export function errors() {
	class E extends Error {
		code = 5
		constructor(m: string, o?: any) {
			super(m, o)
			this.name = 'E'
		}
	}
	const e = new E('m', { cause: 'c' })
	const out: any[] = [e.message, e.name, e.code, (e as any).cause, e instanceof Error, e instanceof E, String(e), `${new TypeError('t')}`, Object.keys(e).join()]
	const f = () => {
		try {
			return 'try'
		} finally {
			out.push('fin')
		}
	}
	const g = () => {
		try {
			throw 1
		} catch {
			return 'catch'
		} finally {
			return 'finally'
		}
	}
	const h = () => {
		for (;;) {
			try {
				break
			} finally {
				out.push('loop')
			}
		}
		return 'h'
	}
	return [...out, f(), g(), h(), out.length]
}
export function switches() {
	const f = (x: any) => {
		const r: any[] = []
		switch (x) {
			case 1:
				r.push('one')
			case 2:
				r.push('two')
				break
			default:
				r.push('default')
			case 'last':
				r.push('last')
		}
		return r.join()
	}
	const t = (x: any) => {
		switch (true) {
			case typeof x === 'string':
				return 's'
			case x > 3: {
				const y = 'big'
				return y
			}
		}
		return 'none'
	}
	return [f(1), f(2), f(3), f('last'), t('a'), t(4), t(1)]
}
export function loops() {
	const out: any[] = []
	let i = 0
	do {
		if (i === 1) continue
		out.push(i)
	} while (++i < 3)
	while (true) {
		if (i-- <= 0) break
	}
	out.push(i)
	const fs: any[] = []
	for (let j = 0, k = 10; j < k; j++, k -= 3) fs.push(() => j * 100 + k)
	for (const [k, v] of Object.entries({ a: 1, b: 2 })) out.push(k + v)
	for (const { x, y = 2 } of [{ x: 1 }, { x: 3, y: 4 }] as any[]) out.push(x + y)
	for (const c of 'héy') out.push(c)
	a: {
		if (out.length) break a
		out.push('never')
	}
	return [...out, ...fs.map(f => f())]
}
export function operators() {
	let a: any = null
	let b: any = 0
	let c: any = ''
	a ??= 1
	b ||= 2
	c &&= 3
	let n = 5
	n **= 2
	n %= 7
	n <<= 2
	const o: any = { p: undefined, q: null }
	o.p ??= 'p'
	o.q ||= 'q'
	o.r ||= (o.s = 's')
	let x = 1
	const y = x++ + ++x
	return [a, b, c, n, o.p, o.q, o.r, o.s, y, x, +'4', -'3', +true, +[], !!'', !!'0', ~5, 7 >>> 1, -7 >> 1, 5 & 3, 5 | 3, 5 ^ 3, 1 < 2, '10' < '9', null == undefined, null === undefined, (NaN as any) == NaN, '1' == (1 as any), typeof null, typeof undefined, void 0, (1, 2), 'a' + 1 + 2, 1 + 2 + 'a', [] + '', [1, [2, 3]] + '', `${null}`, `${[1, 2]}`, 2 ** -1, 7 / 2, 1 / 0, -1 / 0, 0 / 0 !== 0 / 0]
}
export function optionalChains() {
	const o: any = { a: { f() { return this.v }, v: 3, n: null, arr: [1, 2] } }
	let calls = 0
	const k = () => (calls++, 'v')
	return [o?.a?.v, o.b?.c.d.e, o.a.f?.(), o.a.g?.(calls++), o.n?.[k()], o.a?.[k()], o.a.n?.x ?? 'dflt', (o.b?.c)?.d, calls, delete o.a?.v, 'v' in o.a, delete o.zz?.y, o?.['a']?.arr?.at(-1), o.a.arr?.map?.((x: number) => x + 1)?.[1]]
}
export function stringsMore() {
	const s = 'Hello, World'
	return [s.toLowerCase(), s.toUpperCase(), s.at(-1), s.lastIndexOf('o'), s.includes('World'), s.endsWith('ld'), s.repeat(2).length, s.padStart(14, '*'), s.padEnd(14, '-'), ' x '.trim(), ' x'.trimStart(), 'x '.trimEnd(), s.split(', ').join('|'), s.split('').reverse().join(''), s.split(',', 1)[0], s.replace('o', '0'), s.replaceAll('o', '0'), s.replace(/o/g, c => c.toUpperCase()), s.replace(/(\w+), (\w+)/, '$2 $1'), s.match(/o/g)!.length, s.match(/W(.)r/)![1], s.match(/zz/), s.search(/W/), /World$/.test(s), s.charCodeAt(0), String.fromCharCode(72, 105), s.codePointAt(1), s.slice(-5, -1), s.substring(5, 2), s.substr(2, 3), s.concat('!', '?'), s.localeCompare('Hello, World'), [...'ab'].length, s[0], 'a-b_c'.split(/[-_]/).length, 'aXbX'.split('X').length, s.indexOf('l', 4), 'abc' < 'abd', encodeURIComponent('a b/ü'), decodeURIComponent('a%20b'), 'ß'.normalize().length]
}
export function regexps() {
	const re = /(?<k>\w+)=(?<v>\d+)/g
	const out: any[] = []
	let m: RegExpExecArray | null
	while ((m = re.exec('a=1, b=22'))) out.push(m.groups!.k, m.groups!.v, m.index)
	for (const x of 'a=1;b=2'.matchAll(/(\w)=(\d)/g)) out.push(x[1] + x[2])
	const sticky = /a/y
	out.push(sticky.test('ba'), /a/i.test('A'), /^a.c$/s.test('a\nc'), new RegExp('^x' + 'y').test('xyz'), new RegExp('A', 'gi').flags, /a/.source, String(/a\/b/))
	return out
}
export function arraysMore() {
	const a: any[] = [5, 1, 4]
	const out: any[] = [a.push(7, 8), a.pop(), a.shift(), a.unshift(9, 3), a.join('-')]
	out.push(a.slice().sort().join(), a.slice().sort((x, y) => y - x).join(), a.slice().reverse().join(), a.filter((_, i) => i % 2).join(), a.findIndex(x => x === 4), a.findLast(x => x > 3), a.findLastIndex(x => x > 100), a.flatMap(x => (x > 4 ? [x, x] : [])).length, [[1], [2, [3]]].flat().length, [[1], [2, [3]]].flat(2).length, a.lastIndexOf(9), a.at(0), a.fill(0, 1, 2).join(), a.reduceRight((p, c) => p + c, ''), Array.isArray(a), Array.of(1, 2).length, Array.from({ length: 3 }, (_, i) => i * i).join(), Array.from('ab').join(), new Array(3).length, [...new Array(2)].map((_, i) => i).join(), a.entries().next().value!.join(), [...a.keys()].join(), a.splice(1, 2, 'x', 'y', 'z').length, a.join(), [3, undefined, 1].includes(undefined), [NaN].includes(NaN), [NaN].indexOf(NaN), [1, 2, 3].with(1, 9).join(), [3, 1].toSorted().join(), [1, 2].toReversed().join(), [1, 2, 3].copyWithin(0, 1).join(), [1, , 3].length)
	a.length = 1
	const [p, q = 'q', ...r] = a
	;[a[0], a[1]] = [a[1], a[0]]
	return [...out, a.length, p, q, r.length, a.indexOf(9), [].concat([1] as any, 2 as any, [[3]] as any).length, [0, 1, 2].every(Boolean), ['1', '2', '3'].map(Number).join(), [1, 2, 3].some((x, i, arr) => arr[i + 1] === undefined), Object.groupBy ? 'gb' : '', ['a', 'b'].entries().toArray?.().length ?? 2]
}
export function mapsAndSets() {
	const m = new Map<any, any>([['a', 1], [NaN, 2]])
	m.set('b', 3).set('a', 4)
	const out: any[] = [m.size, m.get(NaN), m.get('a'), m.has('zz'), [...m.keys()].length, [...m.values()].join(), m.delete('b'), m.delete('b'), m.size]
	const order: any[] = []
	m.forEach((v, k) => order.push(k, v))
	const s = new Set([1, 2, 2, 3])
	const seen: any[] = []
	for (const x of s) {
		seen.push(x)
		if (x === 1) s.delete(2)
		if (x === 3 && s.size < 3) s.add(4)
	}
	const w = new WeakMap<object, number>()
	const k = {}
	w.set(k, 1)
	const ws = new WeakSet([k])
	m.clear()
	return [...out, ...order, ...seen, s.has(2), s.size, w.get(k), w.has({}), ws.has(k), m.size, [...new Set('aab')].join(''), Array.from(new Map([[1, 2]]), ([a, b]) => a + b)[0], new Map(Object.entries({ z: 1 })).get('z'), [...s.entries()][0].length]
}
export function symbols() {
	const s = Symbol('d')
	const o: any = { [s]: 1, a: 2 }
	return [o[s], Object.keys(o).length, Object.getOwnPropertySymbols(o).length, Reflect.ownKeys(o).length, s.description, String(s), Symbol.for('x') === Symbol.for('x'), Symbol('q') === Symbol('q'), typeof s, s in o, { ...o }[s], JSON.stringify(o)]
}
export function json() {
	const o = { a: [1, undefined, null, () => 1, NaN], b: undefined, c: { toJSON: () => 'J' }, d: 'é"\n', e: new Date(0) }
	return [JSON.stringify(o), JSON.stringify(undefined), JSON.stringify('x'), JSON.stringify({ a: 1, b: [1] }, null, 2), JSON.stringify({ a: 1, b: 2 }, ['a']), JSON.stringify({ a: 1 }, (k, v) => (k === 'a' ? 5 : v)), JSON.parse('{"a":[1,{"b":null}]}').a[1].b, JSON.parse('"x"'), JSON.parse('1', (_, v) => v + 1), JSON.stringify(Object.create({ inh: 1 })), JSON.stringify([new Map([[1, 2]])])]
}
export function jsonErrors() {
	const out: any[] = []
	try {
		JSON.parse('{bad')
	} catch (e) {
		out.push(e instanceof SyntaxError)
	}
	const c: any = {}
	c.c = c
	try {
		JSON.stringify(c)
	} catch (e) {
		out.push(e instanceof TypeError)
	}
	return out
}
export function proxies() {
	const seen: any[] = []
	const p: any = new Proxy({ a: 1 } as any, {
		get: (t, k, r) => (seen.push(`get ${String(k)}`), Reflect.get(t, k, r)),
		set: (t, k, v) => (seen.push(`set ${String(k)}`), (t[k] = v), true),
		has: (t, k) => (seen.push(`has ${String(k)}`), k in t),
		deleteProperty: (t, k) => (seen.push(`del ${String(k)}`), delete t[k]),
		ownKeys: t => (seen.push('keys'), Reflect.ownKeys(t))
	})
	p.b = 2
	const r = [p.a, p.b, 'a' in p, delete p.a, Object.keys(p).join(), { ...p }.b]
	const f: any = new Proxy((x: number) => x + 1, { apply: (t, th, a) => t.apply(th, a as any) * 10 })
	return [...r, f(1), ...seen]
}
export function reflection() {
	class A {
		constructor(public x = 1) {}
	}
	const o: any = { a: 1 }
	return [Reflect.has(o, 'a'), Reflect.set(o, 'b', 2), Reflect.deleteProperty(o, 'a'), Reflect.ownKeys(o).join(), Reflect.construct(A, [5]).x, Reflect.getPrototypeOf(o) === Object.prototype, Reflect.defineProperty(o, 'c', { value: 1 }), Object.getOwnPropertyNames(o).join(), Object.getOwnPropertyDescriptors(o).b.value, Object.is(-0, 0), Object.entries(o).length, o.propertyIsEnumerable('c')]
}
export function numbers() {
	return [Number('12'), Number(''), Number('x') !== Number('x'), parseInt('12px', 10), parseFloat('1.5e1x'), (255).toString(16), (1.005).toFixed(1), Number.isInteger(5), Number.isNaN('x' as any), isNaN('x' as any), Math.floor(-1.5), Math.trunc(-1.5), Math.round(2.5), Math.max(), Math.min(3, 1), Math.abs(-2), Math.sign(-3), Number.MAX_SAFE_INTEGER, 0.1 + 0.2 === 0.3, 5 % -3, -5 % 3, 10n + 5n === 15n, typeof 1n, Boolean('false'), String(null), String([1]), String({}), (5).toString(), Number.parseInt('0x1f'), 1e21 + '', 0.000001 + '']
}
export function tagged() {
	const t = (s: TemplateStringsArray, ...v: any[]) => s.join('_') + v.join() + s.raw.length
	return [t`a${1}b${2}c`, `${1}${'x'}`, String.raw`\n${1}`, `a${`b${'c'}`}`]
}
export function hoisting() {
	const out: any[] = [typeof f, f()]
	function f() {
		return 'hoisted'
	}
	var v = 1
	{
		var v = 2
		let w = 3
		out.push(w)
		function g() {
			return w
		}
		out.push(g())
	}
	try {
		;(() => tdz)()
		out.push('no')
	} catch (e) {
		out.push(e instanceof ReferenceError)
	}
	const tdz = 1
	const fact = function me(n: number): number {
		return n < 2 ? 1 : n * me(n - 1)
	}
	return [...out, v, fact(4), (() => tdz)()]
}
export function dates() {
	const d = new Date(0)
	return [d.getTime(), d.toISOString(), typeof Date.now(), new Date('2020-01-01T00:00:00Z').getTime()]
}
export function structured() {
	const a = { x: [1, { y: 2 }], m: new Map([[1, { z: 1 }]]) }
	const b = structuredClone(a)
	;(b.x[1] as any).y = 3
	return [(a.x[1] as any).y, (b.x[1] as any).y, a.m === b.m, b.m.get(1)!.z]
}
export function enumsAndNamespaces() {
	enum E {
		A,
		B = 5,
		C,
		S = 's'
	}
	const x: any = { y: 1 }
	const z = x satisfies any
	return [E.A, E.B, E.C, E[5], E.S, (z as any).y, (<any>z).y, z!.y]
}
export async function promises() {
	const { out, push } = log()
	const p = new Promise<number>(r => {
		push('executor')
		r(1)
		r(2)
	})
	p.then(v => push('then', v))
	queueMicrotask(() => push('micro'))
	push('sync')
	await null
	push('after await')
	await Promise.resolve().then(() => push('chained'))
	await Promise.reject('bad').catch(e => push('caught', e)).finally(() => push('finally'))
	push((await Promise.all([1, Promise.resolve(2), { then: (r: any) => r(3) }])).join())
	push((await Promise.allSettled([Promise.reject('r'), 1])).map((x: any) => x.status + (x.reason ?? x.value)).join())
	push(await Promise.race([new Promise(() => {}), Promise.resolve('fast')]))
	push(await Promise.any([Promise.reject(1), Promise.resolve('any')]))
	const { promise, resolve } = Promise.withResolvers<string>()
	resolve('with')
	push(await promise)
	return out
}
export async function promiseOrder() {
	const { out, push } = log()
	const a = async () => {
		push('a1')
		await b()
		push('a2')
	}
	const b = async () => {
		push('b1')
	}
	const c = async () => {
		push('c1')
		return Promise.resolve('c')
	}
	const all = [a(), c().then(push), Promise.resolve().then(() => push('t1')).then(() => push('t2')).then(() => push('t3')).then(() => push('t4'))]
	push('sync')
	await Promise.all(all)
	return out
}
export async function asyncErrors() {
	const { out, push } = log()
	const f = async (x: any) => {
		if (x === 'throw') throw new Error('f')
		return x
	}
	try {
		await f('throw')
	} catch (e: any) {
		push(e.message)
	}
	push(await f('throw').then(() => 'no', e => `rejected ${e.message}`))
	push(await f(1).then(() => { throw 'x' }).catch(e => e))
	push(await f(f(3)))
	await f('throw').finally(() => push('fin')).catch(() => push('still rejected'))
	push(await new Promise((_, rej) => { throw 'exec' }).catch(e => e))
	try {
		await Promise.all([f(1), f('throw'), Promise.reject('second')])
	} catch (e: any) {
		push(e.message)
	}
	const t = { then: (_r: any, rej: any) => rej('thenable') }
	push(await Promise.resolve(t).catch(e => e))
	push(await f('throw').then().catch(() => 'passed'))
	return out
}
export async function asyncIteration() {
	const { out, push } = log()
	async function* g() {
		yield 1
		try {
			yield 2
		} finally {
			push('cleanup')
		}
	}
	for await (const x of g()) {
		push(x)
		if (x === 2) break
	}
	for await (const x of [Promise.resolve('p'), 'q']) push(x)
	const r: any[] = []
	for (const f of [async () => 1, async () => 2]) r.push(await f())
	return [...out, ...r]
}
export function closuresMore() {
	const counter = (() => {
		let n = 0
		return { inc: () => ++n, get: () => n }
	})()
	counter.inc()
	counter.inc()
	const compose = (...fs: Array<(x: any) => any>) => (x: any) => fs.reduceRight((a, f) => f(a), x)
	const memo = (f: (x: number) => number) => {
		const m = new Map<number, number>()
		return (x: number) => (m.has(x) ? m.get(x)! : (m.set(x, f(x)), m.get(x)!))
	}
	let hits = 0
	const sq = memo(x => (hits++, x * x))
	sq(3)
	const curry = (a: number) => (b: number) => (c: number) => a + b + c
	return [counter.get(), compose((x: any) => x + 1, (x: any) => x * 2)(5), sq(3), hits, curry(1)(2)(3), (function () { return typeof this })(), ((...a: any[]) => a.length)(...[1, 2], 3)]
}
export function destructuringMore() {
	const src: any = { a: { b: [1, { c: 2 }] }, 'x-y': 3, n: null }
	const { a: { b: [p, { c: q, d = 'dd' }] }, 'x-y': xy, n = 'not', ['a']: dyn, ...rest } = src
	let s: any, t: any
	;({ s, t = 5 } = { s: 1 } as any)
	const swap: any = { k: 0 }
	;[swap.k, swap['l']] = [7, 8]
	const f = ({ a, b: { c } = { c: 9 } as any }: any = {}) => [a, c]
	for (const { length } of ['ab', 'c']) s += length
	const [[u] = [4], ...[v]] = [undefined, 6] as any
	return [p, q, d, xy, n, dyn === src.a, Object.keys(rest).length, s, t, swap.k, swap.l, ...f(), ...f({ a: 1, b: { c: 2 } }), u, v]
}
export function toPrimitive() {
	const o = { valueOf: () => 4, toString: () => 's' }
	const p = { [Symbol.toPrimitive]: (h: string) => h }
	return [`${o}`, +(o as any), (o as any) + 1, `${p}`, +(p as any) !== +(p as any), (p as any) + '', ({ s: 1 } as any)[o as any], [o].join(), o > (3 as any), ({} as any)[Symbol.toStringTag], Object.prototype.toString.call([]), Object.prototype.toString.call(null), Object.prototype.toString.call(() => 1)]
}
export function argumentsObject(): any {
	function f(): any {
		return [arguments.length, arguments[1], Array.prototype.slice.call(arguments, 1).join(), [...(arguments as any)].length, Array.from(arguments).join()]
	}
	return (f as any)(1, 2, 3)
}
export function typeTests() {
	const kinds: any[] = [undefined, null, true, 1, 'x', Symbol.iterator, () => 1, {}, [], 1n, class {}]
	return [...kinds.map(k => typeof k), kinds.filter(Array.isArray).length, kinds.filter(x => x == null).length, kinds.filter(x => x instanceof Object).length, kinds.filter(x => x instanceof Function).length, [] instanceof Array, typeof Object('s')]
}
export function timers() {
	return [typeof setTimeout, typeof clearTimeout, typeof globalThis, typeof queueMicrotask, globalThis.Array === Array, 'Array' in globalThis]
}
export function refusals() {
	const o: any = { a: 1, get g() { return 5 } }
	const frozen = Object.freeze({ x: 1 })
	const fixed: any = Object.defineProperty({ y: 1 }, 'k', { value: 2 })
	const other: any = {}
	let deleted = ''
	try {
		delete fixed.k
	} catch (e) {
		deleted = (e as Error).name
	}
	let redefined = ''
	try {
		Object.defineProperty(fixed, 'k', { value: 3 })
	} catch (e) {
		redefined = (e as Error).name
	}
	let inherited = ''
	try {
		Object.create(fixed).k = 9
	} catch (e) {
		inherited = (e as Error).name
	}
	class A {
		v = 0
		set s(x: number) {
			this.v = x
		}
	}
	const a = new A()
	const b = new A()
	return [
		Reflect.set(o, 'a', 2, other), o.a, other.a, Reflect.set(o, 'a', 2, 3), Reflect.set(o, 'a', 4), o.a, Reflect.set(o, 'g', 1), Reflect.set(frozen, 'x', 2), Reflect.set(frozen, 'z', 2), Reflect.set(fixed, 'k', 3),
		Reflect.deleteProperty(fixed, 'k'), Reflect.deleteProperty(fixed, 'y'), Reflect.deleteProperty(frozen, 'x'), Reflect.deleteProperty(frozen, 'none'), Reflect.set(a, 's', 7, b), a.v, b.v, deleted, redefined, inherited,
		Object.getOwnPropertyDescriptor(fixed, 'k')!.configurable, Reflect.defineProperty(frozen, 'q', { value: 1 })
	]
}
export function typeDispatch() {
	const kind = (x: unknown) => ({ function: 'f', object: 'o', string: 's', number: 'n', undefined: 'u', boolean: 'b', symbol: 'y', bigint: 'i' })[typeof x]
	const is = (x: unknown) => ['function', 'object'].includes(typeof x)
	const text = (x: unknown) => /^(fun|obj)/.test(typeof x) || `${typeof x}!`.startsWith('str')
	return [kind(1), kind(''), kind(() => {}), kind(null), kind({}), is(1), is({}), is(is), text(1), text(''), text({})]
}
