// Every exported case returns [a, b, ...]: computed by the analyser and by the engine; must agree.
export function closures() {
	const fs: Array<() => number> = []
	for (let i = 0; i < 3; i++) fs.push(() => i * 2)
	return fs.map(f => f())
}
export function destructuring() {
	const { a, b = 3, ...rest } = { a: 1, c: 4, d: 5 } as any
	const [x, , y = 9, ...z] = [1, 2, undefined, 4, 5]
	return [a, b, rest.c, rest.d, 'a' in rest, x, y, z.length, z[1]]
}
export function classes() {
	class A {
		static n = 2
		v = 1
		get w() {
			return this.v + A.n
		}
		m() {
			return 'A'
		}
	}
	class B extends A {
		override v = 5
		override m() {
			return `B${super.m()}`
		}
	}
	const b = new B()
	return [b.v, b.w, b.m(), b instanceof A, Object.keys(b).length]
}
export function arrays() {
	const a = [3, 1, 2]
	const r = a.reduce((p, c) => p + c, 0)
	a.splice(1, 1)
	return [r, a.length, a[1], a.indexOf(2), a.includes(3), [...a, 7].slice(-1)[0], a.find(x => x > 2), a.some(x => x === 2), a.every(x => x === 2), a.concat([8]).length]
}
export function strings() {
	const s = 'a.b.c'
	return [s.indexOf('.'), s.slice(2), s.split('.').length, s.replace(/\./g, '-'), s.startsWith('a.'), s.length, `${s}!`, s.charAt(1), s.substring(1, 3)]
}
export function control() {
	const out: any[] = []
	outer: for (const i of [1, 2, 3]) {
		for (const j of [1, 2]) {
			if (j === 2) continue outer
			if (i === 3) break outer
			out.push(i * 10 + j)
		}
	}
	try {
		try {
			throw new TypeError('x')
		} finally {
			out.push('finally')
		}
	} catch (e: any) {
		out.push(e.message, e instanceof TypeError, e instanceof Error)
	}
	let n = 0
	do n++
	while (n < 4)
	switch (n as number) {
		case 1:
			out.push('one')
		case 4:
			out.push('four')
		default:
			out.push('default')
	}
	return [...out, n]
}
export async function promises() {
	const log: any[] = []
	const p = Promise.resolve(1).then(v => {
		log.push(`then ${v}`)
		throw new Error('bad')
	})
	log.push('sync')
	try {
		await p
	} catch (e: any) {
		log.push(e.message)
	}
	const all = await Promise.all([1, Promise.resolve(2)])
	log.push(...all)
	return log
}
export function objects() {
	const o: any = Object.create(null)
	o.x = 1
	const q = Object.freeze({ k: 1 })
	let threw = false
	try {
		;(q as any).k = 2
	} catch {
		threw = true
	}
	delete o.x
	return ['x' in o, Object.hasOwn({ y: 1 }, 'y'), threw, Object.isFrozen(q), Object.entries({ a: 1, b: 2 }).length, { ...q, z: 1 }.k, o.toString, ('toString' in ({} as any))]
}
export function values() {
	return [Object.is(NaN, NaN), Object.is(0, -0), null ?? 1, 0 ?? 1, 0 || 2, typeof null, typeof undefined, typeof (() => 1), void 0, !!'' , '' + 1, 1 < 2, '2' > '12']
}
export function collections() {
	const m = new Map<string, number>([['a', 1]])
	m.set('b', 2).delete('a')
	const s = new Set([1, 1, 2])
	return [m.size, m.get('b'), m.has('a'), [...m.keys()][0], s.size, [...s].length]
}
export function json() {
	return [JSON.stringify({ a: [1, 'x', null], b: undefined }), JSON.parse('{"a":{"b":2}}').a.b, JSON.stringify('q')]
}
