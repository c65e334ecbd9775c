import { M } from '../core.mjs'
import { NONFN, PKG, gizmo, incubateApp, mkContainer } from './kit.mjs'

const ALL = ['createState', 'createStore', 'createRegistry', 'app.createState', 'app.createStore', 'app.createRegistry']
const LIB = ['createState', 'createStore', 'createRegistry']
const isReg = k => k.endsWith('createRegistry')

function* appEnv(I) {
	const g = yield* I.imp(PKG('states'), 'statesGizmo')
	return { app: yield* incubateApp(I, [g]) }
}
/** theorem over every container kind */
function over(kinds, name, body, o = {}) {
	return kinds.map(kind => ({
		name: `${name} [${kind}]`,
		logOn: 'always',
		...o,
		stages: [
			function* (I) {
				return kind.startsWith('app.') ? yield* appEnv(I) : {}
			},
			function* (I, env) {
				yield* body(I, kind, env)
			}
		]
	}))
}
const valMask = kind => (isReg(kind) ? M.OBJ : NONFN)
/** for long histories: one kind of value only */
const oneMask = kind => (isReg(kind) ? M.OBJ : M.STR)
/** n handlers, subscribed in order */
function* subscribe(I, c, n, impl) {
	const hs = []
	for (let i = 0; i < n; i++) {
		const h = I.fn(`handler${i + 1}`, impl?.(i) ?? function* () {})
		const off = yield* c.onChange(h)
		hs.push({ h, off, i })
	}
	return hs
}
function checkPublished(I, mark, hs, next, prev, what) {
	const calls = I.calls(mark, hs.map(x => x.h))
	if (!I.listEq(calls.map(c => c.fn), hs.map(x => x.h), `${what}: every subscribed handler runs exactly once, in subscription order`)) return
	for (const c of calls) {
		I.eq(c.args[0], next, `${what}: a handler receives the new value`)
		I.eq(c.args[1], prev, `${what}: a handler receives the previous value`)
	}
}
function* current(I, c, v, what) {
	if (c.hasGet) I.eq(yield* c.get(), v, `${what}: the current value`)
}
/** one update of an unknown kind; gives { next, ret } after completion */
export function* update(I, c, cur, tag, mask, kinds = ['value', 'updater', 'async updater']) {
	const next = I.fresh(`new value ${tag}`, mask)
	const kind = I.pick(kinds, `update ${tag}`)
	if (kind === 'value') {
		const ret = yield* c.set(next)
		return { next, ret, kind }
	}
	if (kind === 'updater') {
		I.assumeMask(next, M.ALL & ~M.UND)
		const nothing = yield* I.imp(PKG('states'), 'nothing')
		I.assumeNe(next, nothing)
		const f = I.fn(`updater ${tag}`, function* () {
			return next
		})
		const ret = yield* c.set(f)
		return { next, ret, kind, f }
	}
	I.assumeMask(next, M.ALL & ~M.UND)
	const nothing = yield* I.imp(PKG('states'), 'nothing')
	I.assumeNe(next, nothing)
	const d = I.deferred()
	const f = I.fn(`async updater ${tag}`, function* () {
		return d
	})
	const m0 = I.mark()
	const p = yield* c.set(f)
	yield* I.drain()
	const early = I.since(m0, e => e.t === 'call' && e.name?.startsWith('handler'))
	I.ok(early.length === 0, `${tag}: nothing is published before the asynchronous updater settles`, `${early.length} handler calls`)
	yield* I.fulfill(d, next)
	const r = yield* I.settle(p)
	if (!I.ok(r.state === 'fulfilled', `${tag}: the returned promise resolves`, `it is ${r.state}`)) I.stop()
	return { next, ret: r.value, kind, f }
}

export const S01 = {
	theorems: [
		...over(ALL, 'an effective update is published', function* (I, kind, env) {
			const mask = valMask(kind)
			const v0 = I.val('initial value', mask)
			const c = yield* mkContainer(I, kind, v0, env)
			if (c.hasGet) I.eq(yield* c.get(), v0, 'the current value is the initial value')
			else I.eq(c.initial, v0, 'the tuple starts with the initial value')
			const hs = yield* subscribe(I, c, 2)
			let cur = v0
			for (const tag of ['1', '2']) {
				const m = I.mark()
				const u = yield* update(I, c, cur, tag, mask, kind.startsWith('app.') ? ['value', 'updater'] : undefined)
				if (u.kind === 'value' && I.eq3(u.next, cur) === true) {
					cur = u.next
					continue
				}
				I.eq(u.ret, u.next, `update ${tag}: set() gives the new value`)
				checkPublished(I, m, hs, u.next, cur, `update ${tag}`)
				cur = u.next
				yield* current(I, c, cur, `update ${tag}`)
			}
		}),
		...over(LIB, 'handlers subscribed in between are served from then on', function* (I, kind, env) {
			const mask = valMask(kind)
			const v0 = I.atom('v0', mask)
			const c = yield* mkContainer(I, kind, v0, env)
			const hs = []
			let cur = v0
			for (let i = 0; i < 3; i++) {
				const h = I.fn(`handler${i}`, function* () {})
				yield* c.onChange(h)
				hs.push({ h })
				const next = I.atom(`v${i + 1}`, mask)
				const m = I.mark()
				const ret = yield* c.set(next)
				I.eq(ret, next, 'set() gives the new value')
				checkPublished(I, m, hs, next, cur, `update ${i + 1}`)
				cur = next
				yield* current(I, c, cur, `update ${i + 1}`)
			}
		}),
		...over(LIB, 'the value is current by the time handlers run', function* (I, kind, env) {
			const mask = valMask(kind) & ~M.UND
			const v0 = I.atom('v0', mask)
			const v1 = I.atom('v1', mask)
			const c = yield* mkContainer(I, kind, v0, env)
			if (!c.hasGet) {
				I.ok(true, 'no getter')
				return
			}
			const seen = []
			for (const i of [1, 2])
				yield* c.onChange(
					I.fn(`handler ${i}`, function* (args) {
						seen.push([args[0], yield* c.get()])
					})
				)
			const expect = (v, what) => {
				I.ok(seen.length === 2, `${what}: both handlers run`, `${seen.length} ran`)
				for (const [got, now] of seen.splice(0)) {
					I.eq(got, v, `${what}: a handler receives the new value`)
					I.eq(now, v, `${what}: a handler that reads the container sees the new value`)
				}
			}
			const how = I.pick(['value', 'updater', 'async updater'], 'update')
			if (how === 'value') yield* c.set(v1)
			else {
				const d = how === 'updater' ? null : I.deferred()
				const p = yield* c.set(I.fn('updater', function* () {
					return d ?? v1
				}))
				if (d) {
					I.eq(yield* c.get(), v0, 'an asynchronous update changes nothing before it completes')
					yield* I.fulfill(d, v1)
					yield* I.await(p)
				}
			}
			expect(v1, how)
			yield* c.reset()
			expect(v0, 'reset()')
		}),
		...over(LIB, 'any number of handlers and updates', function* (I, kind, env) {
			const mask = oneMask(kind)
			let cur = I.atom('v0', mask)
			const c = yield* mkContainer(I, kind, cur, env)
			const hs = yield* subscribe(I, c, 12)
			for (let i = 1; i <= 12; i++) {
				const next = I.atom(`v${i}`, mask)
				const m = I.mark()
				if (i % 2) yield* c.set(next)
				else
					yield* c.set(
						I.fn(`updater ${i}`, function* () {
							return next
						})
					)
				checkPublished(I, m, hs, next, cur, `update ${i}`)
				cur = next
				yield* current(I, c, cur, `update ${i}`)
			}
		}),
		...over(LIB, 'overlapping updates are each published, with the value they replace', function* (I, kind, env) {
			const mask = oneMask(kind)
			let cur = I.atom('v0', mask)
			const c = yield* mkContainer(I, kind, cur, env)
			const hs = yield* subscribe(I, c, 1)
			const pending = []
			for (let i = 1; i <= 4; i++) {
				const what = I.pick(['start an asynchronous update', 'set', 'subscribe', 'complete the oldest', 'complete the newest'], `step ${i}`)
				const v = I.atom(`v${i}`, mask)
				const m = I.mark()
				if (what.startsWith('start')) {
					const d = I.deferred()
					const p = yield* c.set(I.fn(`async updater ${i}`, function* () {
						return d
					}))
					pending.push({ d, p, v })
					I.ok(I.calls(m, hs.map(x => x.h)).length === 0, 'nothing is published before an asynchronous update completes', '')
				} else if (what === 'subscribe') {
					hs.push({ h: I.fn(`late handler ${i}`, function* () {}) })
					yield* c.onChange(hs.at(-1).h)
					I.ok(I.calls(m).filter(x => hs.some(y => y.h === x.fn)).length === 0, 'subscribing publishes nothing', '')
				} else if (what === 'set') {
					yield* c.set(v)
					checkPublished(I, m, hs, v, cur, 'a change while asynchronous updates are pending')
					cur = v
				} else {
					if (!pending.length) I.dead()
					const x = what.endsWith('oldest') ? pending.shift() : pending.pop()
					yield* I.fulfill(x.d, x.v)
					I.eq(yield* I.await(x.p), x.v, 'an asynchronous update gives its value')
					checkPublished(I, m, hs, x.v, cur, 'an asynchronous update that completes')
					cur = x.v
				}
				yield* current(I, c, cur, 'after each step')
			}
		}),
		...over(LIB, 'a handler may change the container or subscribe', function* (I, kind, env) {
			const mask = oneMask(kind)
			const [v0, v1, v2] = ['v0', 'v1', 'v2'].map(n => I.atom(n, mask))
			const c = yield* mkContainer(I, kind, v0, env)
			const what = I.pick(['changes the container', 'subscribes another'], 'a handler')
			const who = Number(I.pick(['0', '1', '2'], 'which handler'))
			const late = I.fn('late handler', function* () {})
			const hs = yield* subscribe(I, c, 3, i =>
				function* (args) {
					if (i !== who || I.eq3(args[0], v1) !== true) return
					if (what === 'changes the container') yield* c.set(v2)
					else yield* c.onChange(late)
				})
			const m = I.mark()
			yield* c.set(v1)
			if (what === 'changes the container') {
				for (const { h } of hs) {
					const cs = I.calls(m, h)
					for (const [now, old] of [[v1, v0], [v2, v1]]) I.ok(cs.filter(x => I.eq3(x.args[0], now) === true && I.eq3(x.args[1], old) === true).length === 1, 'each change reaches each handler once, with the new and the previous value', `${cs.length} calls`)
					I.ok(cs.length === 2, 'and nothing else does', `${cs.length} calls`)
				}
				yield* current(I, c, v2, 'after both changes')
			} else {
				checkPublished(I, m, hs, v1, v0, 'the change')
				const m2 = I.mark()
				yield* c.set(v2)
				checkPublished(I, m2, [...hs, { h: late }], v2, v1, 'the next change')
			}
		}),
		...over(LIB, 'a change nobody watched is part of the history of the next', function* (I, kind, env) {
			const mask = valMask(kind)
			const v0 = I.atom('v0', mask)
			let cur = v0
			const c = yield* mkContainer(I, kind, v0, env)
			const early = I.fn('early handler', function* () {})
			if (I.pick(['nobody', 'a handler that left'], 'subscribed before') !== 'nobody') yield* I.call(yield* c.onChange(early))
			for (let i = 1; i <= 3; i++) {
				const what = I.pick(['set', 'set back', 'update', 'reset', 'nothing'], `step ${i}`)
				if (what === 'nothing') break
				const next = what === 'set' || what === 'update' ? I.atom(`v${i}`, mask & ~M.UND) : v0
				if (what === 'reset') yield* c.reset()
				else if (what === 'update') yield* c.set(I.fn('updater', function* () {
					return next
				}))
				else yield* c.set(next)
				cur = next
				yield* current(I, c, cur, 'unwatched')
			}
			const hs = yield* subscribe(I, c, 1)
			const last = I.atom('last', mask)
			const m = I.mark()
			yield* c.set(last)
			checkPublished(I, m, hs, last, cur, 'the first change that is watched')
			I.ok(I.calls(m, early).length === 0, 'a handler that left is not notified', '')
		}),
		...over(LIB, 'a great many handlers', function* (I, kind, env) {
			const mask = oneMask(kind)
			let cur = I.atom('v0', mask)
			const c = yield* mkContainer(I, kind, cur, env)
			const hs = yield* subscribe(I, c, I.deep ? 300 : 120)
			for (const i of [1, 2]) {
				const next = I.atom(`v${i}`, mask)
				const m = I.mark()
				yield* c.set(next)
				checkPublished(I, m, hs, next, cur, `update ${i}`)
				cur = next
				for (const x of hs.splice(10 * i, 3)) yield* I.call(x.off)
			}
		}),
		...over(LIB, 'a handler subscribed twice is notified once', function* (I, kind, env) {
			const mask = valMask(kind)
			const v0 = I.atom('v0', mask)
			const v1 = I.atom('v1', mask)
			const c = yield* mkContainer(I, kind, v0, env)
			const h = I.fn('handler', function* () {})
			yield* c.onChange(h)
			yield* c.onChange(h)
			const m = I.mark()
			yield* c.set(v1)
			I.ok(I.calls(m, h).length === 1, 'one notification', `got ${I.calls(m, h).length}`)
		}),
		...over(LIB, 'handlers that look alike are handlers of their own', function* (I, kind, env) {
			const mask = oneMask(kind)
			const [v0, v1, v2] = ['v0', 'v1', 'v2'].map(n => I.atom(n, mask))
			const c = yield* mkContainer(I, kind, v0, env)
			const hs = []
			for (let i = 0; i < 3; i++) {
				const h = I.fn('handler', function* () {})
				hs.push({ h, off: yield* c.onChange(h) })
			}
			const m = I.mark()
			yield* c.set(v1)
			checkPublished(I, m, hs, v1, v0, 'an update')
			const [gone] = hs.splice(Number(I.pick(['0', '1', '2'], 'unsubscribed')), 1)
			yield* I.call(gone.off)
			const m2 = I.mark()
			yield* c.set(v2)
			checkPublished(I, m2, hs, v2, v1, 'an update after one unsubscribed')
			I.ok(I.calls(m2, gone.h).length === 0, 'the one unsubscribed is not notified', '')
		}),
		...over(LIB, 'a handler that unsubscribes itself does not silence the others', function* (I, kind, env) {
			const mask = valMask(kind)
			const v0 = I.atom('v0', mask)
			const v1 = I.atom('v1', mask)
			const c = yield* mkContainer(I, kind, v0, env)
			const who = Number(I.pick(['0', '1', '2'], 'the handler that unsubscribes itself'))
			const hs = []
			for (let i = 0; i < 3; i++) {
				const rec = { i }
				rec.h = I.fn(`handler${i + 1}`, function* () {
					if (i === who) yield* I.call(rec.off)
				})
				rec.off = yield* c.onChange(rec.h)
				hs.push(rec)
			}
			const m = I.mark()
			yield* c.set(v1)
			checkPublished(I, m, hs, v1, v0, 'update')
		}),
		...over(LIB, 'separate containers are independent', function* (I, kind, env) {
			const mask = valMask(kind)
			const [a0, a1] = ['a0', 'a1'].map(n => I.atom(n, mask))
			const b0 = I.pick(['the same initial value', 'its own initial value'], 'the other container has').startsWith('the same') ? a0 : I.atom('b0', mask)
			const a = yield* mkContainer(I, kind, a0, env)
			const b = yield* mkContainer(I, kind, b0, env)
			const ha = I.fn('handlerA', function* () {})
			const hb = I.fn('handlerB', function* () {})
			yield* a.onChange(ha)
			yield* b.onChange(hb)
			const m = I.mark()
			yield* a.set(a1)
			I.ok(I.calls(m, ha).length === 1, 'the updated container notifies', '')
			I.ok(I.calls(m, hb).length === 0, 'the other container stays silent', '')
			if (b.hasGet) I.eq(yield* b.get(), b0, 'the other container keeps its value')
		}),
		...over(['createState', 'createStore', 'app.createState', 'app.createStore'], 'a container of functions stores what it is given, it runs nothing', function* (I, kind, env) {
			const fs = [0, 1, 2, 3].map(i => I.fn(`f${i}`))
			const c = yield* mkContainer(I, kind, fs[0], env)
			const hs = yield* subscribe(I, c, 1)
			let cur = fs[0]
			for (let i = 1; i <= (I.deep ? 4 : 3); i++) {
				const what = I.pick(['a function', 'undefined', 'an object', 'the first function', 'reset'], `update ${i}`)
				const next = { 'a function': fs[i % 4], undefined: undefined, 'an object': I.atom(`object ${i}`, M.OBJ), 'the first function': fs[0], reset: fs[0] }[what]
				const m = I.mark()
				if (what === 'reset') yield* c.reset()
				else I.eq(yield* c.set(next), next, 'set() gives the value back')
				I.ok(I.calls(m, fs).length === 0, 'a state that holds functions does not run the function it is given', '')
				if (I.eq3(next, cur) === true) I.ok(I.calls(m, hs[0].h).length === 0, 'no notification without a change', '')
				else checkPublished(I, m, hs, next, cur, 'update')
				cur = next
				yield* current(I, c, cur, 'update')
			}
		})
	]
}

export const S02 = {
	theorems: [
		...over(ALL, 'setting the current value is silent', function* (I, kind, env) {
			const mask = valMask(kind)
			const v0 = I.val('initial value', mask)
			const c = yield* mkContainer(I, kind, v0, env)
			const hs = yield* subscribe(I, c, 2)
			let cur = v0
			const before = I.pick(['no earlier update', 'an earlier update', 'an earlier updater', 'an earlier asynchronous updater', 'a reset', 'the same before'], 'history')
			if (before === 'the same before') yield* c.set(cur)
			else if (before !== 'no earlier update') {
				const u = yield* update(I, c, cur, '1', mask, [before === 'an earlier updater' ? 'updater' : before === 'an earlier asynchronous updater' ? 'async updater' : 'value'])
				cur = u.next
			}
			if (before === 'a reset') {
				yield* c.reset()
				cur = v0
			}
			const m = I.mark()
			const ret = yield* c.set(cur)
			I.eq(ret, cur, 'set() gives the value back')
			I.ok(I.calls(m, hs.map(x => x.h)).length === 0, 'no handler runs when the value is the current one (Object.is)', 'a handler ran')
			yield* current(I, c, cur, 'after')
		}),
		...over(['createState', 'createStore'], 'NaN is the same value as NaN', function* (I, kind, env) {
			const from = I.pick(['initially', 'set'], 'NaN')
			const c = yield* mkContainer(I, kind, from === 'set' ? 1 : NaN, env)
			const hs = yield* subscribe(I, c, 1)
			if (from === 'set') yield* c.set(NaN)
			const m = I.mark()
			yield* c.set(NaN)
			I.ok(I.calls(m, hs[0].h).length === 0, 'no handler runs', 'a handler ran')
		}),
		...over(['createState', 'createStore'], 'zero and minus zero are different values', function* (I, kind, env) {
			const [a, b] = I.pick(['0 then -0', '-0 then 0'], 'values') === '0 then -0' ? [0, -0] : [-0, 0]
			const c = yield* mkContainer(I, kind, a, env)
			const hs = yield* subscribe(I, c, 1)
			const m = I.mark()
			const r = yield* c.set(b)
			I.eq(r, b, 'set() gives the value back')
			checkPublished(I, m, hs, b, a, 'update')
			yield* current(I, c, b, 'update')
		})
	]
}

export const S03 = {
	theorems: [
		...over(LIB, 'unsubscribing removes exactly that subscription', function* (I, kind, env) {
			const mask = valMask(kind)
			const v0 = I.atom('v0', mask)
			const c = yield* mkContainer(I, kind, v0, env)
			const hs = yield* subscribe(I, c, 3)
			const live = new Set(hs)
			const ops = I.deep ? 4 : 3
			for (let k = 0; k < ops; k++) {
				const w = Number(I.pick(['0', '1', '2'], 'which subscription is cancelled (possibly again)'))
				yield* I.call(hs[w].off)
				live.delete(hs[w])
				if (k === ops - 1 || I.pick(['no update', 'update'], 'between') === 'update') {
					const v = I.atom(`v${k + 1}`, mask)
					const m = I.mark()
					yield* c.set(v)
					I.listEq(I.calls(m, hs.map(x => x.h)).map(x => x.fn), hs.filter(x => live.has(x)).map(x => x.h), 'exactly the subscriptions not cancelled are notified, in order')
				}
			}
		}),
		...over(LIB, 'unsubscribing one of several handlers that look alike', function* (I, kind, env) {
			const mask = oneMask(kind)
			const c = yield* mkContainer(I, kind, I.atom('v0', mask), env)
			const hs = []
			for (let i = 0; i < 3; i++) {
				const h = I.fn('handler', function* () {})
				hs.push({ h, off: yield* c.onChange(h) })
			}
			const live = new Set(hs)
			for (let k = 1; k <= 2; k++) {
				const x = hs[Number(I.pick(['0', '1', '2'], `cancelled ${k}`))]
				yield* I.call(x.off)
				live.delete(x)
				const m = I.mark()
				yield* c.set(I.atom(`v${k}`, mask))
				I.listEq(I.calls(m, hs.map(x => x.h)).map(x => x.fn), hs.filter(x => live.has(x)).map(x => x.h), 'exactly the subscriptions not cancelled are notified, in order')
			}
		}),
		...over(LIB, 'a cancelled handler can subscribe again', function* (I, kind, env) {
			const mask = valMask(kind)
			const c = yield* mkContainer(I, kind, I.atom('v0', mask), env)
			const hs = yield* subscribe(I, c, 2)
			yield* I.call(hs[0].off)
			const off2 = yield* c.onChange(hs[0].h)
			let m = I.mark()
			yield* c.set(I.atom('v1', mask))
			I.listEq(I.calls(m, hs.map(x => x.h)).map(x => x.fn), [hs[1].h, hs[0].h], 'it is notified once, after the others')
			if (I.pick(['yes', 'no'], 'the handle of the cancelled subscription is called again') === 'yes') {
				yield* I.call(hs[0].off)
				m = I.mark()
				yield* c.set(I.atom('v1b', mask))
				I.listEq(I.calls(m, hs.map(x => x.h)).map(x => x.fn), [hs[1].h, hs[0].h], 'the handle of a cancelled subscription does not end a later one')
			}
			yield* I.call(off2)
			m = I.mark()
			yield* c.set(I.atom('v2', mask))
			I.listEq(I.calls(m, hs.map(x => x.h)).map(x => x.fn), [hs[1].h], 'its new unsubscriber works')
		}),
		...over(LIB, 'subscribing the same handler again gives no power over the others', function* (I, kind, env) {
			const mask = valMask(kind)
			const c = yield* mkContainer(I, kind, I.atom('v0', mask), env)
			const hs = yield* subscribe(I, c, 2)
			const w = Number(I.pick(['0', '1'], 'the handler subscribed again'))
			const again = yield* c.onChange(hs[w].h)
			const h = I.fn('handler3', function* () {})
			if (I.pick(['yes', 'no'], 'another subscription follows') === 'yes') {
				yield* c.onChange(h)
				hs.push({ h })
			}
			let own = true
			for (let k = 0; k < 3; k++) {
				const what = I.pick(['the second handle', 'the first handle', 'nothing'], 'called')
				if (what === 'nothing') break
				if (what === 'the first handle') own = false
				yield* I.call(what === 'the first handle' ? hs[w].off : again)
			}
			const m = I.mark()
			yield* c.set(I.atom('v1', mask))
			const served = I.calls(m, hs.map(x => x.h)).map(x => x.fn)
			I.listEq(served.filter(f => f !== hs[w].h), hs.map(x => x.h).filter(f => f !== hs[w].h), 'every other handler is notified once, in order')
			if (!own) I.ok(!served.includes(hs[w].h), 'the handler unsubscribed is not notified', 'it is')
		}),
		...over(LIB, 'a subscription cancelled while an asynchronous update is pending is not served', function* (I, kind, env) {
			const mask = valMask(kind) & ~M.UND
			const c = yield* mkContainer(I, kind, I.atom('v0', mask), env)
			const hs = yield* subscribe(I, c, 2)
			const d = I.deferred()
			const p = yield* c.set(I.fn('async updater', function* () {
				return d
			}))
			const w = Number(I.pick(['0', '1'], 'cancelled'))
			yield* I.call(hs[w].off)
			const m = I.mark()
			yield* I.fulfill(d, I.atom('v1', mask))
			yield* I.await(p)
			I.listEq(I.calls(m, hs.map(x => x.h)).map(x => x.fn), [hs[1 - w].h], 'only the other handler is notified')
		}),
		...over(['createStore', 'createRegistry'], 'cancelling does not detach the container from its own value', function* (I, kind, env) {
			const mask = valMask(kind)
			const c = yield* mkContainer(I, kind, I.atom('v0', mask), env)
			const hs = yield* subscribe(I, c, 2)
			for (let k = 0; k < 3; k++) yield* I.call(hs[Number(I.pick(['0', '1'], 'cancelled'))].off)
			const v = I.atom('v1', mask)
			yield* c.set(v)
			I.eq(yield* c.get(), v, 'get() gives the value just set')
		})
	]
}

export const S04 = {
	theorems: [
		...over(LIB, 'however often updaters fail, and however they do', function* (I, kind, env) {
			const mask = oneMask(kind)
			const err = I.atom('error')
			let cur = I.atom('v0', mask)
			const c = yield* mkContainer(I, kind, cur, env)
			const hs = yield* subscribe(I, c, 1)
			const how = I.pick(['throwing', 'rejected at once', 'rejected later', 'in turns'], 'updaters fail by')
			const at = I.pick(['each on its own', 'all pending'], 'rejected')
			const pending = []
			const refused = function* (p, d) {
				yield* I.reject(d, err)
				const r = yield* I.settle(p)
				if (I.ok(r.state === 'rejected', 'the returned promise rejects', `it is ${r.state}`)) I.eq(r.value, err, 'with the error of the updater')
			}
			const m = I.mark()
			for (let i = 0; i < 12; i++) {
				const way = how === 'in turns' ? ['throwing', 'rejected at once', 'rejected later'][i % 3] : how
				if (way === 'throwing') {
					const r = yield* I.attempt(c.set(I.fn('updater', function* () {
						yield* I.throw(err)
					})))
					if (I.ok(r.threw, 'set() throws when the updater throws', '')) I.eq(r.value, err, 'the error is the one the updater threw')
					continue
				}
				const d = I.deferred()
				if (way === 'rejected at once') yield* I.reject(d, err)
				const p = yield* c.set(I.fn('async updater', function* () {
					return d
				}))
				if (way === 'rejected at once' || at === 'each on its own') yield* refused(p, d)
				else pending.push([p, d])
			}
			for (const [p, d] of pending) yield* refused(p, d)
			I.ok(I.calls(m, hs[0].h).length === 0, 'no handler runs', 'a handler ran')
			yield* current(I, c, cur, 'after the failures')
			for (const i of [1, 2]) {
				const m2 = I.mark()
				const u = yield* update(I, c, cur, `later ${i}`, mask)
				if (I.eq3(u.next, cur) === true) I.dead()
				checkPublished(I, m2, hs, u.next, cur, 'a later update')
				yield* current(I, c, u.next, 'a later update')
				cur = u.next
			}
			const m3 = I.mark()
			yield* c.reset()
			if (I.eq3(cur, I.atom('v0', mask)) !== true) I.ok(I.calls(m3, hs[0].h).length === 1, 'the container can be reset afterwards', '')
		}),
		...over(LIB, 'a throwing updater leaves the state as it was', function* (I, kind, env) {
			const mask = valMask(kind)
			const v0 = I.val('initial value', mask)
			const err = I.atom('error')
			const c = yield* mkContainer(I, kind, v0, env)
			const hs = yield* subscribe(I, c, I.choose(['none', 'one'], 'subscribers'))
			let cur = v0
			if (I.pick(['first', 'after an update'], 'history') !== 'first') cur = (yield* update(I, c, cur, '0', mask, ['value'])).next
			const f = I.fn('updater', function* (args) {
				if (I.pick(['edits its draft first', 'throws at once'], 'updater') === 'edits its draft first') {
					if (I.isMask(args[0], M.OBJ)) yield* I.set(args[0], 'p', 1)
				}
				yield* I.throw(err)
			})
			const m = I.mark()
			const r = yield* I.attempt(c.set(f))
			if (I.ok(r.threw, 'set() throws when the updater throws', `it gave ${I.show(r.value)}`)) I.eq(r.value, err, 'the error is the one the updater threw')
			I.ok(I.calls(m, hs.map(x => x.h)).length === 0, 'no handler runs', 'a handler ran')
			yield* current(I, c, cur, 'after the failure')
			const m2 = I.mark()
			const u = yield* update(I, c, cur, 'later', mask, ['value'])
			if (I.eq3(u.next, cur) !== true) {
				checkPublished(I, m2, hs, u.next, cur, 'a later update')
				yield* current(I, c, u.next, 'a later update')
			}
		}),
		...over(LIB, 'a rejected updater leaves the state as it was', function* (I, kind, env) {
			const mask = valMask(kind)
			const v0 = I.val('initial value', mask)
			const err = I.atom('error')
			const c = yield* mkContainer(I, kind, v0, env)
			const hs = yield* subscribe(I, c, I.choose(['none', 'one'], 'subscribers'))
			const d = I.deferred()
			const f = I.fn('async updater', function* (args) {
				if (I.pick(['edits its draft first', 'does not'], 'updater') === 'edits its draft first') {
					if (I.isMask(args[0], M.OBJ)) yield* I.set(args[0], 'p', 1)
				}
				return d
			})
			const p = yield* c.set(f)
			let cur = v0
			if (I.pick(['no other update', 'another update'], 'meanwhile') === 'another update') {
				cur = I.atom('set meanwhile', mask)
				yield* c.set(cur)
			}
			const m = I.mark()
			yield* I.reject(d, err)
			const r = yield* I.settle(p)
			if (I.ok(r.state === 'rejected', 'the returned promise rejects', `it is ${r.state}`)) I.eq(r.value, err, 'with the error of the updater')
			I.ok(I.calls(m, hs.map(x => x.h)).length === 0, 'no handler runs', 'a handler ran')
			yield* current(I, c, cur, 'after the failure')
			const m2 = I.mark()
			const u = yield* update(I, c, cur, 'later', mask, ['value'])
			if (I.eq3(u.next, cur) !== true) {
				checkPublished(I, m2, hs, u.next, cur, 'a later update')
				yield* current(I, c, u.next, 'a later update')
			}
		})
	]
}

export const S05 = {
	theorems: [
		...over(ALL, 'published objects are frozen', function* (I, kind, env) {
			const a = I.atom('a')
			const o0 = I.obj({ p: a })
			const c = yield* mkContainer(I, kind, o0, env)
			I.ok(I.rd(o0).frozen === true, 'the initial value is frozen', 'it can still be changed behind the handlers')
			const got = []
			const h = I.fn('handler', function* (args) {
				got.push(args[0])
			})
			yield* c.onChange(h)
			const how = I.pick(['value', 'updater returning', 'updater editing', 'async updater returning', 'async updater editing'], 'update')
			const o1 = I.obj({ p: I.atom('b') })
			let ret
			if (how === 'value') ret = yield* c.set(o1)
			else {
				const d = how.startsWith('async') ? I.deferred() : null
				const f = I.fn('updater', function* (args) {
					if (how.endsWith('editing')) yield* I.set(args[0], 'p', I.atom('b'))
					const r = how.endsWith('editing') ? undefined : o1
					if (!d) return r
					yield* I.fulfill(d, r)
					return d
				})
				ret = yield* c.set(f)
				if (d) ret = yield* I.await(ret)
			}
			if (!I.ok(got.length === 1, 'the update is published', '')) return
			for (const [v, what] of [[got[0], 'the value handed to handlers'], [ret, 'the value set() gives'], ...(c.hasGet ? [[yield* c.get(), 'the current value']] : [])]) {
				const x = I.resolve(v)
				if (!I.ok(I.isRef(x), `${what} is the object`, `got ${I.show(x)}`)) continue
				I.ok(I.rd(x).frozen === true, `${what} is frozen`, 'it can still be changed behind the handlers')
				I.eq(yield* I.get(x, 'p'), I.atom('b'), `${what} has the new content`)
			}
			I.eq(yield* I.get(o0, 'p'), a, 'the previous value keeps its content')
		}),
		...over(LIB, 'an updater edits a draft, never the published value', function* (I, kind, env) {
			const inner = I.obj({ q: I.atom('q0') })
			const o0 = I.obj({ p: I.atom('p0'), n: inner })
			const c = yield* mkContainer(I, kind, o0, env)
			const hs = yield* subscribe(I, c, 1)
			const m = I.mark()
			const f = I.fn('updater', function* (args) {
				I.ne(args[0], o0, 'the updater gets a draft')
				yield* I.set(yield* I.get(args[0], 'n'), 'q', I.atom('q1'))
				yield* I.set(args[0], 'x', I.atom('x1'))
			})
			const ret = yield* c.set(f)
			I.ne(ret, o0, 'a changed value is a new object')
			I.eq(yield* I.get(ret, 'n', 'q'), I.atom('q1'), 'nested edits are in the new value')
			I.eq(yield* I.get(ret, 'x'), I.atom('x1'), 'added keys are in the new value')
			I.eq(yield* I.get(ret, 'p'), I.atom('p0'), 'untouched keys carry over')
			I.eq(yield* I.get(inner, 'q'), I.atom('q0'), 'the previous value keeps its nested content')
			I.ok(!(yield* I.hasOwn(o0, 'x')), 'the previous value gains no key', 'it did')
			I.ok(I.rd(yield* I.get(ret, 'n')).frozen === true, 'what the new value holds is frozen', '')
			checkPublished(I, m, hs, ret, o0, 'update')
		}),
		...over(['createState', 'createStore', 'app.createState', 'app.createStore'], 'an updater of a list edits a draft, never the published elements', function* (I, kind, env) {
			const inner = I.obj({ q: I.atom('q0') })
			const es = [I.obj({ p: I.atom('p0'), n: inner }), I.obj({ p: I.atom('p1') }), I.atom('plain', M.STR)]
			const l0 = I.arr(es)
			const c = yield* mkContainer(I, kind, l0, env)
			const hs = yield* subscribe(I, c, 1)
			const how = I.pick(['element', 'nested', 'push', 'shift'], 'edit')
			const mode = I.pick(['sync', 'async'], 'updater')
			const f = I.fn('updater', function* (args) {
				I.ne(args[0], l0, 'the updater gets a draft')
				const d0 = yield* I.get(args[0], '0')
				if (how === 'element') yield* I.set(d0, 'p', I.atom('p edited'))
				else if (how === 'nested') yield* I.set(yield* I.get(d0, 'n'), 'q', I.atom('q edited'))
				else if (how === 'push') yield* I.m(args[0], 'push', I.atom('pushed', M.STR))
				else yield* I.m(args[0], 'shift')
				if (mode === 'async') {
					const d = I.deferred()
					yield* I.fulfill(d, undefined)
					return d
				}
			})
			const m = I.mark()
			let ret = yield* c.set(f)
			if (mode === 'async') ret = yield* I.await(ret)
			I.ne(ret, l0, 'a changed list is a new list')
			yield* I.list(l0, es, 'the published list keeps its elements')
			I.eq(yield* I.get(es[0], 'p'), I.atom('p0'), 'a published element keeps its content')
			I.eq(yield* I.get(inner, 'q'), I.atom('q0'), 'what a published element holds keeps its content')
			const now = yield* I.elems(ret)
			if (how === 'push') I.listEq(now, [...es, I.atom('pushed', M.STR)], 'the new list has the edit')
			else if (how === 'shift') I.listEq(now, es.slice(1), 'the new list has the edit')
			else {
				I.listEq(now.slice(1), es.slice(1), 'the other elements carry over')
				I.eq(yield* I.get(now[0], ...(how === 'element' ? ['p'] : ['n', 'q'])), I.atom(how === 'element' ? 'p edited' : 'q edited'), 'the new list has the edit')
			}
			checkPublished(I, m, hs, ret, l0, 'update')
		})
	]
}

export const S06 = {
	theorems: [
		...over(LIB, 'the updater result decides the next value, synchronously or not', function* (I, kind, env) {
			const mode = I.pick(['sync', 'async'], 'updater')
			const outcome = I.pick(['a value', 'null', 'false', 'zero', 'empty string', 'nothing', 'undefined after an edit', 'undefined without an edit'], 'result')
			const nothing = yield* I.imp(PKG('states'), 'nothing')
			const o0 = I.obj({ p: I.atom('p0') })
			const c = yield* mkContainer(I, kind, o0, env)
			const hs = yield* subscribe(I, c, 1)
			const x = I.atom('result', NONFN & ~M.UND)
			const result = { 'a value': x, null: null, false: false, zero: 0, 'empty string': '', nothing }[outcome]
			const d = mode === 'async' ? I.deferred() : null
			let draft
			const f = I.fn('updater', function* (args) {
				draft = args[0]
				if (outcome === 'undefined after an edit') yield* I.set(args[0], 'p', I.atom('p1'))
				return d ?? result
			})
			const m = I.mark()
			let ret = yield* c.set(f)
			if (d) {
				yield* I.fulfill(d, result)
				const r = yield* I.settle(ret)
				if (!I.ok(r.state === 'fulfilled', 'the returned promise resolves', `it is ${r.state}: ${I.show(r.value)}`)) return
				ret = r.value
			}
			I.ok(I.calls(m, f).length === 1, 'the updater runs once', '')
			if (outcome === 'undefined after an edit') {
				I.eq(yield* I.get(ret, 'p'), I.atom('p1'), 'edits made to the draft are the update')
				checkPublished(I, m, hs, ret, o0, 'in-place update')
				yield* current(I, c, ret, 'in-place update')
				return
			}
			const want = outcome === 'nothing' ? undefined : outcome === 'undefined without an edit' ? o0 : result
			I.eq(ret, want, `an updater giving ${outcome}: set() gives the next value`)
			yield* current(I, c, want, `an updater giving ${outcome}`)
			if (outcome !== 'undefined without an edit') checkPublished(I, m, hs, want, o0, `an updater giving ${outcome}`)
			const later = I.atom('later value', M.OBJ)
			const m2 = I.mark()
			yield* c.set(later)
			checkPublished(I, m2, hs, later, want, 'the update after it')
		}),
		...over(LIB, 'an asynchronous result decides the next value, whatever happened meanwhile', function* (I, kind, env) {
			const outcome = I.pick(['a value', 'null', 'false', 'zero', 'empty string', 'nothing'], 'result')
			const nothing = yield* I.imp(PKG('states'), 'nothing')
			const mask = oneMask(kind)
			const [v0, v1, v2, later] = ['initial value', 'value set meanwhile', 'value of an updater meanwhile', 'later value'].map(n => I.atom(n, mask))
			const result = { 'a value': I.atom('result', mask), null: null, false: false, zero: 0, 'empty string': '', nothing }[outcome]
			const want = outcome === 'nothing' ? undefined : result
			const c = yield* mkContainer(I, kind, v0, env)
			const d = I.deferred()
			const ret = yield* c.set(I.fn('updater', function* () {
				return d
			}))
			const meanwhile = I.pick(['a value is set', 'an updater runs', 'it is set and reset', 'a handler is added'], 'meanwhile')
			let cur = v0
			if (meanwhile === 'an updater runs') {
				yield* c.set(I.fn('another updater', function* () {
					return v2
				}))
				cur = v2
			} else if (meanwhile !== 'a handler is added') {
				yield* c.set(v1)
				cur = v1
				if (meanwhile === 'it is set and reset') {
					yield* c.reset()
					cur = v0
				}
			}
			const hs = yield* subscribe(I, c, 1)
			const m = I.mark()
			yield* I.fulfill(d, result)
			const r = yield* I.settle(ret)
			if (!I.ok(r.state === 'fulfilled', 'the returned promise resolves', `it is ${r.state}: ${I.show(r.value)}`)) return
			I.eq(r.value, want, `an updater giving ${outcome} later: set() gives the next value`)
			yield* current(I, c, want, `an updater giving ${outcome} later`)
			checkPublished(I, m, hs, want, cur, `an updater giving ${outcome} later`)
			const m2 = I.mark()
			yield* c.set(later)
			checkPublished(I, m2, hs, later, want, 'the update after it')
		}),
		...over(['createState', 'createStore'], 'an updater may edit a list or an object in place, however little it holds', function* (I, kind, env) {
			const what = I.pick(['an empty list', 'a list', 'an empty object', 'a list in a list', 'an empty list in an object'], 'value')
			const [a, b] = [I.atom('a'), I.atom('b')]
			const inner = I.arr([])
			const v0 = { 'an empty list': I.arr([]), 'a list': I.arr([a]), 'an empty object': I.obj({}), 'a list in a list': I.arr([inner]), 'an empty list in an object': I.obj({ p: inner }) }[what]
			const c = yield* mkContainer(I, kind, v0, env)
			const d = I.pick(['at once', 'later'], 'completes') === 'later' ? I.deferred() : undefined
			let m = I.mark()
			const hs = yield* subscribe(I, c, 1)
			let cur = v0
			let r = yield* c.set(I.fn('updater', function* (args) {
				if (what === 'an empty object') yield* I.set(args[0], 'p', b)
				else {
					const l = what === 'a list in a list' ? yield* I.get(args[0], '0') : what === 'an empty list in an object' ? yield* I.get(args[0], 'p') : args[0]
					yield* I.m(l, 'push', b)
				}
				return d
			}))
			if (d) {
				if (I.pick(['nothing', 'a value is set'], 'meanwhile') === 'a value is set') {
					cur = I.obj({ q: b })
					yield* c.set(cur)
					m = I.mark()
				}
				yield* I.fulfill(d, undefined)
				r = (yield* I.settle(r)).value
				if (!I.ok(I.isRef(r), 'the edit is the update', I.show(r))) return
			}
			yield* current(I, c, r, 'an edit in place')
			if (what === 'an empty object') I.eq(yield* I.get(r, 'p'), b, 'the edit is the update')
			else {
				const l = what === 'a list in a list' ? yield* I.get(r, '0') : what === 'an empty list in an object' ? yield* I.get(r, 'p') : r
				I.listEq(yield* I.elems(l), what === 'a list' ? [a, b] : [b], 'the edit is the update')
			}
			checkPublished(I, m, hs, r, cur, 'an edit in place')
			I.listEq(yield* I.elems(inner), [], 'the value before is untouched')
			if (what.endsWith('list') && !what.includes(' in ')) I.listEq(yield* I.elems(v0), what === 'a list' ? [a] : [], 'the value before is untouched')
		}),
		...over(['createStore'], 'an updater receives the current value', function* (I, kind, env) {
			const v0 = I.val('initial value', M.PRIM)
			const v1 = I.val('second value', M.PRIM)
			const c = yield* mkContainer(I, kind, v0, env)
			let cur = v0
			if (I.pick(['first', 'after an update'], 'history') !== 'first') {
				yield* c.set(v1)
				cur = v1
			}
			const f = I.fn('updater', function* () {
				return I.atom('next', NONFN)
			})
			const m = I.mark()
			yield* c.set(f)
			const cl = I.calls(m, f)
			if (I.ok(cl.length === 1, 'the updater runs once', '')) I.eq(cl[0].args[0], cur, 'with the current value')
		}),
		...over(['createState', 'createStore'], 'an asynchronous updater may edit its draft after awaiting', function* (I, kind, env) {
			const o0 = I.obj({ p: I.atom('p0') })
			const c = yield* mkContainer(I, kind, o0, env)
			const gate = I.deferred()
			const done = I.deferred()
			let failure
			const f = I.fn('async updater', function* (args) {
				yield* I.whenSettled(gate, function* () {
					const r = yield* I.attempt(I.set(args[0], 'p', I.atom('p1')))
					if (r.threw) yield* I.reject0(done, r.value)
					else yield* I.fulfill0(done, undefined)
				})
				return done
			})
			const p = yield* c.set(f)
			yield* I.fulfill(gate, undefined)
			const r = yield* I.settle(p)
			if (I.ok(r.state === 'fulfilled', 'an edit made after an await is accepted', `the update ${r.state} with ${I.show(r.value)}`)) I.eq(yield* I.get(r.value, 'p'), I.atom('p1'), 'and is part of the next value')
		})
	]
}

export const S07 = {
	theorems: over(ALL, 'reset() restores the initial value', function* (I, kind, env) {
		const mask = valMask(kind)
		const v0 = I.val('initial value', mask)
		const c = yield* mkContainer(I, kind, v0, env)
		const hs = yield* subscribe(I, c, 2)
		let cur = v0
		const n = Number(I.pick(['0', '1', '2'], 'updates before reset()'))
		for (let i = 0; i < n; i++) cur = (yield* update(I, c, cur, String(i), mask, kind.startsWith('app.') ? ['value'] : ['value', 'updater'])).next
		const changed = I.same(cur, v0, 'the value differs from the initial one') === false
		const m = I.mark()
		yield* c.reset()
		if (changed) checkPublished(I, m, hs, v0, cur, 'reset()')
		else I.ok(I.calls(m, hs.map(x => x.h)).length === 0, 'reset() is silent when nothing changed', '')
		yield* current(I, c, v0, 'after reset()')
		const m2 = I.mark()
		yield* c.reset()
		I.ok(I.calls(m2, hs.map(x => x.h)).length === 0, 'a second reset() is silent', 'a handler ran')
	}).concat(over(['createState', 'createStore'], 'reset() restores the very initial value', function* (I, kind, env) {
		const vals = [0, -0, NaN, undefined, null, '', false, '0', 'NaN']
		const name = x => (Object.is(x, -0) ? '-0' : typeof x === 'string' ? `'${x}'` : String(x))
		const v0 = vals[I.choose(vals.map(name), 'initial value')]
		const c = yield* mkContainer(I, kind, v0, env)
		const hs = yield* subscribe(I, c, 1)
		const v1 = vals[I.choose(vals.map(name), 'value set')]
		const how = I.pick(['directly', 'by an updater'], 'set')
		if (how === 'directly' || v1 === undefined) yield* c.set(v1)
		else yield* c.set(I.fn('updater', function* () {
			return v1
		}))
		const m = I.mark()
		yield* c.reset()
		if (Object.is(v0, v1)) I.ok(I.calls(m, hs[0].h).length === 0, 'reset() is silent when nothing changed', '')
		else checkPublished(I, m, hs, v0, v1, 'reset()')
		yield* current(I, c, v0, 'after reset()')
	})).concat(over(LIB, 'reset() undoes edits in place', function* (I, kind, env) {
		const inner = I.obj({ q: I.atom('q0') })
		const o0 = I.obj({ p: I.atom('p0'), n: inner })
		const c = yield* mkContainer(I, kind, o0, env)
		const hs = yield* subscribe(I, c, 1)
		const n = Number(I.pick(['1', '2'], 'edits'))
		for (let i = 1; i <= n; i++) {
			const what = I.pick(['a key', 'a nested key', 'a new key', 'removal', 'an asynchronous edit'], `edit ${i}`)
			const d = what === 'an asynchronous edit' ? I.deferred() : undefined
			const r = yield* c.set(
				I.fn('updater', function* (args) {
					if (what === 'a nested key') {
						const n = yield* I.get(args[0], 'n')
						if (I.isRef(n)) yield* I.set(n, 'q', I.atom(`q${i}`))
						else yield* I.set(args[0], 'p', I.atom(`p${i}`))
					} else if (what === 'removal') yield* I.del(args[0], i === 1 ? 'n' : 'p')
					else yield* I.set(args[0], what === 'a new key' ? `x${i}` : 'p', I.atom(`p${i}`))
					return d
				})
			)
			if (d) {
				yield* I.fulfill(d, undefined)
				yield* I.await(r)
			}
		}
		const m = I.mark()
		yield* c.reset()
		I.ok(I.calls(m, hs[0].h).length === 1, 'reset() notifies once', `${I.calls(m, hs[0].h).length} notifications`)
		I.eq(I.calls(m, hs[0].h)[0]?.args[0], o0, 'with the initial value')
		yield* current(I, c, o0, 'after reset()')
		I.eq(yield* I.get(o0, 'p'), I.atom('p0'), 'the initial value has its content')
		I.eq(yield* I.get(o0, 'n', 'q'), I.atom('q0'), 'the initial value has its nested content')
		for (const k of ['x1', 'x2']) I.ok(!(yield* I.hasOwn(o0, k)), 'the initial value has no more keys', '')
	})).concat([
		{
			name: 'reset() of a state that holds functions',
			stages: [
				function* (I) {
					const f0 = I.fn('f0')
					const f1 = I.fn('f1')
					const c = yield* mkContainer(I, I.pick(['createState', 'createStore'], 'container'), f0)
					const hs = yield* subscribe(I, c, 1)
					yield* c.set(f1)
					const m = I.mark()
					yield* c.reset()
					I.ok(I.calls(m, [f0, f1]).length === 0, 'the initial function is restored, not run', '')
					checkPublished(I, m, hs, f0, f1, 'reset()')
				}
			]
		}
	])
}

export const S08 = {
	theorems: over(['createRegistry', 'app.createRegistry'], 'the views of a registry agree with its record', function* (I, kind, env) {
		const keys = [I.key('k0'), I.key('k1'), I.key('k2'), I.atom('symbol key', M.SYM)]
		const strs = keys.slice(0, 3)
		const content = new Map()
		let init
		const how = I.pick(['no initial record', 'a plain initial record', 'a record without prototype'], 'creation')
		if (how !== 'no initial record') {
			init = how === 'a plain initial record' ? I.obj({}) : I.obj({}, null)
			const v = I.val('value of k0', NONFN & ~M.UND)
			yield* I.set(init, keys[0], v)
			content.set(keys[0], v)
		}
		const c = yield* mkContainer(I, kind, init, env)
		const r = c.raw
		const initial = [...content]
		for (const step of I.deep ? ['1', '2', '3'] : ['1', '2']) {
			const op = I.pick(['none', 'assign k0', 'assign k1', 'assign a symbol', 'assign undefined', 'assign toString', 'delete k0', 'replace', 'reset'], `step ${step}`)
			if (op === 'none') break
			const v = I.fresh(`value ${step}`, NONFN & ~M.UND)
			if (op === 'reset') {
				yield* c.reset()
				content.clear()
				for (const [k, v] of initial) content.set(k, v)
			} else if (op === 'replace') {
				const o = I.obj({})
				yield* I.set(o, keys[2], v)
				content.clear()
				content.set(keys[2], v)
				yield* c.set(o)
			} else {
				const k = op === 'assign k1' ? keys[1] : op === 'assign a symbol' ? keys[3] : op === 'assign toString' ? 'toString' : keys[0]
				yield* c.set(
					I.fn('updater', function* (args) {
						if (op.startsWith('delete')) yield* I.del(args[0], k)
						else yield* I.set(args[0], k, op === 'assign undefined' ? undefined : v)
					})
				)
				if (op.startsWith('delete')) content.delete(k)
				else content.set(k, op === 'assign undefined' ? undefined : v)
			}
		}
		const ks = yield* I.elems(yield* I.m(r, 'keys'))
		I.bagEq(ks, [...content.keys()], 'keys() lists every own key, strings and symbols, exactly once')
		I.eq(yield* I.m(r, 'size'), content.size, 'size() counts them')
		const vs = yield* I.elems(yield* I.m(r, 'values'))
		I.listEq(vs, ks.map(k => content.get([...content.keys()].find(x => I.eq3(x, k) === true))), 'values() gives the value of each key, in the order of keys()')
		for (const k of keys) I.eq(yield* I.m(r, 'has', k), content.has(k) && I.eq3(content.get(k), undefined) !== true, 'has() tells whether the record holds a value for the key')
		const any = I.pick(['toString', 'constructor', '__proto__'], 'a key nobody added')
		I.eq(yield* I.m(r, 'has', any), content.has(any), 'has() is false for a key nobody added, however it is spelled, and true once it is added')
		const rec = yield* c.get()
		for (const [k, v] of content) I.eq(yield* I.get(rec, k), v, 'get() gives the record')
	}).concat(
		over(['createRegistry', 'app.createRegistry'], 'a registry of numbered entries', function* (I, kind, env) {
			const vs = [0, 1, 2].map(i => I.atom(`v${i}`, NONFN & ~M.UND))
			const [a, b] = I.pick(['7, 3', '0, 10', '-1, 1.5'], 'numbers').split(', ').map(Number)
			const form = x => (I.pick(['a number', 'its text'], 'asked with') === 'a number' ? x : String(x))
			const c = yield* mkContainer(I, kind, I.pick(['given', 'none'], 'initial record') === 'given' ? I.obj({ [a]: vs[0] }) : undefined, env)
			const r = c.raw
			for (const [k, v] of [[a, vs[1]], [b, vs[2]]])
				yield* c.set(I.fn('updater', function* (args) {
					yield* I.set(args[0], String(k), v)
				}))
			const one = form(a)
			I.eq(yield* I.m(r, 'has', one), true, 'has() is true for a numbered entry')
			I.eq(yield* I.m(r, 'has', form(5)), false, 'has() is false for a number nobody added')
			I.eq(yield* I.m(r, 'size'), 2, 'size() counts them')
			I.bagEq(yield* I.elems(yield* I.m(r, 'keys')), [String(a), String(b)], 'keys() lists them')
			I.bagEq(yield* I.elems(yield* I.m(r, 'values')), [vs[1], vs[2]], 'values() gives their values')
			yield* c.set(I.fn('updater', function* (args) {
				yield* I.del(args[0], String(a))
			}))
			I.eq(yield* I.m(r, 'has', one), false, 'has() is false once the entry is removed')
			I.eq(yield* I.m(r, 'size'), 1, 'size() counts the rest')
		}),
		over(['createRegistry', 'app.createRegistry'], 'the lists a registry gives belong to the caller', function* (I, kind, env) {
			const [v1, v2] = [I.atom('v1', NONFN), I.atom('v2', NONFN)]
			const init = I.pick(['given', 'none'], 'initial record') === 'given' ? I.obj({ k1: v1 }) : undefined
			const c = yield* mkContainer(I, kind, init, env)
			const r = c.raw
			const want = init ? ['k1'] : []
			const check = function* (what) {
				I.listEq(yield* I.elems(yield* I.m(r, 'keys')), want, `${what}: keys() lists the keys`)
				I.listEq(yield* I.elems(yield* I.m(r, 'values')), want.map(k => (k === 'k1' ? v1 : v2)), `${what}: values() gives the values`)
				I.eq(yield* I.m(r, 'size'), want.length, `${what}: size() counts them`)
				for (const k of ['k1', 'k2', 'other']) I.eq(yield* I.m(r, 'has', k), want.includes(k), `${what}: has() tells the keys`)
			}
			for (const when of ['at first', 'later']) {
				for (const w of ['keys', 'values']) {
					const l = yield* I.m(r, w)
					const how = I.pick(['adds to it', 'empties it'], `the caller of ${w}(), ${when},`)
					if (how === 'adds to it') yield* I.m(l, 'push', 'other')
					else yield* I.m(l, 'splice', 0)
					yield* check(`a caller that ${how}`)
				}
				if (when === 'later') break
				yield* c.set(I.fn('updater', function* (args) {
					yield* I.set(args[0], 'k2', v2)
				}))
				want.push('k2')
				yield* check('after an update')
			}
		})
	)
}

export const S09 = {
	theorems: [
		{
			name: 'a readonly store exposes reads only',
			stages: [
				function* (I) {
					const mask = NONFN
					const c = yield* mkContainer(I, 'createStore', I.atom('v0', mask))
					const ro = yield* I.call(yield* I.imp(PKG('states'), 'toReadonlyStore'), c.raw)
					I.ne(ro, c.raw, 'it is a separate object')
					I.bagEq((yield* I.keys(ro)), ['get', 'onChange'], 'its members are get and onChange, nothing that writes')
					for (const k of ['set', 'reset']) I.eq(yield* I.get(ro, k), undefined, 'nothing that writes is reachable through it')
					I.eq(yield* I.m(ro, 'get'), I.atom('v0', mask), 'it reads the store')
					const h = I.fn('handler', function* () {})
					const off = yield* I.m(ro, 'onChange', h)
					let m = I.mark()
					yield* c.set(I.atom('v1', mask))
					I.ok(I.calls(m, h).length === 1, 'it subscribes to the store', '')
					I.eq(yield* I.m(ro, 'get'), I.atom('v1', mask), 'it follows the store')
					yield* I.call(off)
					m = I.mark()
					yield* c.set(I.atom('v2', mask))
					I.ok(I.calls(m, h).length === 0, 'its subscriptions can be cancelled', '')
				}
			]
		},
		{
			name: 'a readonly registry exposes reads only',
			stages: [
				function* (I) {
					const k = I.key('k')
					const k2 = I.key('k2')
					const v = I.atom('v', NONFN)
					const c = yield* mkContainer(I, 'createRegistry', undefined)
					const ro = yield* I.call(yield* I.imp(PKG('states'), 'toReadonlyRegistry'), c.raw)
					I.ne(ro, c.raw, 'it is a separate object')
					I.bagEq((yield* I.keys(ro)), ['get', 'has', 'onChange', 'keys', 'size', 'values'], 'its members are the reads, nothing that writes')
					for (const k of ['set', 'reset', 'add']) I.eq(yield* I.get(ro, k), undefined, 'nothing that writes is reachable through it')
					const h = I.fn('handler', function* () {})
					yield* I.m(ro, 'onChange', h)
					const m = I.mark()
					yield* c.set(
						I.fn('updater', function* (args) {
							yield* I.set(args[0], k, v)
						})
					)
					I.ok(I.calls(m, h).length === 1, 'it subscribes to the registry', '')
					I.eq(yield* I.get(yield* I.m(ro, 'get'), k), v, 'it follows the registry')
					I.eq(yield* I.m(ro, 'has', k), true, 'has() follows the registry')
					I.eq(yield* I.m(ro, 'has', k2), false, 'has() follows the registry')
					I.listEq(yield* I.elems(yield* I.m(ro, 'keys')), [k], 'keys() follows the registry')
					I.eq(yield* I.m(ro, 'size'), 1, 'size() follows the registry')
					I.listEq(yield* I.elems(yield* I.m(ro, 'values')), [v], 'values() follows the registry')
				}
			]
		},
		...['Store', 'Registry'].map(w => ({
			name: `a view of a source that can do more exposes reads only [${w}]`,
			stages: [
				function* (I) {
					const c = yield* mkContainer(I, `create${w}`, w === 'Store' ? I.arr([]) : I.obj({}))
					const add = I.fn('adder', function* () {})
					let more
					if (I.pick(['with an adder', 'with methods of its own'], 'the source') === 'with an adder') more = yield* I.call(yield* I.imp(PKG('states'), 'withAdder'), c.raw, add)
					else {
						more = I.obj({ clear: I.fn('clear', function* () {}), put: I.fn('put', function* () {}) })
						for (const k of yield* I.keys(c.raw)) yield* I.set(more, k, yield* I.get(c.raw, k))
					}
					const ro = yield* I.call(yield* I.imp(PKG('states'), `toReadonly${w}`), more)
					I.bagEq(yield* I.keys(ro), w === 'Store' ? ['get', 'onChange'] : ['get', 'has', 'onChange', 'keys', 'size', 'values'], 'its members are the reads, nothing that writes')
					for (const k of ['set', 'reset', 'add', 'clear', 'put']) I.eq(yield* I.get(ro, k), undefined, 'nothing that writes is reachable through it')
				}
			]
		})),
		...['Store', 'Registry'].map(w => ({
			name: `a view gives what its source gives, at every moment [${w}]`,
			stages: [
				function* (I) {
					const mask = w === 'Registry' ? M.OBJ : NONFN & ~M.UND
					const v0 = I.atom('v0', mask)
					const c = yield* mkContainer(I, `create${w}`, v0)
					const to = yield* I.imp(PKG('states'), `toReadonly${w}`)
					let cur = v0
					let seen = []
					const views = []
					const look = function* (what) {
						for (const v of views) I.eq(yield* I.m(v, 'get'), cur, `${what}: the view gives the current value`)
					}
					/** a handler that reads every view when it is notified */
					const reader = name =>
						I.fn(name, function* (args) {
							for (const v of views) seen.push([args[0], yield* I.m(v, 'get')])
						})
					for (const step of I.deep ? [1, 2, 3, 4] : [1, 2, 3]) {
						const what = I.pick(['subscribe to the source', 'make a view', 'make a view and subscribe to it', 'set', 'update', 'reset'], `step ${step}`)
						if (what === 'subscribe to the source') yield* c.onChange(reader(`handler ${step}`))
						else if (what.startsWith('make')) {
							const v = yield* I.call(to, c.raw)
							views.push(v)
							if (what.endsWith('it')) yield* I.m(v, 'onChange', reader(`handler ${step} of the view`))
						} else if (what === 'reset') {
							cur = v0
							yield* c.reset()
						} else {
							cur = I.atom(`v${step}`, mask)
							const next = cur
							yield* c.set(what === 'set' ? next : I.fn('updater', function* () {
								return next
							}))
						}
						for (const [now, got] of seen) I.eq(got, now, 'a handler reading a view sees the new value')
						seen = []
						yield* look('between changes')
					}
					cur = I.atom('last', mask)
					yield* c.set(cur)
					for (const [now, got] of seen) I.eq(got, now, 'a handler reading a view sees the new value')
					yield* look('at the end')
				}
			]
		}))
	]
}

export const S10 = {
	theorems: [
		...['createStore', 'createRegistry'].flatMap(kind =>
			['withAdder', 'adder'].map(w => ({
				name: `add() applies its entries in order, in one update [${w} over ${kind}]`,
				stages: [
					function* (I) {
						const e = [1, 2, 3].map(i => I.atom(`entry ${i}`))
						const first = I.pick(['distinct', 'the same twice', 'undefined', 'null', '0'], 'entries given')
						if (first === 'the same twice') e[1] = e[0]
						else if (first !== 'distinct') e[0] = { undefined: undefined, null: null, 0: 0 }[first]
						const n = Number(I.pick(['1', '2', '3'], 'entries'))
						const gives = first === 'distinct' ? { nothing: undefined, false: false, true: true, 'a number': 3, null: null, 'an object': I.obj({}) }[I.pick(['nothing', 'false', 'true', 'a number', 'null', 'an object'], 'the adder gives')] : undefined
						const o0 = I.obj({})
						const c = yield* mkContainer(I, kind, o0)
						const hs = yield* subscribe(I, c, 2)
						const drafts = []
						const addEntry = I.fn('addEntry', function* (args) {
							drafts.push(args[0])
							const d = yield* I.get(args[0], 'log')
							yield* I.set(args[0], 'log', I.concat(I.resolve(d) === undefined ? '' : d, '|', args[1]))
							return gives
						})
						const x = yield* I.call(yield* I.imp(PKG('states'), w), c.raw, addEntry)
						const add = w === 'adder' ? x : yield* I.get(x, 'add')
						const m = I.mark()
						yield* I.call(add, ...e.slice(0, n))
						I.listEq(I.calls(m, addEntry).map(c => c.args[1]), e.slice(0, n), 'the handler gets every entry once, in argument order')
						I.ok(I.calls(m, hs[0].h).length === 1, 'subscribers are notified once per add()', `${I.calls(m, hs[0].h).length} times`)
						const log = yield* I.get(yield* c.get(), 'log')
						I.eq(log, I.concat(...e.slice(0, n).flatMap(x => ['|', x])), 'the result of every entry is kept')
						I.ok(!(yield* I.hasOwn(o0, 'log')), 'the previous value is untouched', '')
						if (w === 'withAdder') {
							I.eq(yield* I.get(yield* I.m(x, 'get'), 'log'), log, 'the decorated container is the same container')
							const need = kind === 'createStore' ? ['get', 'set', 'onChange', 'reset', 'add'] : ['get', 'set', 'onChange', 'reset', 'add', 'keys', 'has', 'size', 'values']
							I.bagEq(yield* I.keys(x), need, 'it keeps the members of the container and gains add()')
						}
					}
				]
			}))
		),
		...['createStore', 'createRegistry'].map(kind => ({
			name: `a failing add() leaves everything as it was [${kind}]`,
			stages: [
				function* (I) {
					const err = I.atom('error')
					const bad = I.atom('bad entry')
					const n = Number(I.pick(['0', '1', '2'], 'entries before the bad one'))
					const o0 = I.obj({ p: I.atom('p0') })
					const c = yield* mkContainer(I, kind, o0)
					const hs = yield* subscribe(I, c, 1)
					const addEntry = I.fn('addEntry', function* (args) {
						yield* I.set(args[0], 'last', args[1])
						if (args[1] === bad) yield* I.throw(err)
					})
					const x = yield* I.call(yield* I.imp(PKG('states'), 'withAdder'), c.raw, addEntry)
					const m = I.mark()
					const r = yield* I.attempt(I.m(x, 'add', ...[1, 2].slice(0, n).map(i => I.atom(`entry ${i}`)), bad, I.atom('entry after')))
					if (I.ok(r.threw, 'add() fails when an entry cannot be added', '')) I.eq(r.value, err, 'with the error of the adder')
					I.ok(I.calls(m, hs[0].h).length === 0, 'no handler runs', 'a handler ran')
					I.eq(yield* c.get(), o0, 'no entry is added')
				}
			]
		})),
		...['push', 'unshift'].map(w => ({
			name: `${w} adds to the ${w === 'push' ? 'end' : 'front'} of a list`,
			stages: [
				function* (I) {
					const some = I.pick(['0', '2', 'a great many'], 'old entries')
					const many = some === 'a great many'
					const old = Array.from({ length: many ? 150 : Number(some) }, (_, i) => (many ? `old ${i + 1}` : I.atom(`old ${i + 1}`, NONFN)))
					const e = Array.from({ length: many ? 120 : Number(I.pick(['1', '2'], 'entries')) }, (_, i) => (many ? `entry ${i + 1}` : I.atom(`entry ${i + 1}`, NONFN)))
					const first = I.pick(['new', 'there already', 'undefined', 'null', 'an empty string', 'a list', 'an object'], 'the first entry')
					if (first === 'there already') e[0] = old[1] ?? e[0]
					else if (first !== 'new') e[0] = { undefined: undefined, null: null, 'an empty string': '', 'a list': I.arr([1, 2]), 'an object': I.obj({ length: 1 }) }[first]
					const a0 = I.arr(old)
					const c = yield* mkContainer(I, 'createStore', a0)
					const x = yield* I.call(yield* I.imp(PKG('states'), 'withAdder'), c.raw, yield* I.imp(PKG('states'), w))
					yield* I.m(x, 'add', ...e)
					yield* I.list(yield* c.get(), w === 'push' ? [...old, ...e] : [...e.slice().reverse(), ...old], 'the list holds the old entries and the new ones')
					yield* I.list(a0, old, 'the previous list is untouched')
				}
			]
		}))
	]
}

export const S11 = {
	theorems: ['createState', 'createStore', 'createRegistry'].flatMap(kind => [
		{
			name: `containers of an app log through that app [${kind}]`,
			logOn: 'always',
			stages: [
				function* (I) {
					const g = yield* I.imp(PKG('states'), 'statesGizmo')
					const name = I.str('first app')
					const name2 = I.str('second app')
					return { app: yield* incubateApp(I, [g], { name }), app2: yield* incubateApp(I, [g], { name: name2 }), name, name2 }
				},
				function* (I, env) {
					const order = I.pick(['app app2', 'app2 app', 'app app'], 'the apps used').split(' ')
					const mask = kind === 'createRegistry' ? M.OBJ : NONFN
					for (const [i, which] of order.entries()) {
						const m = I.mark()
						const v0 = I.atom(`v${i}0`, mask)
						const c = yield* mkContainer(I, `app.${kind}`, v0, { app: env[which] })
						I.eq(c.hasGet ? yield* c.get() : c.initial, v0, 'a container of an app starts with the value given')
						yield* c.onChange(I.fn('handler', function* () {}))
						yield* c.set(I.atom(`v${i}1`, mask))
						const logs = I.logs(m)
						const own = yield* I.m(yield* I.get(env[which], 'log'), 'getLogger')
						const ol = I.rd(own).logger
						for (const l of logs) {
							I.ok(l.sl === ol.sl, 'messages go to the log of the app that created the container', `they go to ${I.show(l.sl)}`)
							I.eq(l.id, ol.id, 'under the id of the app')
						}
					}
					I.ok(true, 'no message goes elsewhere')
				}
			]
		},
		{
			name: `each container of an app has the logger given for it, else that of the app [${kind}]`,
			logOn: 'always',
			stages: [
				function* (I) {
					const g = yield* I.imp(PKG('states'), 'statesGizmo')
					return { app: yield* incubateApp(I, [g]) }
				},
				function* (I, env) {
					const mask = kind === 'createRegistry' ? M.OBJ : NONFN
					const log = yield* I.get(env.app, 'log')
					const own = yield* I.m(log, 'getLogger')
					const made = []
					for (const i of [1, 2, 3]) {
						const given = I.pick(['a logger', 'none'], `given for container ${i}`) === 'a logger' ? yield* I.m(log, 'getLogger', `logger-${i}`) : undefined
						const opts = given ? [I.obj({ logger: given })] : i === 2 ? I.pick([[], [I.obj({})]], 'options') : []
						const raw = yield* I.call(yield* I.get(env.app, 'states', kind), I.atom(`v${i}`, mask), ...opts)
						made.push({ set: kind === 'createState' ? (yield* I.elems(raw))[1] : yield* I.get(raw, 'set'), id: I.rd(given ?? own).logger.id, i })
					}
					for (const c of made) {
						const m = I.mark()
						yield* I.call(c.set, I.atom(`w${c.i}`, mask))
						for (const l of I.logs(m)) I.eq(l.id, c.id, 'every message goes to the logger of that container')
					}
					I.ok(true, 'no message goes elsewhere')
				}
			]
		},
		...(kind !== 'createRegistry' ? [] : [{
			name: 'a registry of an app made without entries',
			logOn: 'always',
			stages: [
				function* (I) {
					const g = yield* I.imp(PKG('states'), 'statesGizmo')
					const name = I.str('app name')
					return { name, app: yield* incubateApp(I, [g], { name }), other: yield* incubateApp(I, [g], { name: I.str('another app') }) }
				},
				function* (I, env) {
					const log = yield* I.get(env.app, 'log')
					const given = I.pick(['a logger', 'none'], 'given') === 'a logger' ? yield* I.m(log, 'getLogger', 'mine') : undefined
					const args = given ? [undefined, I.obj({ logger: given })] : I.pick([[], [undefined], [undefined, undefined], [I.obj({})], [undefined, I.obj({})]], 'arguments')
					const m = I.mark()
					const r = yield* I.m(yield* I.get(env.app, 'states'), 'createRegistry', ...args)
					I.listEq(yield* I.elems(yield* I.m(r, 'keys')), [], 'it starts empty')
					const h = I.fn('handler', function* () {})
					yield* I.m(r, 'onChange', h)
					const [k, v] = [I.key('key'), I.atom('value')]
					yield* I.m(r, 'set', I.fn('updater', function* ([d]) {
						yield* I.set(d, k, v)
					}))
					I.ok(I.calls(m, h).length === 1, 'its subscribers are notified once', '')
					I.listEq(yield* I.elems(yield* I.m(r, 'values')), [v], 'it has what was set')
					const own = yield* I.m(log, 'getLogger')
					for (const l of I.logs(m)) {
						I.ok(l.sl === I.rd(own).logger.sl, 'messages go to the log of the app that created it', `they go to ${I.show(l.sl)}`)
						I.eq(l.id, I.rd(given ?? own).logger.id, 'under the id of the app, or of the logger given')
					}
				}
			]
		}]),
		{
			name: `a given logger is used instead [${kind}]`,
			logOn: 'always',
			stages: [
				function* (I) {
					const g = yield* I.imp(PKG('states'), 'statesGizmo')
					return { app: yield* incubateApp(I, [g]) }
				},
				function* (I, env) {
					const mask = kind === 'createRegistry' ? M.OBJ : NONFN
					const id = I.atom('logger id', M.STR)
					const logger = yield* I.m(yield* I.get(env.app, 'log'), 'getLogger', id)
					const lid = I.rd(logger).logger.id
					const via = I.pick(['app', 'library'], 'factory')
					const f = via === 'app' ? yield* I.get(env.app, 'states', kind) : yield* I.imp(PKG('states'), kind)
					const m = I.mark()
					const raw = yield* I.call(f, I.atom('v0', mask), I.obj({ logger }))
					const set = kind === 'createState' ? (yield* I.elems(raw))[1] : yield* I.get(raw, 'set')
					yield* I.call(set, I.atom('v1', mask))
					for (const l of I.logs(m)) I.eq(l.id, lid, 'every message goes to the given logger')
					I.ok(true, 'no message goes elsewhere')
				}
			]
		}
	])
}
