import { M } from '../core.mjs'
import { PKG, gizmo, incubateApp } from './kit.mjs'

const NAME = /[A-Za-z0-9-]/
const BACKENDS = ['memory', 'browser']

/** an app with a preference backend; the browser one over the given storage */
export function* prefsApp(I, backend, { name = I.word('app name', NAME), storage, alone = false } = {}) {
	const gs = []
	if (!alone) gs.push(yield* gizmo(I, 'keyboard', 'keyboardGizmoFn'))
	gs.push(yield* gizmo(I, 'commands', 'commandsGizmoFn'))
	if (backend === 'browser') {
		gs.push(yield* gizmo(I, 'browser', 'browserTestGizmoFn', I.obj({ localStorage: storage ?? I.storage('the storage') }), './testing'))
		gs.push(yield* I.imp(PKG('browser-preferences'), 'browserPreferencesGizmo'))
	} else gs.push(yield* I.imp(PKG('preferences'), 'memoryPreferencesGizmo'))
	return yield* incubateApp(I, gs, { name })
}
/** the ways a client reaches the preferences of an app */
const ROUTES = ['api', 'command']
const COMMANDS = { get: 'getUserPreference', set: 'setUserPreference', clearAll: 'clearAllUserPreferences' }
export function* prefs(I, app, route, op, ...args) {
	if (route === 'api') return yield* I.m(yield* I.get(app, 'preferences'), op, ...args)
	const cmd = yield* I.imp(PKG('preferences'), COMMANDS[op])
	if (route === 'command') return yield* I.call(cmd, ...args)
	return yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'invoke', yield* I.get(cmd, 'id'), ...args)
}
const writes = (I, m) => I.since(m, e => e.t === 'storage' && e.op !== 'get')
const over = (names, name, body) => names.map(n => ({ name: `${name} [${n}]`, stages: [I => body(I, n)] }))
/** reads every key both ways and compares with the model */
function* checkAll(I, app, route, model, keys, what) {
	for (const k of keys) {
		const d = I.str('default value')
		const m = I.mark()
		const want = model.get(k)
		I.eq(yield* prefs(I, app, route, 'get', k), want, `${what}: get() gives the value in force`)
		I.eq(yield* prefs(I, app, route, 'get', k, d), want === undefined ? d : want, `${what}: get() with a default gives it exactly when there is no value`)
		I.eq(yield* prefs(I, app, route, 'get', k, ''), want === undefined ? '' : want, `${what}: get() with a default gives it exactly when there is no value`)
		I.eq(yield* prefs(I, app, route, 'get', k), want, `${what}: giving a default stores nothing`)
		I.ok(writes(I, m).length === 0, `${what}: reading stores nothing`, '')
	}
}

export const P01 = {
	theorems: [
		...BACKENDS.map(backend => ({
			name: `a read gives the last value set [${backend}]`,
			stages: [
				function* (I) {
					const route = I.pick([...ROUTES, 'invoke'], 'client')
					const app = yield* prefsApp(I, backend, { alone: I.pick(['with keyboard', 'without keyboard'], 'app') !== 'with keyboard' })
					const [k1, k2] = [I.key('key 1'), I.key('key 2')]
					yield* checkAll(I, app, route, new Map(), [k1], 'before any set')
					return { app, route, k1, k2, model: new Map() }
				},
				...[1, 2, 3].map(
					i =>
						function* (I, p) {
							const model = new Map(p.model)
							const v = I.fresh('value', M.STR)
							const set = function* (k, x) {
								yield* prefs(I, p.app, p.route, 'set', k, x)
								if (x === undefined) model.delete(k)
								else model.set(k, x)
							}
							const ops = {
								'set 1': () => set(p.k1, v),
								'set 2': () => set(p.k2, v),
								'set 1 to the empty string': () => set(p.k1, ''),
								'remove 1': () => set(p.k1, undefined),
								*clear() {
									yield* prefs(I, p.app, p.route, 'clearAll')
									model.clear()
								}
							}
							yield* ops[I.pick(Object.keys(ops), `operation ${i}`)]()
							return { ...p, model }
						}
				),
				function* (I, { app, route, k1, k2, model }) {
					yield* checkAll(I, app, route, model, [k1, k2], 'after the operations')
				}
			]
		})),
		...over(BACKENDS, 'any key can be used, also one spelled like an object member', function* (I, backend) {
			const app = yield* prefsApp(I, backend)
			const k = I.pick(['toString', '__proto__', 'constructor', 'hasOwnProperty', 'valueOf', '', 'length', 'getItem', 'a:b', 'a/b c', 'A', ' a', '0'], 'key')
			const [near, vn] = ['a', I.str('value of another key')]
			if (I.pick(['none', 'another key'], 'set before') !== 'none') yield* prefs(I, app, 'api', 'set', near, vn)
			const other = yield* prefs(I, app, 'api', 'get', near)
			I.eq(yield* prefs(I, app, 'api', 'get', k), undefined, 'a key never set has no value')
			const v = I.str('value')
			yield* prefs(I, app, 'api', 'set', k, v)
			I.eq(yield* prefs(I, app, 'api', 'get', k), v, 'its value can be set')
			yield* prefs(I, app, 'api', 'set', k, undefined)
			I.eq(yield* prefs(I, app, 'api', 'get', k), undefined, 'and removed')
			I.eq(yield* prefs(I, app, 'api', 'get', near), other, 'another key keeps its value')
			yield* prefs(I, app, 'api', 'set', k, v)
			yield* prefs(I, app, 'api', 'clearAll')
			I.eq(yield* prefs(I, app, 'api', 'get', k), undefined, 'and cleared with the others')
			I.eq(yield* prefs(I, app, 'api', 'get', near), undefined, 'and cleared with the others')
		}),
		{
			name: 'a preference outlives the app [browser]',
			stages: [
				function* (I) {
					const storage = I.storage('the storage')
					const name = I.word('app name', NAME)
					const a = yield* prefsApp(I, 'browser', { name, storage })
					const [k, k2] = [I.key('key 1'), I.key('key 2')]
					const v = I.str('value')
					yield* prefs(I, a, 'api', 'set', k, v)
					const b = yield* prefsApp(I, 'browser', { name, storage })
					I.eq(yield* prefs(I, b, 'api', 'get', k), v, 'an app created later under the same name over the same storage reads it')
					I.eq(yield* prefs(I, b, 'api', 'get', k2), undefined, 'and nothing else')
				}
			]
		},
		{
			name: 'apps of one name over one storage read the same values at any time [browser]',
			stages: [
				function* (I) {
					const storage = I.storage('the storage')
					const name = I.word('app name', NAME)
					const a = yield* prefsApp(I, 'browser', { name, storage })
					const b = yield* prefsApp(I, 'browser', { name, storage })
					return { apps: [a, b], k: I.key('key 1'), cur: undefined }
				},
				...[1, 2, 3].map(
					i =>
						function* (I, p) {
							const who = p.apps[Number(I.pick(['0', '1'], `app of step ${i}`))]
							const op = I.pick(['set', 'set by a handler', 'remove', 'clear'], `step ${i}`)
							let cur
							if (op === 'clear') yield* prefs(I, who, 'api', 'clearAll')
							else {
								cur = op === 'remove' ? undefined : I.str(`value ${i}`)
								const v = cur
								yield* prefs(I, who, 'api', 'set', p.k, op === 'set by a handler' ? I.fn('handler', function* ([x]) {
									I.eq(x, p.cur, 'a handler is given the value in force')
									return v
								}) : v)
							}
							for (const x of p.apps) I.eq(yield* prefs(I, x, 'api', 'get', p.k), cur, 'each of them reads the value set last')
							return { ...p, cur }
						}
				)
			]
		}
	]
}

const OUTCOMES = ['a value', 'the empty string', 'undefined', 'nothing']
const KINDS = ['directly', 'by a handler', 'by an asynchronous handler']
/** performs one set of k with the outcome; gives what the preference should be afterwards */
function* setOutcome(I, app, route, k, outcome, kind, expectedOld, { obligations = true } = {}) {
	const nothing = yield* I.imp(PKG('states'), 'nothing')
	const v = I.fresh('next value', M.STR)
	const given = { 'a value': v, 'the empty string': '', 'undefined': undefined, nothing }[outcome]
	if (kind === 'directly') {
		if (outcome === 'nothing') I.dead()
		const r = yield* prefs(I, app, route, 'set', k, given)
		if (obligations) I.ok(!I.isPromise(r), 'setting a value directly leaves nothing to wait for', I.show(r))
	} else {
		const d = kind === 'by an asynchronous handler' ? I.deferred() : null
		const f = I.fn('handler', function* () {
			return d ?? given
		})
		const m = I.mark()
		const r = yield* prefs(I, app, route, 'set', k, f)
		const c = I.calls(m, f)
		if (obligations && I.ok(c.length === 1, 'the handler runs once', `it runs ${c.length} times`)) I.eq(c[0].args[0], expectedOld, 'with the value in force')
		if (d) {
			if (obligations) I.eq(yield* prefs(I, app, route, 'get', k), expectedOld, 'until the handler completes the value is unchanged')
			yield* I.fulfill(d, given)
			yield* I.drain()
		}
		if (!d && obligations) I.ok(!I.isPromise(r), 'a handler that is not asynchronous leaves nothing to wait for', I.show(r))
	}
	return outcome === 'a value' ? v : outcome === 'the empty string' ? '' : undefined
}
export const P02 = {
	theorems: [
		...BACKENDS.map(backend => ({
			name: `the outcome of a set decides the value [${backend}]`,
			stages: [
				function* (I) {
					const app = yield* prefsApp(I, backend)
					const route = I.pick(['api', 'invoke'], 'client')
					const [k1, k2] = [I.key('key 1'), I.key('key 2')]
					const other = I.str('other value')
					yield* prefs(I, app, route, 'set', k2, other)
					let cur
					if (I.pick(['unset', 'set'], 'before') === 'set') {
						cur = I.str('old value')
						yield* prefs(I, app, route, 'set', k1, cur)
					}
					return { app, route, k1, k2, other, cur }
				},
				...[1, 2].map(
					i =>
						function* (I, p) {
							const cur = yield* setOutcome(I, p.app, p.route, p.k1, I.pick(OUTCOMES, `outcome ${i}`), I.pick(KINDS, `way ${i}`), p.cur)
							yield* checkAll(I, p.app, p.route, new Map([[p.k2, p.other], [p.k1, cur]]), [p.k1, p.k2], `after set ${i}`)
							return { ...p, cur }
						}
				)
			]
		})),
		...over(BACKENDS, 'of overlapping sets the one that completes last decides', function* (I, backend) {
			const app = yield* prefsApp(I, backend)
			const nothing = yield* I.imp(PKG('states'), 'nothing')
			const route = I.pick(['api', 'invoke'], 'client')
			const k = I.key('key 1')
			const cur = I.pick(['unset', 'set'], 'before') === 'set' ? I.str('old value') : undefined
			if (cur !== undefined) yield* prefs(I, app, route, 'set', k, cur)
			const start = function* (i, k) {
				const d = I.deferred()
				const f = I.fn(`handler ${i}`, function* () {
					return d
				})
				const m = I.mark()
				const r = yield* prefs(I, app, route, 'set', k, f)
				I.eq(I.calls(m, f)[0]?.args[0], cur, 'each handler gets the value in force when it runs')
				return { d, r, k, v: I.str(`value ${i}`) }
			}
			const k2 = I.pick(['the same key', 'another key'], 'second set') === 'the same key' ? k : I.key('key 2')
			if (k2 !== k && cur !== undefined) yield* prefs(I, app, route, 'set', k2, cur)
			const sets = [yield* start(1, k), yield* start(2, k2)]
			if (I.pick(['in order', 'in reverse'], 'they complete') === 'in reverse') sets.reverse()
			const model = new Map([[k, cur], [k2, cur]])
			for (const [i, s] of sets.entries()) {
				const out = i ? I.pick(['a value', 'undefined', 'nothing', 'failure'], 'outcome of the last') : I.pick(['a value', 'undefined', 'failure'], 'outcome of the first')
				if (out === 'failure') yield* I.reject(s.d, I.atom(`error ${i}`, M.OBJ))
				else yield* I.fulfill(s.d, out === 'a value' ? s.v : out === 'nothing' ? nothing : undefined)
				const r = yield* I.settle(s.r)
				I.ok(r.state === (out === 'failure' ? 'rejected' : 'fulfilled'), 'the promise of a set settles with its handler', r.state)
				if (out !== 'failure') model.set(s.k, out === 'a value' ? s.v : undefined)
				for (const x of new Set([k, k2])) I.eq(yield* prefs(I, app, route, 'get', x), model.get(x), 'each completion decides the value of its key')
			}
		}),
		...over(BACKENDS, 'a set completing after clearAll() is in force', function* (I, backend) {
			const app = yield* prefsApp(I, backend)
			const k = I.key('key 1')
			yield* prefs(I, app, 'api', 'set', k, I.str('old value'))
			const d = I.deferred()
			const v = I.str('value')
			yield* prefs(I, app, 'api', 'set', k, I.fn('handler', function* () {
				return d
			}))
			yield* prefs(I, app, 'api', 'clearAll')
			I.eq(yield* prefs(I, app, 'api', 'get', k), undefined, 'clearAll() removes the value')
			yield* I.fulfill(d, v)
			yield* I.drain()
			I.eq(yield* prefs(I, app, 'api', 'get', k), v, 'the set completed last decides')
		}),
		...over(BACKENDS, 'a handler that fails changes nothing', function* (I, backend) {
			const app = yield* prefsApp(I, backend)
			const k = I.key('key 1')
			const cur = I.str('old value')
			yield* prefs(I, app, 'api', 'set', k, cur)
			const err = I.atom('error', M.OBJ)
			const mode = I.pick(['throws', 'rejects'], 'failure')
			const d = I.deferred()
			const f = I.fn('handler', function* () {
				if (mode === 'throws') yield* I.throw(err)
				return d
			})
			const r = yield* I.attempt(prefs(I, app, 'api', 'set', k, f))
			if (mode === 'throws') {
				I.ok(r.threw === true, 'the caller sees the error', 'set() returns')
				if (r.threw) I.eq(r.value, err, 'the caller sees the error thrown')
			} else {
				yield* I.reject(d, err)
				const s = yield* I.settle(r.value)
				if (I.ok(s.state === 'rejected', 'the caller sees the rejection', s.state)) I.eq(s.value, err, 'the caller sees the reason')
			}
			I.eq(yield* prefs(I, app, 'api', 'get', k), cur, 'the value is kept')
		})
	]
}

export const P03 = {
	theorems: [
		{
			name: 'apps sharing a storage keep their preferences apart',
			stages: [
				function* (I) {
					const storage = I.storage('the storage')
					const alike = I.pick(['any', 'my.app and my-app', 'App and app', '@a/b and @a/bc', 'a b and a', 'a+b and aab', '(a and a', '[ab] and a', '^ and $', 'a%20b and a b', 'a and aa'], 'names')
					if (alike !== 'any') {
						const [na, nb] = alike.split(' and ')
						return I.pick(['in order', 'in reverse'], 'apps') === 'in order' ? { storage, na, nb } : { storage, na: nb, nb: na }
					}
					const [na, nb] = [I.word('name A', NAME), I.word('name B', NAME)]
					I.assumeNe(na, nb)
					return { storage, na, nb }
				},
				function* (I, { storage, na, nb }) {
					const a = yield* prefsApp(I, 'browser', { name: na, storage })
					const b = yield* prefsApp(I, 'browser', { name: nb, storage })
					const k = I.key('key 1')
					const k2 = I.pick(['same key', 'another key'], 'key of B') === 'same key' ? k : I.key('key 2')
					const [va, vb] = [I.str('value of A'), I.str('value of B')]
					yield* prefs(I, a, 'api', 'set', k, va)
					I.eq(yield* prefs(I, b, 'api', 'get', k2), undefined, 'a value of one app is no value of the other')
					yield* prefs(I, b, 'api', 'set', k2, vb)
					I.eq(yield* prefs(I, a, 'api', 'get', k), va, 'setting in one app keeps the value of the other')
					I.eq(yield* prefs(I, b, 'api', 'get', k2), vb, 'each app reads its own value')
					const who = I.pick(['A', 'B'], 'clears') === 'A'
					if (I.pick(['clearAll', 'remove'], 'by') === 'remove') yield* prefs(I, who ? a : b, 'api', 'set', who ? k : k2, undefined)
					else yield* prefs(I, who ? a : b, 'api', 'clearAll')
					I.eq(yield* prefs(I, a, 'api', 'get', k), who ? undefined : va, 'clearing removes the values of that app only')
					I.eq(yield* prefs(I, b, 'api', 'get', k2), who ? vb : undefined, 'clearing removes the values of that app only')
				}
			]
		},
		{
			name: 'clearAll() removes every preference of the app and no other entry of the storage',
			stages: [
				function* (I) {
					const name = I.word('app name', NAME)
					const other = I.word('other name', NAME)
					I.assumeNe(name, other)
					return { name, other }
				},
				function* (I, { name, other }) {
					const [k1, k2] = [I.key('key 1'), I.key('key 2')]
					const kinds = {
						mine: [I.concat(name, ':', k1), true],
						'mine too': [I.concat(name, ':', k2), true],
						'of another app': [I.concat(other, ':', I.key('key o')), false],
						'of an app whose name ends alike': [I.concat('x-', name, ':', I.key('key a')), false],
						'of an app whose name begins alike': [I.concat(name, '-x', ':', I.key('key b')), false],
						'without a namespace': [I.word('plain key', NAME), false]
					}
					const labels = Object.keys(kinds)
					const n = I.choose(['none', 'one', 'two', 'three'], 'entries')
					const entries = []
					let rest = labels
					for (let i = 0; i < n; i++) {
						const l = I.pick(rest, `entry ${i}`)
						rest = rest.filter(x => x !== l)
						entries.push({ l, k: kinds[l][0], mine: kinds[l][1], v: I.str(`value of ${l}`) })
					}
					const storage = I.storage('the storage', { entries: entries.filter(e => !e.mine).map(e => [e.k, e.v]) })
					const app = yield* prefsApp(I, 'browser', { name, storage })
					for (const e of entries.filter(e => e.mine)) yield* prefs(I, app, 'api', 'set', e.l === 'mine' ? k1 : k2, e.v)
					yield* prefs(I, app, 'api', 'clearAll')
					for (const e of entries) {
						if (e.mine) I.eq(yield* prefs(I, app, 'api', 'get', e.l === 'mine' ? k1 : k2), undefined, 'every preference of the app is gone')
						else I.eq(yield* I.m(storage, 'getItem', e.k), e.v, 'entries of others stay as they are')
					}
				}
			]
		},
		{
			name: 'clearAll() does not depend on the order of the entries',
			stages: [
				function* (I) {
					const name = I.word('app name', NAME)
					const plain = I.word('plain key', NAME)
					const storage = I.storage('the storage')
					const app = yield* prefsApp(I, 'browser', { name, storage })
					const ks = ['key 1', 'key 2', 'key 3', 'key 4'].map(n => I.key(n))
					const at = I.choose(['0', '1', '2', '3', '4'], 'position of the foreign entry')
					const v = I.str('foreign value')
					for (let i = 0; i <= 4; i++) {
						if (i === at) yield* I.m(storage, 'setItem', plain, v)
						if (i < 4) yield* prefs(I, app, 'api', 'set', ks[i], I.str(`value ${i}`))
					}
					yield* prefs(I, app, 'api', 'clearAll')
					for (const k of ks) I.eq(yield* prefs(I, app, 'api', 'get', k), undefined, 'every preference of the app is gone')
					I.eq(yield* I.m(storage, 'getItem', plain), v, 'entries of others stay as they are')
				}
			]
		},
		{
			name: 'entries of others stay, whatever they are called, and however many there are',
			stages: [
				function* (I) {
					const name = 'app'
					const storage = I.storage('the storage')
					const app = yield* prefsApp(I, 'browser', { name, storage })
					const what = I.pick(['odd entries', 'odd entries first', 'a great many', 'only preferences', 'another app'], 'entries')
					const foreign = what.startsWith('odd') ? ['', ':', ' ', 'key', '__proto__', 'constructor', ':key', 'App:key', ' app:key', 'app', 'app.key', 'app/key', 'app-:key', 'app2:key', 'myapp:key', '0', 'length', 'undefined', 'null'] : what === 'a great many' ? Array.from({ length: 130 }, (_, i) => `entry ${i}`) : []
					const keys = what === 'a great many' || what === 'only preferences' ? Array.from({ length: what === 'only preferences' ? 1100 : 130 }, (_, i) => `key ${i}`) : ['', 'key', ':', 'a:b', '__proto__', 'a b', 'app', 'length', '0']
					const big = what === 'a great many'
					const vs = new Map(foreign.map(k => [k, big ? `value of entry ${k}` : I.str(`value of entry ${k}`)]))
					const mine = new Map(keys.map(k => [k, big || what === 'only preferences' ? `value of ${k}` : I.str(`value of ${k}`)]))
					const other = what === 'another app' ? yield* prefsApp(I, 'browser', { name: 'other', storage }) : null
					const put = function* () {
						for (const [k, v] of vs) yield* I.m(storage, 'setItem', k, v)
					}
					const set = function* (a) {
						for (const [k, v] of mine) yield* prefs(I, a, 'api', 'set', k, v)
					}
					if (what !== 'odd entries') yield* put()
					yield* set(app)
					if (other) yield* set(other)
					if (what === 'odd entries') yield* put()
					for (const [k, v] of mine) I.eq(yield* prefs(I, app, 'api', 'get', k), v, 'each preference has its value')
					const first = keys[0]
					yield* prefs(I, app, 'api', 'set', first, undefined)
					I.eq(yield* prefs(I, app, 'api', 'get', first), undefined, 'a preference can be removed')
					for (const k of keys.slice(1)) I.eq(yield* prefs(I, app, 'api', 'get', k), mine.get(k), 'which keeps the others')
					for (const [k, v] of vs) I.eq(yield* I.m(storage, 'getItem', k), v, 'setting and removing keeps entries of others')
					yield* prefs(I, app, 'api', 'clearAll')
					for (const k of keys) I.eq(yield* prefs(I, app, 'api', 'get', k), undefined, 'every preference of the app is gone')
					for (const [k, v] of vs) I.eq(yield* I.m(storage, 'getItem', k), v, 'entries of others stay as they are')
					if (other) for (const [k, v] of mine) I.eq(yield* prefs(I, other, 'api', 'get', k), v, 'preferences of another app stay as they are')
				}
			]
		},
		{
			name: 'an app whose name continues that of another past a colon',
			stages: [
				function* (I) {
					const storage = I.storage('the storage')
					const a = yield* prefsApp(I, 'browser', { name: 'a', storage })
					const b = yield* prefsApp(I, 'browser', { name: 'a:b', storage })
					const v = I.str('value')
					const who = I.pick(['the shorter name clears', 'the shorter name reads'], 'then')
					yield* prefs(I, b, 'api', 'set', 'key', v)
					if (who === 'the shorter name clears') {
						yield* prefs(I, a, 'api', 'clearAll')
						I.eq(yield* prefs(I, b, 'api', 'get', 'key'), v, 'clearing one keeps the preferences of the other')
					} else I.eq(yield* prefs(I, a, 'api', 'get', 'b:key'), undefined, 'a preference of one is no preference of the other')
				}
			]
		}
	]
}

/** JSON values a store can hold; mk() makes a fresh one each time */
function* jsonValue(I, label, tag) {
	switch (label) {
		case 'text': return I.str(`text ${tag}`)
		case 'empty text': return ''
		case 'true': return true
		case 'empty object': return I.obj({})
		case 'empty list': return I.arr([])
		case 'number': return I.val(`number ${tag}`, M.NUM)
		case 'false': return false
		case 'zero': return 0
		case 'null': return null
		case 'object': return I.obj({ p: I.str(`p ${tag}`), q: I.obj({ r: I.val(`r ${tag}`, M.NUM) }) })
		case 'list': return I.arr([I.str(`first ${tag}`), I.obj({ r: I.str(`r ${tag}`) })])
	}
}
/** a and b are the same JSON value */
export function* jsonEq(I, a, b, msg) {
	const flat = function* (v, d = 0) {
		v = I.resolve(v)
		if (!I.isRef(v) || d > 4) return [v]
		const out = []
		const x = I.rd(v)
		if (x.kind === 'array') {
			out.push('[')
			for (const e of yield* I.elems(v)) out.push(...(yield* flat(e, d + 1)))
			out.push(']')
			return out
		}
		out.push('{')
		for (const k of (yield* I.keys(v)).slice().sort()) {
			if (I.isMany(k)) return [v]
			out.push(k, ...(yield* flat(yield* I.get(v, k), d + 1)))
		}
		out.push('}')
		return out
	}
	const [x, y] = [yield* flat(a), yield* flat(b)]
	return I.listEq(x, y, msg)
}
/** a is the JSON value b, whose members are known; says where it is not */
function* jsonSame(I, a, b, msg, where = '') {
	a = I.resolve(a)
	b = I.resolve(b)
	if (!I.isRef(b)) return I.eq(a, b, `${msg}${where && ` (${where})`}`)
	if (!I.ok(I.isRef(a) && I.rd(a).kind === I.rd(b).kind && I.rd(a).cls === I.rd(b).cls, `${msg}${where && ` (${where})`}`, `got ${I.show(a)}, expected ${I.show(b)}`)) return false
	if (I.rd(b).kind === 'array') {
		const [x, y] = [yield* I.elems(a), yield* I.elems(b)]
		if (!I.ok(x.length === y.length && !x.some(I.isMany), `${msg}${where && ` (${where})`}`, `got ${x.length} elements, expected ${y.length}`)) return false
		for (let i = 0; i < y.length; i++) if (!(yield* jsonSame(I, x[i], y[i], msg, `${where}[${i}]`))) return false
		return true
	}
	if (!I.listEq((yield* I.keys(a)).slice().sort(), (yield* I.keys(b)).slice().sort(), `${msg}${where && ` (${where})`}`)) return false
	for (const k of yield* I.keys(b)) if (!(yield* jsonSame(I, yield* I.get(a, k), yield* I.get(b, k), msg, `${where}.${k}`))) return false
	return true
}
const VALUES = ['text', 'empty text', 'number', 'true', 'false', 'zero', 'null', 'object', 'empty object', 'list', 'empty list']

export const P05 = {
	theorems: [
		...BACKENDS.map(backend => ({
			name: `a preference store gives back the value stored, else its default [${backend}]`,
			stages: [
				function* (I) {
					const app = yield* prefsApp(I, backend)
					const k = I.key('key 1')
					const withDefault = I.pick(['without default', 'with default'], 'store') === 'with default'
					const dl = withDefault ? I.pick(['null', 'zero', 'false', 'empty text', 'object', 'list'], 'default') : null
					const def = withDefault ? yield* jsonValue(I, dl, 'default') : undefined
					const store = yield* I.m(yield* I.get(app, 'preferences'), 'createStore', k, ...(withDefault ? [def] : []))
					yield* jsonEq(I, yield* I.m(store, 'get'), def, 'before any set: get() gives the default')
					return { app, k, def, store }
				},
				function* (I, p) {
					const v = yield* jsonValue(I, I.pick(VALUES, 'value'), 'next')
					yield* storeSet(I, p.store, v, I.pick(KINDS, 'set'), p.def)
					yield* jsonEq(I, yield* I.m(p.store, 'get'), v, 'get() gives the value set')
					const again = yield* I.m(yield* I.get(p.app, 'preferences'), 'createStore', p.k)
					yield* jsonEq(I, yield* I.m(again, 'get'), v, 'another store of the same key gives it too')
					const elsewhere = yield* I.m(yield* I.get(p.app, 'preferences'), 'createStore', I.key('key 2'))
					I.eq(yield* I.m(elsewhere, 'get'), undefined, 'a store of another key does not')
					return { ...p, v, again }
				},
				function* (I, { store, def, v, again }) {
					const l2 = I.pick(['false', 'object', 'removed by undefined', 'removed by nothing'], 'second value')
					if (l2.startsWith('removed')) {
						if (l2 === 'removed by undefined') yield* I.m(store, 'set', undefined)
						else {
							const nothing = yield* I.imp(PKG('states'), 'nothing')
							yield* I.m(store, 'set', I.fn('handler', function* () {
								return nothing
							}))
						}
						yield* jsonEq(I, yield* I.m(store, 'get'), def, 'once removed: get() gives the default')
						I.eq(yield* I.m(again, 'get'), undefined, 'once removed: a store without default has no value')
					} else {
						const w = yield* jsonValue(I, l2, 'second')
						yield* storeSet(I, store, w, I.pick(KINDS, 'second set'), v)
						yield* jsonEq(I, yield* I.m(store, 'get'), w, 'get() gives the value set last')
					}
				}
			]
		})),
		...over(BACKENDS, 'texts that look like something else, and values within values', function* (I, backend) {
			const app = yield* prefsApp(I, backend)
			const mk = () => I.obj({
				dates: I.arr(['2020-01-01', '2020-01-01T00:00:00.000Z', '1e3', '12', '-0', 'NaN', 'null', 'true', 'undefined', '{}', '[1]', '"', '\\', '\n', ' text ', '', 'ABC', '%20', '<a>', 'a:b', '\u00e9']),
				numbers: I.arr([0, -1, 1.5, 1e21, 1e-7, 9007199254740991]),
				nested: I.arr([I.arr([]), I.arr([I.arr([1, '1'])]), I.obj({}), I.obj({ a: I.obj({ b: I.arr([null, false, true]) }) })]),
				'': 1, 'a b': 2, 'a.b': 3, toJSON: null, length: 3, type: 'Buffer', data: I.arr([1]), $ref: 'x', then: 1, constructor: 'c'
			})
			const k = I.pick(['key', 'a date: 2020-01-01'], 'key')
			const p = yield* I.get(app, 'preferences')
			const def = I.pick(['no default', 'a default'], 'store') === 'a default' ? mk() : undefined
			const store = yield* I.m(p, 'createStore', k, ...(def ? [def] : []))
			const how = I.pick([...KINDS, 'edited in place'], 'set')
			const want = mk()
			if (how === 'edited in place') {
				yield* I.m(store, 'set', mk())
				const n = I.str('text')
				yield* I.m(store, 'set', I.fn('handler', function* (args) {
					yield* I.set(yield* I.get(args[0], 'nested', '3', 'a'), 'b', n)
				}))
				yield* I.set(yield* I.get(want, 'nested', '3', 'a'), 'b', n)
			} else yield* storeSet(I, store, mk(), how, def)
			yield* jsonSame(I, yield* I.m(store, 'get'), want, 'get() gives the value stored')
			const again = yield* I.m(p, 'createStore', k)
			yield* jsonSame(I, yield* I.m(again, 'get'), want, 'another store of the same key gives it too')
			const alone = I.pick(['2020-01-01', '12', 'null', '{}', '', ' a '], 'a text of its own')
			yield* I.m(again, 'set', alone)
			I.eq(yield* I.m(store, 'get'), alone, 'a text is given back as that text')
		}),
		...over(BACKENDS, 'a store follows what happens to its preference', function* (I, backend) {
			const app = yield* prefsApp(I, backend)
			const p = yield* I.get(app, 'preferences')
			const k = I.key('key 1')
			const def = I.pick(['none', 'a text'], 'default') === 'none' ? undefined : I.str('default')
			const args = def === undefined ? [] : [def]
			const a = yield* I.m(p, 'createStore', k, ...args)
			const b = yield* I.m(p, 'createStore', k, ...args)
			let cur = def
			for (let i = 1; i <= (I.deep ? 4 : 3); i++) {
				const how = I.pick(['set', 'set in the other store', 'set by preferences.set()', ...(i === 1 && !I.deep ? [] : ['set by a handler', 'removed by preferences.set()', 'clearAll()', 'set for another key'])], `step ${i}`)
				const v = `value ${i}`
				if (how === 'set') yield* I.m(a, 'set', v)
				else if (how === 'set by a handler') yield* storeSet(I, a, v, 'by a handler', cur)
				else if (how === 'set in the other store') yield* I.m(b, 'set', v)
				else if (how === 'set by preferences.set()') yield* I.m(p, 'set', k, JSON.stringify(v))
				else if (how === 'removed by preferences.set()') yield* I.m(p, 'set', k, undefined)
				else if (how === 'clearAll()') yield* I.m(p, 'clearAll')
				else yield* I.m(p, 'set', I.key('key 2'), '"other"')
				if (how.startsWith('removed') || how === 'clearAll()') cur = def
				else if (!how.endsWith('another key')) cur = v
				I.eq(yield* I.m(a, 'get'), cur, 'a store gives the value in force')
				I.eq(yield* I.m(b, 'get'), cur, 'and so does another store of that key')
			}
		}),
		...over(BACKENDS, 'each store of a key has its own default', function* (I, backend) {
			const app = yield* prefsApp(I, backend)
			const p = yield* I.get(app, 'preferences')
			const k = I.key('key 1')
			const [d1, d2] = [I.pick(['text', 'false'], 'first default') === 'text' ? I.str('default 1') : false, I.str('default 2')]
			const a = yield* I.m(p, 'createStore', k, d1)
			const b = yield* I.m(p, 'createStore', k, d2)
			I.eq(yield* I.m(b, 'get'), d2, 'a store gives its own default')
			I.eq(yield* I.m(a, 'get'), d1, 'a store gives its own default')
			const out = I.pick(['directly', 'by a handler', 'not'], 'set in the other store')
			const v = I.pick(['a value', 'the default of the other', 'its default'], 'value') 
			const x = v === 'a value' ? I.str('value') : v === 'its default' ? d2 : d1
			if (out === 'directly') yield* I.m(b, 'set', x)
			if (out === 'by a handler') yield* storeSet(I, b, x, out, d2)
			I.eq(yield* I.m(a, 'get'), out === 'not' ? d1 : x, 'a value set is in force in every store of the key')
			I.eq(yield* I.m(b, 'get'), out === 'not' ? d2 : x, 'a value set is in force in every store of the key')
			yield* I.m(a, 'set', undefined)
			I.eq(yield* I.m(b, 'get'), d2, 'once removed each gives its default again')
			I.eq(yield* I.m(a, 'get'), d1, 'once removed each gives its default again')
		}),
		...over(BACKENDS, 'a handler may edit the value in place', function* (I, backend) {
			const app = yield* prefsApp(I, backend)
			const k = I.key('key 1')
			const from = I.pick(['default', 'stored'], 'value in force')
			const def = I.obj({ p: I.str('p default'), q: I.obj({ r: I.str('r default') }) })
			const store = yield* I.m(yield* I.get(app, 'preferences'), 'createStore', k, def)
			if (from === 'stored') yield* I.m(store, 'set', I.obj({ p: I.str('p stored'), q: I.obj({ r: I.str('r stored') }) }))
			const d = I.pick(['sync', 'async'], 'handler') === 'async' ? I.deferred() : null
			const deep = I.pick(['p', 'q.r'], 'edited member') !== 'p'
			const n = I.str('edited')
			const r = yield* I.m(store, 'set', I.fn('handler', function* (args) {
				yield* I.set(deep ? yield* I.get(args[0], 'q') : args[0], deep ? 'r' : 'p', n)
				return d ?? undefined
			}))
			if (d) {
				yield* I.fulfill(d, undefined)
				const s = yield* I.settle(r)
				I.ok(s.state === 'fulfilled', 'the returned promise resolves', s.state)
			}
			const old = from === 'default' ? 'default' : 'stored'
			const want = I.obj({ p: deep ? I.str(`p ${old}`) : n, q: I.obj({ r: deep ? n : I.str(`r ${old}`) }) })
			yield* jsonEq(I, yield* I.m(store, 'get'), want, 'the edited value is in force')
			const again = yield* I.m(yield* I.get(app, 'preferences'), 'createStore', k)
			yield* jsonEq(I, yield* I.m(again, 'get'), want, 'the edited value is stored')
			yield* jsonEq(I, def, I.obj({ p: I.str('p default'), q: I.obj({ r: I.str('r default') }) }), 'the default of the caller is not modified')
		}),
		...over(BACKENDS, 'members of the gizmo other than this work when taken off it', function* (I, backend) {
			const app = yield* prefsApp(I, backend)
			const p = yield* I.get(app, 'preferences')
			const [get, set] = [yield* I.get(p, 'get'), yield* I.get(p, 'set')]
			const store = yield* I.m(p, 'createStore', I.key('key 1'))
			const [sget, sset] = [yield* I.get(store, 'get'), yield* I.get(store, 'set')]
			const v = I.str('value')
			yield* I.call(sset, v)
			I.eq(yield* I.call(sget), v, 'get() and set() of a store can be used as functions')
			yield* I.call(set, I.key('key 2'), v)
			I.eq(yield* I.call(get, I.key('key 2')), v, 'get() and set() can be used as functions')
		})
	]
}
function* storeSet(I, store, v, how, old) {
	if (how === 'directly') return yield* I.m(store, 'set', v)
	const d = how === 'by an asynchronous handler' ? I.deferred() : null
	const f = I.fn('handler', function* () {
		return d ?? v
	})
	const m = I.mark()
	const r = yield* I.m(store, 'set', f)
	const c = I.calls(m, f)
	if (I.ok(c.length === 1, 'the handler runs once', `it runs ${c.length} times`)) yield* jsonEq(I, c[0].args[0], old, 'with the value in force')
	if (d) {
		yield* I.fulfill(d, v)
		const s = yield* I.settle(r)
		I.ok(s.state === 'fulfilled', 'the returned promise resolves', s.state)
	}
}

export const P06 = {
	theorems: [
		...over(BACKENDS, 'the promise of a set completes after the write', function* (I, backend) {
			const app = yield* prefsApp(I, backend)
			const route = I.pick(['api', 'command', 'invoke', 'store'], 'client')
			const k = I.key('key 1')
			const v = I.str('value')
			const d = I.deferred()
			const f = I.fn('handler', function* () {
				return d
			})
			const store = yield* I.m(yield* I.get(app, 'preferences'), 'createStore', k)
			const read = function* () {
				return route === 'store' ? yield* I.m(store, 'get') : yield* prefs(I, app, route, 'get', k)
			}
			const r = route === 'store' ? yield* I.m(store, 'set', f) : yield* prefs(I, app, route, 'set', k, f)
			I.eq(yield* read(), undefined, 'the write waits for the handler')
			if (!I.ok(I.isPromise(r), 'an asynchronous set gives a promise', I.show(r))) return
			let seen = 'never'
			let early = false
			let released = false
			yield* I.whenSettled(r, function* () {
				early = !released
				seen = yield* read()
			})
			yield* I.drain()
			released = true
			yield* I.fulfill(d, v)
			yield* I.drain()
			I.ok(!early, 'the promise does not complete before the handler', '')
			I.eq(seen, v, 'when the promise completes the value is in force')
		}),
		...over(BACKENDS, 'a set that fails rejects', function* (I, backend) {
			const app = yield* prefsApp(I, backend)
			const err = I.atom('error', M.OBJ)
			const d = I.deferred()
			const store = I.pick(['preferences', 'store'], 'client') === 'store'
			const f = I.fn('handler', function* () {
				return d
			})
			const k = I.key('key 1')
			const s0 = store ? yield* I.m(yield* I.get(app, 'preferences'), 'createStore', k) : null
			const old = I.pick(['unset', 'set'], 'before') === 'set' ? I.str('old value') : undefined
			if (old !== undefined) yield* store ? I.m(s0, 'set', old) : prefs(I, app, 'api', 'set', k, old)
			const read = function* () {
				return store ? yield* I.m(s0, 'get') : yield* prefs(I, app, 'api', 'get', k)
			}
			const r = store ? yield* I.m(s0, 'set', f) : yield* prefs(I, app, 'api', 'set', k, f)
			I.eq(yield* read(), old, 'until then the value is the one before')
			yield* I.reject(d, err)
			const s = yield* I.settle(r)
			if (I.ok(s.state === 'rejected', 'the promise is rejected', s.state)) I.eq(s.value, err, 'with the reason of the handler')
			I.eq(yield* read(), old, 'the value stays as it was')
		}),
		{
			name: 'a value that cannot be written is reported to the caller [browser]',
			stages: [
				function* (I) {
					const err = I.atom('quota exceeded', M.OBJ)
					const old = I.str('old value')
					// a storage that works until it is full
					const real = I.storage('the storage')
					const refusal = I.pick(['new values', 'all changes'], 'then the storage refuses')
					let full = false
					const pass = name =>
						I.fn(name, function* (args) {
							return yield* I.m(real, name, ...args)
						})
					const refuse = name =>
						I.fn(name, function* (args) {
							if (full && (name === 'setItem' || refusal === 'all changes')) yield* I.throw(err)
							return yield* I.m(real, name, ...args)
						})
					const storage = I.obj({ length: 0, getItem: pass('getItem'), key: pass('key'), setItem: refuse('setItem'), removeItem: refuse('removeItem') })
					const app = yield* prefsApp(I, 'browser', { storage })
					const mode = I.pick(['directly', 'by a handler', 'by an asynchronous handler'], 'set')
					const outcome = I.pick(refusal === 'new values' ? ['a value', 'the empty string'] : ['a value', 'the empty string', 'removed'], 'outcome')
					const client = I.pick(['api', 'command', 'invoke', 'store'], 'client')
					const k = I.key('key 1')
					const store = client === 'store' ? yield* I.m(yield* I.get(app, 'preferences'), 'createStore', k) : null
					const read = function* () {
						return store ? yield* I.m(store, 'get') : yield* prefs(I, app, client, 'get', k)
					}
					const write = function* (v) {
						return store ? yield* I.m(store, 'set', v) : yield* prefs(I, app, client, 'set', k, v)
					}
					const had = I.pick(['unset', 'set'], 'before') === 'set'
					if (had) yield* write(old)
					else if (outcome === 'removed' && !store) I.stop()
					const before = yield* read()
					I.eq(before, had ? old : undefined, 'while the storage works, values are written')
					full = true
					const v = outcome === 'a value' ? I.str('value') : outcome === 'the empty string' ? '' : undefined
					const given = outcome === 'removed' && mode !== 'directly' ? yield* I.imp(PKG('states'), 'nothing') : v
					const d = I.deferred()
					const f = mode === 'directly' ? v : I.fn('handler', function* () {
						return mode === 'by a handler' ? given : d
					})
					const r = yield* I.attempt(write(f))
					yield* I.fulfill(d, given)
					const s = r.threw ? { state: 'rejected', value: r.value } : yield* I.settle(r.value)
					if (I.ok(s.state === 'rejected', 'the caller learns that the write failed', s.state)) I.eq(s.value, err, 'with the error of the storage')
					I.eq(yield* read(), before, 'the value in force is still the one before')
					full = false
					const w = I.str('later value')
					yield* write(w)
					I.eq(yield* read(), w, 'once the storage works again values are written')
				}
			]
		}
	]
}

export const P07 = {
	theorems: [
		...['memory then memory', 'browser then browser', 'memory then browser', 'browser then memory'].map(pair => ({
			name: `the preferences of each app are its own [${pair}]`,
			stages: [
				function* (I) {
					const [x, y] = pair.split(' then ')
					const [na, nb] = [I.word('name A', NAME), I.word('name B', NAME)]
					I.assumeNe(na, nb)
					return { x, y, na, nb: I.pick(['of their own', 'the same'], 'names') === 'the same' ? na : nb }
				},
				function* (I, { x, y, na, nb }) {
					const k = I.key('key 1')
					const [va, vb, d] = [I.str('value of A'), I.str('value of B'), I.str('default')]
					const a = yield* prefsApp(I, x, { name: na, storage: I.storage('storage A') })
					const order = I.pick(['A sets before B exists', 'A sets after B exists'], 'history')
					const route = I.pick(['api', 'invoke', 'store'], 'client')
					const set = function* (app, v) {
						if (route === 'store') yield* I.m(yield* I.m(yield* I.get(app, 'preferences'), 'createStore', k), 'set', v)
						else yield* prefs(I, app, route, 'set', k, v)
					}
					const get = function* (app) {
						if (route === 'store') return yield* I.m(yield* I.m(yield* I.get(app, 'preferences'), 'createStore', k, d), 'get')
						return yield* prefs(I, app, route, 'get', k, d)
					}
					if (order === 'A sets before B exists') yield* set(a, va)
					const b = yield* prefsApp(I, y, { name: nb, storage: I.storage('storage B') })
					if (order !== 'A sets before B exists') yield* set(a, va)
					I.eq(yield* get(b), d, 'a value set in one app is not in the other')
					I.eq(yield* get(a), va, 'and is still in its own')
					yield* set(b, vb)
					I.eq(yield* get(a), va, 'setting in the other app changes nothing')
					I.eq(yield* get(b), vb, 'each app reads its own')
					yield* prefs(I, a, route === 'store' ? 'api' : route, 'clearAll')
					I.eq(yield* get(a), d, 'clearing an app clears its values')
					I.eq(yield* get(b), vb, 'clearing an app keeps those of the other')
				}
			]
		})),
		...['memory', 'browser'].map(backend => ({
			name: `an app whose preferences are kept nowhere has none of another app [${backend}]`,
			stages: [
				function* (I) {
					const k = I.key('key 1')
					const [va, vb] = ['value of A', I.str('value of B')]
					const bare = function* () {
						return yield* incubateApp(I, [yield* gizmo(I, 'commands', 'commandsGizmoFn'), yield* I.imp(PKG('preferences'), 'preferencesGizmo')], { name: 'b' })
					}
					const first = I.pick(['first', 'last'], 'the app without is made') === 'first'
					let b = first ? yield* bare() : null
					const a = yield* prefsApp(I, backend, { name: 'a', storage: I.storage('storage A') })
					yield* prefs(I, a, 'api', 'set', k, va)
					b ??= yield* bare()
					const route = I.pick(['api', 'invoke', 'store'], 'client')
					const s = yield* I.m(yield* I.get(b, 'preferences'), 'createStore', k, 'default')
					const got = route === 'store' ? yield* I.attempt(I.m(s, 'get')) : yield* I.attempt(prefs(I, b, route, 'get', k))
					if (!got.threw) I.ne(got.value, va, 'a value set in another app is not read')
					if (route === 'store') yield* I.attempt(I.m(s, 'set', 'other'))
					else yield* I.attempt(prefs(I, b, route, 'set', k, vb))
					I.eq(yield* prefs(I, a, 'api', 'get', k), va, 'setting changes nothing in another app')
					yield* I.attempt(prefs(I, b, route === 'store' ? 'api' : route, 'clearAll'))
					I.eq(yield* prefs(I, a, 'api', 'get', k), va, 'clearing changes nothing in another app')
				}
			]
		}))
	]
}
