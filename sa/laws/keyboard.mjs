import { M } from '../core.mjs'
import { PKG, SEVERE, WARNING, appLog, gizmo, incubateApp } from './kit.mjs'

const KEYCHARS = /[A-Z0-9]/
/** bindings in force after the recorded Mousetrap operations: last bind of a combination wins */
function* table(I, mark) {
	let t = []
	for (const e of I.since(mark, e => e.t === 'mousetrap')) {
		if (e.op === 'reset') t = []
		else if (e.op === 'bind' || e.op === 'bindGlobal') {
			const combos = I.isRef(e.args[0]) ? yield* I.elems(e.args[0]) : [e.args[0]]
			for (const c of combos) {
				t = t.filter(x => I.eq3(x.combo, c) !== true)
				t.push({ combo: c, fn: e.args[1] })
			}
		} else if (e.op === 'unbind') {
			const combos = I.isRef(e.args[0]) ? yield* I.elems(e.args[0]) : [e.args[0]]
			t = t.filter(x => !combos.some(c => I.eq3(x.combo, c) === true))
		}
	}
	return t
}
/** the combination a contribution denotes, in the spelling Mousetrap understands */
function combo(I, parts) {
	return I.concat(...parts.map(p => (typeof p === 'string' ? p.replaceAll('cmd+', 'meta+') : p)))
}
/** the combination Mousetrap was given: meta and command are aliases there, cmd is not known to it */
function given(I, v) {
	return I.concat(...partsOf(I, v).map(p => (typeof p === 'string' ? p.replaceAll('command+', 'meta+') : p)))
}
const partsOf = (I, v) => {
	v = I.resolve(v)
	return I.isSym(v) && v.op === 'str' ? v.args : [v]
}
function* setup(I, { contributions, mac }) {
	const opts = I.obj({ keyBindingContributions: I.arr(contributions) })
	const isMac = I.fn('isMac', function* () {
		return mac
	})
	const gs = [
		yield* gizmo(I, 'keyboard', 'keyboardGizmoFn', opts),
		yield* gizmo(I, 'commands', 'commandsGizmoFn'),
		yield* gizmo(I, 'os', 'osTestGizmoFn', I.obj({ isMac }), './testing'),
		yield* I.imp(PKG('browser-keyboard'), 'browserKeyboardGizmo')
	]
	return yield* incubateApp(I, gs)
}
/** key specifications: [default parts | null, mac parts | null] */
function keySpecs(I) {
	const k1 = I.word('K1', KEYCHARS)
	const k2 = I.word('K2', KEYCHARS)
	I.assumeNe(k1, k2)
	return {
		'K1': [[k1], null],
		'ctrl+K1': [['ctrl+', k1], null],
		'ctrl+K1, mac cmd+K1': [['ctrl+', k1], ['cmd+', k1]],
		'mac cmd+K1 only': [null, ['cmd+', k1]],
		'mac cmd+K1 cmd+K2 only': [null, ['cmd+', k1, ' cmd+', k2]],
		'cmd+K2': [['cmd+', k2], null],
		'ctrl+K2': [['ctrl+', k2], null],
		'no key': [null, null],
		'shift+cmd+K1 K2': [['shift+cmd+', k1, ' ', k2], null],
		'K1 cmd+K2, mac cmd+alt+K1 ctrl+cmd+K2': [[k1, ' cmd+', k2], ['cmd+alt+', k1, ' ctrl+cmd+', k2]]
	}
}
function* contribution(I, id, spec) {
	const c = I.obj({ id })
	if (spec[0]) yield* I.set(c, 'key', I.concat(...spec[0]))
	if (spec[1]) yield* I.set(c, 'mac', I.concat(...spec[1]))
	return c
}
const effective = (spec, mac) => (mac ? (spec[1] ?? spec[0]) : spec[0])
/** what the table should be for contributions [{id, spec}] in order */
function expected(I, list, mac) {
	const out = []
	let dups = 0
	for (const { id, spec } of list) {
		const p = effective(spec, mac)
		if (!p) continue
		const c = combo(I, p)
		if (out.some(x => I.eq3(x.combo, c) === true)) dups++
		else out.push({ id, combo: c })
	}
	return { out, dups }
}
function* checkTable(I, app, mark, list, mac, ids, what, events = ['an event', 'an event of an old browser', 'an event while the key is held', 'an event somebody handled']) {
	const t = yield* table(I, mark)
	const { out } = expected(I, list, mac)
	const got = t.map(x => given(I, x.combo))
	if (!I.bagEq(got, out.map(x => x.combo), `${what}: exactly the combinations contributed for this platform are bound`)) return
	const handlers = []
	for (const id of ids) {
		const h = I.fn(`handler of ${I.show(id)}`, function* () {})
		yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'register', id, h)
		handlers.push({ id, h })
	}
	const kind = out.length ? I.pick(events, 'event') : null
	for (const x of out) {
		const b = t.find(y => I.eq3(given(I, y.combo), x.combo) === true)
		for (const time of ['pressing a bound combination', 'pressing it again']) {
			const m = I.mark()
			const prevent = I.fn('preventDefault', function* () {})
			const ev = kind === 'an event of an old browser' ? I.obj({}) : I.obj({ preventDefault: prevent, stopPropagation: I.fn('stopPropagation', function* () {}), repeat: kind === 'an event while the key is held', type: 'keydown', defaultPrevented: kind === 'an event somebody handled', isComposing: false, target: I.obj({ tagName: 'BODY' }) })
			const r = yield* I.call(b.fn, ev, b.combo)
			const calls = I.calls(m, handlers.map(h => h.h))
			if (I.listEq(calls.map(c => c.fn), [handlers.find(h => I.eq3(h.id, x.id) === true).h], `${what}: ${time} runs its command once, and no other`)) I.ok(calls[0].args.length === 0, `${what}: it runs without arguments`, '')
			I.ok(I.calls(m, prevent).length > 0 || I.eq3(r, false) === true, `${what}: ${time} keeps the browser from handling it`, '')
		}
	}
}

export const K01 = {
	theorems: [
		{
			name: 'the key of a binding depends on the platform',
			stages: [
				function* (I) {
					const f = yield* I.imp(PKG('keyboard'), 'formatKeyBinding')
					const specs = keySpecs(I)
					const spec = specs[I.pick(Object.keys(specs), 'binding')]
					const mac = I.pick(['mac', 'other'], 'platform') === 'mac'
					const id = I.key('id')
					const os = I.obj({ isMac: I.fn('isMac', function* () {
						return mac
					}) })
					const r = yield* I.call(f, I.obj({ os }), yield* contribution(I, id, spec))
					I.eq(yield* I.get(r, 'id'), id, 'the id is kept')
					const p = effective(spec, mac)
					I.eq(yield* I.get(r, 'key'), p ? I.concat(...p) : undefined, 'on macOS the mac key when there is one, the default key otherwise')
				}
			]
		},
		{
			name: 'each app follows its own platform',
			stages: [
				function* (I) {
					const f = yield* I.imp(PKG('keyboard'), 'formatKeyBinding')
					const spec = keySpecs(I)['ctrl+K1, mac cmd+K1']
					const c = yield* contribution(I, I.key('id'), spec)
					const first = I.pick(['mac', 'other'], 'first asked on') === 'mac'
					for (const mac of [first, !first, first]) {
						const os = I.obj({ isMac: I.fn('isMac', function* () {
							return mac
						}) })
						I.eq(yield* I.get(yield* I.call(f, I.obj({ os }), c), 'key'), I.concat(...effective(spec, mac)), 'the key is the one for the platform of the app')
					}
					let m = I.mark()
					yield* setup(I, { contributions: [c], mac: first })
					m = I.mark()
					yield* setup(I, { contributions: [c], mac: !first })
					const t = (yield* table(I, m)).map(x => given(I, x.combo))
					I.bagEq(t, [combo(I, effective(spec, !first))], 'an app on another platform binds the key of that')
				}
			]
		},
		{
			name: 'the binding in force uses the key of the platform',
			stages: [
				function* (I) {
					const specs = keySpecs(I)
					const spec = specs[I.pick(Object.keys(specs), 'binding')]
					const mac = I.pick(['mac', 'other'], 'platform') === 'mac'
					const id = I.key('id')
					const m = I.mark()
					const app = yield* setup(I, { contributions: [yield* contribution(I, id, spec)], mac })
					return { app, m, spec, mac, id }
				},
				function* (I, { app, m, spec, mac, id }) {
					yield* checkTable(I, app, m, [{ id, spec }], mac, [id], 'one contribution')
				}
			]
		},
		{
			name: 'macOS is recognised from the platform',
			stages: [
				function* (I) {
					const isMac = yield* I.imp(PKG('os'), 'isMac')
					const app = yield* incubateApp(I, [yield* I.imp(PKG('os'), 'osGizmo')])
					const r = yield* I.m(yield* I.get(app, 'os'), 'isMac')
					const os = yield* I.model('platform', 'os')
					const family = I.isMask(os, M.OBJ) ? yield* I.get(os, 'family') : undefined
					const want = I.same(family, 'OS X')
					I.eq(r, want, 'the os gizmo says macOS exactly when the platform family is OS X')
					I.eq(yield* I.call(isMac), want, 'isMac() says macOS exactly when the platform family is OS X')
				}
			]
		}
	]
}

export const K02 = {
	theorems: [
		{
			name: 'contributed bindings are in force when the app is created',
			stages: [
				function* (I) {
					const specs = keySpecs(I)
					const names = ['ctrl+K1', 'ctrl+K1, mac cmd+K1', 'mac cmd+K1 only', 'cmd+K2', 'no key']
					const mac = I.pick(['mac', 'other'], 'platform') === 'mac'
					const ids = [I.key('a'), I.key('b'), I.key('c')]
					const n = Number(I.pick(['0', '2', '3'], 'contributions'))
					const list = []
					for (let i = 0; i < n; i++) list.push({ id: ids[i], spec: specs[I.pick(names, `binding ${i}`)] })
					const m = I.mark()
					const app = yield* setup(I, { contributions: yield* mapGen(list, x => contribution(I, x.id, x.spec)), mac })
					const { dups } = expected(I, list, mac)
					const ws = I.logs(m, WARNING)
					I.ok(ws.length === dups, 'each binding ignored because its combination is taken is reported, and nothing else', `${dups} ignored, ${ws.length} reported`)
					return { app, m, list, mac, ids }
				},
				function* (I, { app, m, list, mac, ids }) {
					yield* checkTable(I, app, m, list, mac, ids, 'at creation')
				}
			]
		},
		{
			name: 'a great many bindings',
			stages: [
				function* (I) {
					const mac = I.pick(['mac', 'other'], 'platform') === 'mac'
					const list = Array.from({ length: 60 }, (_, i) => ({ id: `app.command-${i}`, spec: [[`ctrl+alt+${i}`], i % 3 ? null : [`cmd+${i}`]] }))
					const m = I.mark()
					const app = yield* setup(I, { contributions: yield* mapGen(list, x => contribution(I, x.id, x.spec)), mac })
					I.ok(I.logs(m, WARNING).length === 0, 'nothing is reported', '')
					return { app, m, list, mac, ids: list.map(x => x.id) }
				},
				function* (I, { app, m, list, mac, ids }) {
					yield* checkTable(I, app, m, list, mac, ids, 'at creation', ['an event'])
				}
			]
		},
		{
			name: 'a binding whose command has no handler',
			stages: [
				function* (I) {
					const specs = keySpecs(I)
					const mac = I.pick(['mac', 'other'], 'platform') === 'mac'
					const x = { id: I.key('a'), spec: specs['ctrl+K1, mac cmd+K1'] }
					const m = I.mark()
					const app = yield* setup(I, { contributions: [yield* contribution(I, x.id, x.spec)], mac })
					const [b] = yield* table(I, m)
					if (!I.ok(!!b, 'is in force', '')) return
					const press = function* () {
						const prevent = I.fn('preventDefault', function* () {})
						const r = yield* I.call(b.fn, I.obj({ preventDefault: prevent, stopPropagation: I.fn('stopPropagation', function* () {}), repeat: false, type: 'keydown', defaultPrevented: false, isComposing: false, target: I.obj({ tagName: 'BODY' }) }), b.combo)
						return [prevent, r]
					}
					let m2 = I.mark()
					const [prevent, r] = yield* press()
					I.ok(I.calls(m2, prevent).length > 0 || I.eq3(r, false) === true, 'keeps the browser from handling its keys', '')
					const own = yield* appLog(I, app)
					I.ok(I.logs(m2, SEVERE).some(l => l.sl === own.sl), 'and the app reports that there is none', '')
					const h = I.fn('handler', function* () {})
					yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'register', x.id, h)
					m2 = I.mark()
					yield* press()
					I.ok(I.calls(m2, h).length === 1, 'once there is one it runs', '')
				}
			]
		},
		{
			name: 'an app created later in the page has its bindings, whatever another app bound',
			stages: [
				function* (I) {
					const specs = keySpecs(I)
					const names = ['ctrl+K1', 'ctrl+K1, mac cmd+K1', 'shift+cmd+K1 K2']
					const mac = I.pick(['mac', 'other'], 'platform') === 'mac'
					const spec = specs[I.pick(names, 'binding')]
					const [x, y] = [{ id: I.key('a'), spec }, { id: I.pick(['a', 'b'], 'id in the later app') === 'a' ? I.key('a') : I.key('b'), spec }]
					const other = yield* setup(I, { contributions: [yield* contribution(I, x.id, x.spec)], mac })
					const m = I.mark()
					const app = yield* setup(I, { contributions: [yield* contribution(I, y.id, y.spec)], mac })
					I.ok(I.logs(m, WARNING).length === 0, 'nothing is reported', '')
					yield* pressed(I, { app, other, m, x: y, mac, what: 'the app created last' })
				}
			]
		},
		{
			name: 'the bindings of each app in a page run its own commands',
			stages: [
				function* (I) {
					const { mac, x, y, m, a, b } = yield* twoApps(I)
					yield* pressed(I, { app: a, other: b, m, x, mac, what: 'the app created first' })
					yield* pressed(I, { app: b, other: a, m, x: y, mac, what: 'the app created last' })
				}
			]
		}
	]
}
/** two apps in one page, each with a binding of its own */
function* twoApps(I) {
	const specs = keySpecs(I)
	const mac = I.pick(['mac', 'other'], 'platform') === 'mac'
	const [x, y, z] = [{ id: I.key('a'), spec: specs['ctrl+K1, mac cmd+K1'] }, { id: I.key('b'), spec: specs['ctrl+K2'] }, { id: I.key('c'), spec: specs['shift+cmd+K1 K2'] }]
	const m = I.mark()
	const a = yield* setup(I, { contributions: [yield* contribution(I, x.id, x.spec)], mac })
	const b = yield* setup(I, { contributions: [yield* contribution(I, y.id, y.spec)], mac })
	return { mac, x, y, z, m, a, b }
}
/** pressing the key of x runs the command of x in app, and nothing in other */
function* pressed(I, { app, other, m, x, mac, what }) {
	const t = yield* table(I, m)
	const want = combo(I, effective(x.spec, mac))
	const b = t.filter(y => I.eq3(given(I, y.combo), want) === true)
	if (!I.ok(b.length === 1, `${what}: the combination is bound`, `${b.length} bindings`)) return
	const [h, g] = [I.fn('handler', function* () {}), I.fn('handler of the other app', function* () {})]
	yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'register', x.id, h)
	yield* I.m(yield* I.get(other, 'commands', 'handlers'), 'register', x.id, g)
	const m2 = I.mark()
	yield* I.call(b[0].fn, I.obj({ preventDefault: I.fn('preventDefault', function* () {}) }), b[0].combo)
	I.listEq(I.calls(m2, [h, g]).map(c => c.fn), [h], `${what}: pressing it runs the command in the app that contributed it`)
}
function* mapGen(list, f) {
	const out = []
	for (const x of list) out.push(yield* f(x))
	return out
}

export const K03 = {
	theorems: [
		{
			name: 'a change of one app keeps the bindings of another in the page',
			stages: [
				function* (I) {
					const { mac, x, y, z, m, a, b } = yield* twoApps(I)
					const first = I.pick(['the first', 'the last'], 'changed') === 'the first'
					yield* I.m(yield* I.get(first ? a : b, 'keyboard', 'keyBindingContributions'), 'add', yield* contribution(I, z.id, z.spec))
					const want = combo(I, effective((first ? y : x).spec, mac))
					I.ok((yield* table(I, m)).some(e => I.eq3(given(I, e.combo), want) === true), 'a binding of the other app stays in force', 'it is unbound')
					// those of the app changed are in force in any case
					yield* pressed(I, { app: first ? a : b, other: first ? b : a, m, x: z, mac, what: 'the binding added' })
					yield* pressed(I, { app: first ? a : b, other: first ? b : a, m, x: first ? x : y, mac, what: 'the other bindings of that app' })
				}
			]
		},
		{
			name: 'bindings follow later contributions',
			stages: [
				function* (I) {
					const specs = keySpecs(I)
					const names = I.deep ? ['ctrl+K1', 'ctrl+K1, mac cmd+K1'] : ['ctrl+K1', 'ctrl+K1, mac cmd+K1', 'cmd+K2']
					const mac = I.pick(['mac', 'other'], 'platform') === 'mac'
					const ids = [I.key('a'), I.key('b'), I.key('c')]
					const n = I.deep ? 1 : Number(I.pick(['0', '1', '2'], 'initial contributions'))
					const list = []
					for (let i = 0; i < n; i++) list.push({ id: ids[i], spec: specs[I.pick(names, `binding ${i}`)] })
					const m = I.mark()
					const app = yield* setup(I, { contributions: yield* mapGen(list, x => contribution(I, x.id, x.spec)), mac })
					return { app, m, list, mac, ids, specs, names }
				},
				function* (I, { app, m, list, mac, ids, specs, names }) {
					list = list.slice()
					const r = yield* I.get(app, 'keyboard', 'keyBindingContributions')
					const single = ['add', 'remove', 'remove and add at once', 'another key at once', 'another key in place', 'replace all', 'reset']
					const steps = I.deep ? [1, 2, 3].map(i => I.pick(single, `change ${i}`)).join(' then ') : I.pick([...single, 'add then remove', 'remove then add', 'add then add'], 'changes')
					const initial = list.slice()
					for (const s of steps.split(' then ')) {
						const m2 = I.mark()
						const spare = ids.find(k => !list.some(x => x.id === k))
						const edit = function* (f) {
							yield* I.m(
								r,
								'set',
								I.fn('change', function* (args) {
									yield* f(args[0])
								})
							)
						}
						const more = function* () {
							if (!spare) I.dead()
							const x = { id: spare, spec: specs[I.pick(names, 'added binding')] }
							list.push(x)
							return x
						}
						const first = () => list[0] ?? I.dead()
						if (s === 'add') {
							const x = yield* more()
							yield* I.m(r, 'add', yield* contribution(I, x.id, x.spec))
						} else if (s === 'remove') {
							const x = first()
							list.shift()
							yield* edit(function* (d) {
								yield* I.del(d, x.id)
							})
						} else if (s === 'remove and add at once') {
							const x = first()
							list.shift()
							const y = yield* more()
							const c = yield* contribution(I, y.id, y.spec)
							yield* edit(function* (d) {
								yield* I.del(d, x.id)
								yield* I.set(d, y.id, c)
							})
						} else if (s.startsWith('another key')) {
							const x = first()
							const y = { id: x.id, spec: specs['ctrl+K2'] }
							list[0] = y
							const c = yield* contribution(I, y.id, y.spec)
							yield* edit(function* (d) {
								if (s.endsWith('place')) {
									const b = yield* I.get(d, x.id)
									yield* I.set(b, 'key', yield* I.get(c, 'key'))
									yield* I.set(b, 'mac', undefined)
								} else yield* I.set(d, x.id, c)
							})
						} else if (s === 'replace all') {
							const y = yield* more()
							list.splice(0, list.length, y)
							const o = I.obj({})
							yield* I.set(o, y.id, yield* contribution(I, y.id, y.spec))
							yield* I.m(r, 'set', o)
						} else {
							const y = yield* more()
							yield* I.m(r, 'add', yield* contribution(I, y.id, y.spec))
							yield* I.m(r, 'reset')
							list.splice(0, list.length, ...initial)
						}
						const { dups } = expected(I, list, mac)
						const ws = I.logs(m2, WARNING)
						if (s !== 'reset') I.ok(ws.length <= dups, 'after a change only combinations taken twice are reported', `${dups} taken, ${ws.length} reported`)
					}
					yield* checkTable(I, app, m, list, mac, ids, 'after the change', ['an event'])
				}
			]
		}
	]
}
