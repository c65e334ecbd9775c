import { M } from '../core.mjs'
import { NONFN, PKG, SEVERE, WARNING, appLog, args, commandsApp, gizmo, incubateApp, logged } from './kit.mjs'

const OBJECT_MEMBERS = ['toString', 'constructor', 'hasOwnProperty', '__proto__']
/** a handler of the client: its result (or error) is decided by the client */
function handler(I, name) {
	const r = I.atom(`result of ${name}`)
	return { h: I.fn(name, function* () {
		return r
	}), r }
}
/** argument lists of any length: known ends around any number of unknown arguments */
function clientArgs(I) {
	const n = I.pick(['none', 'two', 'many'], 'arguments')
	if (n === 'none') return []
	if (n === 'two') return args(I, 2)
	return [...args(I, 3), undefined, I.atom('argument 5'), null, I.fn('callback argument'), I.arr([1, 2]), '', 0, false, ...[1, 2, 3, 4, 5, 6, 7, 8].map(i => I.atom(`further argument ${i}`)), undefined]
}
function checkInvoked(I, mark, all, want, as, what) {
	const calls = I.calls(mark, all)
	if (!I.listEq(calls.map(c => c.fn), [want], `${what}: exactly the handler in charge runs, once`)) return
	I.listEq(calls[0].args, as, `${what}: with the given arguments`)
}

export const C01 = {
	theorems: [
		{
			name: 'invoking a command runs the handler registered last',
			stages: [
				function* (I) {
					const withOpts = I.pick(['no initial handlers', 'initial handlers'], 'options') === 'initial handlers'
					const keys = [I.key('a'), I.key('b')]
					const reg = new Map()
					const all = []
					let opts
					if (withOpts) {
						const r = I.obj({})
						const x = handler(I, 'initial handler')
						yield* I.set(r, keys[0], x.h)
						reg.set(keys[0], x)
						all.push(x.h)
						opts = I.obj({ handlers: r })
					} else if (I.pick(['no options', 'empty options'], 'options') === 'empty options') opts = I.obj({})
					const app = yield* commandsApp(I, { commands: opts, withKeyboard: I.pick(['with', 'without'], 'keyboard gizmo') === 'with' })
					return { app, keys, reg: [...reg], all }
				},
				function* (I, e) {
					const reg = new Map(e.reg)
					const all = e.all.slice()
					const hs = yield* I.get(e.app, 'commands', 'handlers')
					const n = Number(I.pick(['0', '1', '2', '3'], 'registrations'))
					for (let i = 0; i < n; i++) {
						const k = e.keys[Number(I.pick(['0', '1'], 'registered id'))]
						const x = handler(I, `handler ${i}`)
						all.push(x.h)
						yield* I.m(hs, 'register', k, x.h)
						reg.set(k, x)
					}
					const as = clientArgs(I)
					const which = I.pick(['0', '1', 'never registered'], 'invoked id')
					const k = which === 'never registered' ? I.key('c') : e.keys[Number(which)]
					const m = I.mark()
					const r = yield* I.m(hs, 'invoke', k, ...as)
					const x = reg.get(k)
					if (x) {
						checkInvoked(I, m, all, x.h, as, 'a registered command')
						I.eq(r, x.r, 'a registered command: invoke() gives the result of the handler')
						I.ok(I.logs(m, WARNING).length === 0, 'a registered command: no complaint is logged', 'a warning or error is logged')
					} else {
						I.ok(I.calls(m, all).length === 0, 'a command that is not registered runs nothing', 'a handler ran')
						I.eq(r, undefined, 'a command that is not registered gives undefined')
						yield* logged(I, m, e.app, SEVERE, 'a command that is not registered is reported as an error in the app log')
					}
					I.bagEq(yield* I.elems(yield* I.m(hs, 'keys')), [...reg.keys()], 'keys() lists the registered ids')
					for (const q of [...e.keys, I.key('c')]) I.eq(yield* I.m(hs, 'has', q), reg.has(q), 'has() tells whether an id is registered')
				}
			]
		},
		{
			name: 'ids nobody registered run nothing, whatever their spelling',
			stages: [
				function* (I) {
					return { app: yield* commandsApp(I) }
				},
				function* (I, { app }) {
					const hs = yield* I.get(app, 'commands', 'handlers')
					const id = I.pick(OBJECT_MEMBERS, 'id')
					const m = I.mark()
					const r = yield* I.attempt(I.m(hs, 'invoke', id))
					if (!I.ok(!r.threw, 'invoke() of an id nobody registered does not throw', 'it throws')) return
					I.eq(r.value, undefined, 'invoke() of an id nobody registered gives undefined')
					yield* logged(I, m, app, SEVERE, 'invoke() of an id nobody registered is reported as an error in the app log')
					I.eq(yield* I.m(hs, 'has', id), false, 'has() is false for an id nobody registered')
				}
			]
		},
		{
			name: 'any id can be registered and invoked, whatever its spelling',
			stages: [
				function* (I) {
					return { app: yield* commandsApp(I) }
				},
				function* (I, { app }) {
					const hs = yield* I.get(app, 'commands', 'handlers')
					const id = I.pick(['', ...OBJECT_MEMBERS], 'id')
					const [x, y, z] = ['first', 'second', 'other'].map(n => handler(I, `${n} handler`))
					const k = I.key('another id')
					yield* I.m(hs, 'register', id, x.h)
					if (I.pick(['only', 'before another id'], 'registered') !== 'only') yield* I.m(hs, 'register', k, z.h)
					const twice = I.pick(['once', 'twice'], 'registered') === 'twice'
					if (twice) yield* I.m(hs, 'register', id, y.h)
					const want = twice ? y : x
					I.eq(yield* I.m(hs, 'has', id), true, 'a registered id is known')
					I.ok((yield* I.elems(yield* I.m(hs, 'keys'))).filter(q => I.eq3(q, id) === true).length === 1, 'a registered id is listed once', '')
					const as = clientArgs(I)
					const m = I.mark()
					I.eq(yield* I.m(hs, 'invoke', id, ...as), want.r, 'invoke() gives the result of the handler')
					checkInvoked(I, m, [x.h, y.h, z.h], want.h, as, 'a registered command')
				}
			]
		},
		{
			name: 'the first registration of an id is silent, a replacement is announced',
			stages: [
				function* (I) {
					return { app: yield* commandsApp(I) }
				},
				function* (I, { app }) {
					const hs = yield* I.get(app, 'commands', 'handlers')
					const k = I.pick(['opaque', 'toString'], 'id') === 'opaque' ? I.key('a') : 'toString'
					const NOTE = [...WARNING, 'notice']
					let m = I.mark()
					yield* I.m(hs, 'register', k, handler(I, 'h1').h)
					I.ok(I.logs(m, NOTE).length === 0, 'a first registration is not announced as a replacement', 'it is')
					m = I.mark()
					yield* I.m(hs, 'register', k, handler(I, 'h2').h)
					yield* logged(I, m, app, NOTE, 'a replacement is announced in the app log')
				}
			]
		},
		{
			name: 'a handler may serve several ids, and use the commands itself',
			stages: [
				function* (I) {
					return { app: yield* commandsApp(I) }
				},
				function* (I, { app }) {
					const hs = yield* I.get(app, 'commands', 'handlers')
					const [a, b, c] = [I.key('a'), I.key('b'), I.key('c')]
					const shared = handler(I, 'shared handler')
					const other = handler(I, 'other handler')
					const inner = I.atom('inner argument')
					const what = I.pick(['nothing', 'invokes another', 'invokes itself once', 'replaces itself', 'registers another'], 'the handler of c')
					let again = false
					const outer = I.fn('handler of c', function* () {
						if (what === 'invokes another') return yield* I.m(hs, 'invoke', b, inner)
						if (what === 'invokes itself once' && !again) {
							again = true
							return yield* I.m(hs, 'invoke', c, inner)
						}
						if (what === 'replaces itself') yield* I.m(hs, 'register', c, other.h)
						if (what === 'registers another') yield* I.m(hs, 'register', b, other.h)
						return inner
					})
					for (const [k, h] of [[a, shared.h], [b, shared.h], [c, outer]]) yield* I.m(hs, 'register', k, h)
					I.bagEq(yield* I.elems(yield* I.m(hs, 'keys')), [a, b, c], 'every id is listed, those that share a handler too')
					for (const k of [a, b]) {
						const as = clientArgs(I)
						const m = I.mark()
						I.eq(yield* I.m(hs, 'invoke', k, ...as), shared.r, 'an id that shares its handler gives its result')
						checkInvoked(I, m, [shared.h, other.h, outer], shared.h, as, 'an id that shares its handler')
					}
					const m = I.mark()
					const r = yield* I.m(hs, 'invoke', c)
					const cs = I.calls(m, [shared.h, other.h, outer])
					I.listEq(cs.map(x => x.fn), what === 'invokes another' ? [outer, shared.h] : what === 'invokes itself once' ? [outer, outer] : [outer], 'a handler that uses the commands runs once, as do those it invokes')
					I.eq(r, what === 'invokes another' ? shared.r : inner, 'and gives its result')
					const want = new Map([[a, shared], [b, what === 'registers another' ? other : shared], ...(what === 'replaces itself' ? [[c, other]] : [])])
					for (const [k, x] of want) {
						const m2 = I.mark()
						I.eq(yield* I.m(hs, 'invoke', k, inner), x.r, 'afterwards every id has the handler registered last')
						checkInvoked(I, m2, [shared.h, other.h, outer], x.h, [inner], 'afterwards')
					}
				}
			]
		},
		{
			name: 'a great many commands',
			stages: [
				function* (I) {
					const app = yield* commandsApp(I)
					const hs = yield* I.get(app, 'commands', 'handlers')
					const xs = Array.from({ length: I.deep ? 1100 : 120 }, (_, i) => ({ k: `command ${i}`, r: `result ${i}`, h: I.fn(`handler ${i}`, function* () {
						return `result ${i}`
					}) }))
					for (const x of xs) yield* I.m(hs, 'register', x.k, x.h)
					I.bagEq(yield* I.elems(yield* I.m(hs, 'keys')), xs.map(x => x.k), 'all are listed')
					const m = I.mark()
					for (const x of xs) I.eq(yield* I.m(hs, 'invoke', x.k), x.r, 'each gives the result of its handler')
					I.listEq(I.calls(m, xs.map(x => x.h)).map(c => c.fn), xs.map(x => x.h), 'each runs its own handler, once')
					const again = handler(I, 'another handler')
					const i = I.pick([0, 9, 100, xs.length - 1], 'registered again')
					yield* I.m(hs, 'register', xs[i].k, again.h)
					const m2 = I.mark()
					for (const x of [xs[i], xs[1]]) I.eq(yield* I.m(hs, 'invoke', x.k), x === xs[i] ? again.r : x.r, 'one registered again gives the result of its last handler, others that of theirs')
					I.listEq(I.calls(m2).filter(c => c.fn === again.h || xs.some(x => x.h === c.fn)).map(c => c.fn), [again.h, xs[1].h], 'the handler registered last runs')
				}
			]
		},
		{
			name: 'an asynchronous handler gives its promise',
			stages: [
				function* (I) {
					return { app: yield* commandsApp(I) }
				},
				function* (I, { app }) {
					const hs = yield* I.get(app, 'commands', 'handlers')
					const [v, err] = [I.atom('value'), I.atom('error')]
					const k = I.key('a')
					const d = I.deferred()
					yield* I.m(hs, 'register', k, I.fn('asynchronous handler', function* () {
						return d
					}))
					const m = I.mark()
					const r = yield* I.m(hs, 'invoke', k)
					I.ok(I.isPromise(r), 'the caller gets a promise', '')
					const ok = I.pick(['fulfilled', 'rejected'], 'the promise is') === 'fulfilled'
					if (ok) yield* I.fulfill(d, v)
					else yield* I.reject(d, err)
					const s = yield* I.settle(r)
					if (I.ok(s.state === (ok ? 'fulfilled' : 'rejected'), 'it settles as that of the handler', s.state)) I.eq(s.value, ok ? v : err, 'with the same value')
					I.ok(I.logs(m, WARNING).length === 0, 'and nothing is reported', '')
				}
			]
		},
		{
			name: 'ids spelled like object members, beside handlers given as options',
			stages: [
				function* (I) {
					const given = handler(I, 'given')
					const id = I.pick(['__proto__', 'constructor', 'hasOwnProperty', 'a word'], 'id')
					return { app: yield* commandsApp(I, { commands: I.obj({ handlers: I.obj({ given: given.h }) }) }), given, k: id === 'a word' ? I.key('a') : id }
				},
				function* (I, { app, given, k }) {
					I.assumeNe(k, 'given')
					const hs = yield* I.get(app, 'commands', 'handlers')
					I.eq(yield* I.m(hs, 'has', k), false, 'it is not registered')
					const x = handler(I, 'handler')
					yield* I.m(hs, 'register', k, x.h)
					I.bagEq(yield* I.elems(yield* I.m(hs, 'keys')), ['given', k], 'the ids listed are those given and registered')
					I.eq(yield* I.m(hs, 'has', k), true, 'it is registered')
					I.eq(yield* I.m(hs, 'invoke', k), x.r, 'invoking it runs its handler')
					I.eq(yield* I.m(hs, 'invoke', 'given'), given.r, 'the one given works as well')
				}
			]
		},
		{
			name: 'a failing handler fails the invocation',
			stages: [
				function* (I) {
					return { app: yield* commandsApp(I) }
				},
				function* (I, { app }) {
					const hs = yield* I.get(app, 'commands', 'handlers')
					const err = I.atom('error')
					const k = I.key('a')
					yield* I.m(hs, 'register', k, I.fn('failing handler', function* () {
						yield* I.throw(err)
					}))
					const r = yield* I.attempt(I.m(hs, 'invoke', k))
					if (I.ok(r.threw, 'the error of the handler reaches the caller', 'it is swallowed')) I.eq(r.value, err, 'unchanged')
					const ok = handler(I, 'ok')
					yield* I.m(hs, 'register', k, ok.h)
					I.eq(yield* I.m(hs, 'invoke', k), ok.r, 'the command works again once its handler is replaced')
				}
			]
		},
		{
			name: 'commands of two apps are separate',
			stages: [
				function* (I) {
					return { a: yield* commandsApp(I), b: yield* commandsApp(I) }
				},
				function* (I, { a, b }) {
					const k = I.key('a')
					const x = handler(I, 'handler of a')
					yield* I.m(yield* I.get(a, 'commands', 'handlers'), 'register', k, x.h)
					const m = I.mark()
					I.eq(yield* I.m(yield* I.get(b, 'commands', 'handlers'), 'invoke', k), undefined, 'a handler registered in one app is unknown to another')
					I.ok(I.calls(m, x.h).length === 0, 'it does not run there', '')
				}
			]
		}
	]
}

export const C02 = {
	theorems: [
		{
			name: 'before it is connected, a command runs its default handler',
			stages: [
				function* (I) {
					const command = yield* I.imp(PKG('commands'), 'command')
					const id = I.key('id')
					const info = I.pick(['id', 'info'], 'command form') === 'id' ? id : I.obj({ id })
					const d = handler(I, 'default handler')
					const d2 = handler(I, 'defined handler')
					const how = I.pick(['none', 'argument', 'defineHandler', 'argument then defineHandler'], 'default handler')
					const c = how.startsWith('argument') ? yield* I.call(command, info, d.h) : yield* I.call(command, info)
					let cur = how.startsWith('argument') ? d : null
					if (how.endsWith('defineHandler')) {
						I.eq(yield* I.m(c, 'defineHandler', d2.h), d2.h, 'defineHandler() gives the handler back')
						cur = d2
					}
					I.eq(yield* I.get(c, 'id'), id, 'the command carries its id')
					I.eq(yield* I.get(c, 'name'), id, 'the command function is named after its id')
					const as = clientArgs(I)
					const m = I.mark()
					const r = yield* I.call(c, ...as)
					if (cur) {
						checkInvoked(I, m, [d.h, d2.h], cur.h, as, 'a command with a handler')
						I.eq(r, cur.r, 'a command with a handler gives its result')
					} else {
						I.eq(r, undefined, 'a command without handler gives undefined')
						I.ok(I.logs(m, SEVERE).length > 0, 'a command without handler logs an error', 'it is silent')
					}
				}
			]
		},
		{
			name: 'once connected, a command runs what its app has registered under its id',
			stages: [
				function* (I) {
					return { app: yield* commandsApp(I, { withKeyboard: I.pick(['with', 'without'], 'keyboard gizmo') === 'with' }) }
				},
				function* (I, { app }) {
					const command = yield* I.imp(PKG('commands'), 'command')
					const id = I.key('id')
					const hs = yield* I.get(app, 'commands', 'handlers')
					const form = I.pick(['id', 'info'], 'command form')
					const info = form === 'id' ? id : I.obj({ id })
					const d = handler(I, 'default handler')
					const d2 = handler(I, 'defined handler')
					const k = handler(I, 'connect handler')
					const o = handler(I, 'other handler')
					const all = [d.h, d2.h, k.h, o.h]
					let cur = null
					const before = I.pick(['not registered', 'registered'], 'before connect()')
					if (before === 'registered') {
						yield* I.m(hs, 'register', id, o.h)
						cur = o
					}
					const hasDefault = I.pick(['no default handler', 'default handler', 'defined handler'], 'command')
					const c = hasDefault === 'default handler' ? yield* I.call(command, info, d.h) : yield* I.call(command, info)
					if (hasDefault === 'defined handler') yield* I.m(c, 'defineHandler', d2.h)
					const how = I.pick(['connect(app)', 'connect(app, handler)'], 'connect')
					const m0 = I.mark()
					if (how === 'connect(app)') yield* I.m(c, 'connect', app)
					else yield* I.m(c, 'connect', app, k.h)
					I.ok(I.calls(m0, all).length === 0, 'connect() runs no handler', 'it does')
					if (how === 'connect(app, handler)') cur = k
					else if (hasDefault === 'default handler') cur = d
					else if (hasDefault === 'defined handler') cur = d2
					I.eq(yield* I.m(hs, 'has', id), cur !== null, 'connect() registers the handler of the command, when it has one')
					if (I.pick(['no later registration', 'a later registration'], 'after connect()') === 'a later registration') {
						yield* I.m(hs, 'register', id, o.h)
						cur = o
					}
					const as = clientArgs(I)
					for (const via of ['the command', 'invoke()']) {
						const m = I.mark()
						const r = via === 'the command' ? yield* I.call(c, ...as) : yield* I.m(hs, 'invoke', id, ...as)
						if (cur) {
							checkInvoked(I, m, all, cur.h, as, via)
							I.eq(r, cur.r, `${via} gives the result of the handler`)
						} else {
							I.ok(I.calls(m, all).length === 0, `${via} runs nothing when no handler is registered`, '')
							I.eq(r, undefined, `${via} gives undefined when no handler is registered`)
							yield* logged(I, m, app, SEVERE, `${via} reports an error in the app log when no handler is registered`)
						}
					}
				}
			]
		},
		{
			name: 'a command connected to several apps acts in the one it was connected to last',
			stages: [
				function* (I) {
					return { a: yield* commandsApp(I), b: yield* commandsApp(I) }
				},
				function* (I, { a, b }) {
					const command = yield* I.imp(PKG('commands'), 'command')
					const id = I.key('id')
					const info = I.pick(['id', 'info'], 'command form') === 'id' ? id : I.obj({ id })
					const [ha, hb, o] = [handler(I, 'handler given for a'), handler(I, 'handler given for b'), handler(I, 'registered later')]
					const all = [ha.h, hb.h, o.h]
					const c = yield* I.call(command, info)
					yield* I.m(c, 'connect', a, ha.h)
					yield* I.m(c, 'connect', b, hb.h)
					const cur = { a: ha, b: hb }
					let last = 'b'
					const then = I.pick(['nothing', 'connected to a again', 'registered in a', 'registered in b'], 'then')
					if (then.startsWith('connected')) {
						yield* I.m(c, 'connect', a, o.h)
						cur.a = o
						last = 'a'
					} else if (then !== 'nothing') {
						const w = then.at(-1)
						yield* I.m(yield* I.get(w === 'a' ? a : b, 'commands', 'handlers'), 'register', id, o.h)
						cur[w] = o
					}
					const as = clientArgs(I)
					for (const via of ['the command', 'a', 'b']) {
						const m = I.mark()
						const r = via === 'the command' ? yield* I.call(c, ...as) : yield* I.m(yield* I.get(via === 'a' ? a : b, 'commands', 'handlers'), 'invoke', id, ...as)
						const want = cur[via === 'the command' ? last : via]
						checkInvoked(I, m, all, want.h, as, via === 'the command' ? 'a call of it' : 'invoke() of each app')
						I.eq(r, want.r, 'with its result')
					}
				}
			]
		},
		{
			name: 'a command connected again runs the handler it was given last',
			stages: [
				function* (I) {
					return { a: yield* commandsApp(I), kb: yield* commandsApp(I, { withKeyboard: false }) }
				},
				function* (I, { a, kb }) {
					const app = I.pick(['with keyboard', 'without'], 'app') === 'without' ? kb : a
					const command = yield* I.imp(PKG('commands'), 'command')
					const id = I.key('id')
					const form = I.pick(['id', 'info'], 'command form')
					const [d, h1, h2] = [handler(I, 'default handler'), handler(I, 'handler given first'), handler(I, 'handler given then')]
					const all = [d.h, h1.h, h2.h]
					const hasDefault = I.pick(['no default handler', 'default handler'], 'command') === 'default handler'
					const info = form === 'id' ? id : I.obj({ id, key: I.word('key') })
					const c = hasDefault ? yield* I.call(command, info, d.h) : yield* I.call(command, info)
					const given = I.pick(['none, then one', 'one, then another', 'one, then the same', 'one, then another, then the first'], 'handlers given')
					const hs = given.startsWith('none') ? [null, h1] : given.endsWith('another') ? [h1, h2] : given.endsWith('same') ? [h1, h1] : [h1, h2, h1]
					for (const h of hs) {
						if (h) yield* I.m(c, 'connect', app, h.h)
						else yield* I.m(c, 'connect', app)
					}
					const want = hs.at(-1)
					const as = clientArgs(I)
					for (const via of ['the command', 'invoke()']) {
						const m = I.mark()
						const r = via === 'the command' ? yield* I.call(c, ...as) : yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'invoke', id, ...as)
						checkInvoked(I, m, all, want.h, as, via)
						I.eq(r, want.r, 'with its result')
					}
					I.eq(yield* I.m(yield* I.get(app, 'commands', 'contributions'), 'has', id), form === 'info', 'the command is listed in the contributions exactly when it was declared with an info object')
					if (app === a) I.eq(yield* I.m(yield* I.get(app, 'keyboard', 'keyBindingContributions'), 'has', id), form === 'info', 'so are its keys')
				}
			]
		},
		{
			name: 'separate commands are independent',
			stages: [
				function* (I) {
					return { app: yield* commandsApp(I) }
				},
				function* (I, { app }) {
					const command = yield* I.imp(PKG('commands'), 'command')
					const a = handler(I, 'handler a')
					const b = handler(I, 'handler b')
					const ca = yield* I.call(command, I.key('a'), a.h)
					const cb = yield* I.call(command, I.key('b'), b.h)
					const first = I.pick(['a', 'b'], 'connected first')
					yield* I.m(first === 'a' ? ca : cb, 'connect', app)
					const m = I.mark()
					I.eq(yield* I.call(ca), a.r, 'each command gives the result of its own handler')
					I.eq(yield* I.call(cb), b.r, 'each command gives the result of its own handler')
					I.listEq(I.calls(m, [a.h, b.h]).map(c => c.fn), [a.h, b.h], 'each runs its own handler')
				}
			]
		},
		{
			name: 'the command palette command is offered by the app',
			stages: [
				function* (I) {
					return { app: yield* commandsApp(I) }
				},
				function* (I, { app }) {
					const show = yield* I.imp(PKG('commands'), 'showCommandPalette')
					const h = handler(I, 'palette')
					const how = I.pick(['connect', 'register'], 'the palette is provided by')
					if (how === 'connect') yield* I.m(show, 'connect', app, h.h)
					else {
						yield* I.m(show, 'connect', app)
						yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'register', yield* I.get(show, 'id'), h.h)
					}
					const m = I.mark()
					yield* I.m(yield* I.get(app, 'commands'), 'showCommandPalette')
					I.ok(I.calls(m, h.h).length === 1, 'app.commands.showCommandPalette() runs the palette that was provided', '')
				}
			]
		}
	]
}

export const C03 = {
	theorems: [
		{
			name: 'connecting publishes the contributions a command declares',
			stages: [
				function* (I) {
					const kb = I.pick(['with', 'without'], 'keyboard gizmo') === 'with'
					return { app: yield* commandsApp(I, { withKeyboard: kb }), kb }
				},
				function* (I, { app, kb }) {
					const command = yield* I.imp(PKG('commands'), 'command')
					const id = I.key('id')
					const title = I.atom('title', M.STR)
					const keyspec = I.pick(['no key', 'key', 'mac', 'both'], 'declared keys')
					const kv = { key: I.word('default key'), mac: I.word('mac key') }
					const form = I.pick(['id', 'info'], 'command form')
					let info = id
					let more
					let titled = false
					if (form === 'info') {
						const declared = I.pick(['its id', 'a title', 'everything'], 'declared')
						titled = declared !== 'its id'
						if (declared === 'everything') more = { description: I.atom('description', M.STR), category: I.atom('category', M.STR), icon: I.atom('icon', M.STR), commandPalette: I.pick([true, false], 'in the palette') }
						info = I.obj({ id, ...(titled ? { title } : {}), ...more })
						if (keyspec === 'key' || keyspec === 'both') yield* I.set(info, 'key', kv.key)
						if (keyspec === 'mac' || keyspec === 'both') yield* I.set(info, 'mac', kv.mac)
					} else if (keyspec !== 'no key') I.dead()
					const h = handler(I, 'handler')
					const how = I.pick(['default handler', 'connect handler', 'none'], 'handler')
					const c = how === 'default handler' ? yield* I.call(command, info, h.h) : yield* I.call(command, info)
					if (titled) {
						I.eq(yield* I.get(c, 'title'), title, 'the command shows what it declares')
					}
					if (how === 'connect handler') yield* I.m(c, 'connect', app, h.h)
					else yield* I.m(c, 'connect', app)
					const cc = yield* I.get(app, 'commands', 'contributions')
					const listed = form === 'info' && how !== 'none'
					I.eq(yield* I.m(cc, 'has', id), listed, 'a command declared with an info object and a handler appears in the command contributions, any other does not')
					if (listed) {
						const got = yield* I.get(yield* I.m(cc, 'get'), id)
						I.eq(yield* I.get(got, 'id'), id, 'the contribution carries the id')
						if (titled) I.eq(yield* I.get(got, 'title'), title, 'the contribution carries the declared title')
						if (more) for (const [k, v] of Object.entries(more)) I.eq(yield* I.get(got, k), v, 'the contribution carries what else the command declares')
						for (const k of yield* I.keys(got)) {
							const v = yield* I.get(got, k)
							I.ok(!(I.isRef(v) && typeof v !== 'function' && I.rd(v).kind === 'function') && I.eq3(v, h.h) !== true, 'the contribution holds no handler', `its ${I.show(k)} is one`)
						}
					}
					if (!kb) return
					const kc = yield* I.get(app, 'keyboard', 'keyBindingContributions')
					const bound = listed && keyspec !== 'no key'
					I.eq(yield* I.m(kc, 'has', id), bound, 'its keys appear in the key binding contributions exactly when it declares some')
					if (bound) {
						const got = yield* I.get(yield* I.m(kc, 'get'), id)
						I.eq(yield* I.get(got, 'id'), id, 'the key binding carries the id')
						for (const k of ['key', 'mac']) {
							const want = keyspec === k || keyspec === 'both' ? kv[k] : undefined
							I.eq(yield* I.get(got, k), want, 'the key binding carries the declared keys')
						}
					}
				}
			]
		},
		{
			name: 'connecting publishes what the app has not got yet',
			stages: [
				function* (I) {
					const id = I.key('id')
					const has = I.pick(['the contribution', 'the key binding', 'both'], 'the app has already')
					const old = { id, key: I.word('earlier key'), title: I.word('earlier title') }
					const app = yield* commandsApp(I, {
						commands: has === 'the key binding' ? undefined : I.obj({ contributions: I.arr([I.obj(old)]) }),
						keyboard: has === 'the contribution' ? undefined : I.obj({ keyBindingContributions: I.arr([I.obj({ id, key: old.key })]) })
					})
					const [key, title] = [I.word('key'), I.word('title')]
					const h = handler(I, 'handler')
					const c = yield* I.call(yield* I.imp(PKG('commands'), 'command'), I.obj({ id, key, title }), h.h)
					const m = I.mark()
					yield* I.m(c, 'connect', app)
					const cs = yield* I.get(app, 'commands', 'contributions')
					const kbs = yield* I.get(app, 'keyboard', 'keyBindingContributions')
					I.eq(yield* I.get(yield* I.get(yield* I.m(cs, 'get'), id), 'title'), has === 'the key binding' ? title : old.title, 'the contribution of the command is added unless the app has one of that id')
					I.eq(yield* I.get(yield* I.get(yield* I.m(kbs, 'get'), id), 'key'), has === 'the contribution' ? key : old.key, 'the key binding of the command is added unless the app has one of that id')
					I.ok(I.logs(m, WARNING).length === (has === 'both' ? 2 : 1), 'what is ignored is reported', `${I.logs(m, WARNING).length} reports`)
					I.eq(yield* I.call(c), h.r, 'the command runs its handler')
				}
			]
		},
		{
			name: 'a command can be connected to several apps, each gets its contributions',
			stages: [
				function* (I) {
					return { a: yield* commandsApp(I), b: yield* commandsApp(I) }
				},
				function* (I, { a, b }) {
					const command = yield* I.imp(PKG('commands'), 'command')
					const id = I.key('id')
					const h = handler(I, 'handler')
					const c = yield* I.call(command, I.obj({ id, key: I.word('k') }), h.h)
					yield* I.m(c, 'connect', a)
					I.eq(yield* I.m(yield* I.get(b, 'commands', 'contributions'), 'has', id), false, 'an app it is not connected to does not list it')
					I.eq(yield* I.m(yield* I.get(b, 'keyboard', 'keyBindingContributions'), 'has', id), false, 'an app it is not connected to does not bind its keys')
					I.eq(yield* I.m(yield* I.get(b, 'commands', 'handlers'), 'has', id), false, 'an app it is not connected to does not run it')
					yield* I.m(c, 'connect', b)
					for (const app of [a, b]) {
						I.eq(yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'invoke', id), h.r, 'the command can be invoked in every app it was connected to')
						I.eq(yield* I.m(yield* I.get(app, 'commands', 'contributions'), 'has', id), true, 'it is listed in every app it was connected to')
						I.eq(yield* I.m(yield* I.get(app, 'keyboard', 'keyBindingContributions'), 'has', id), true, 'its keys are bound in every app it was connected to')
					}
				}
			]
		}
	]
}

export const C04 = {
	theorems: [
		{
			name: 'a contribution of a new id is kept whatever it holds [keyboard]',
			stages: [
				function* (I) {
					const app = yield* commandsApp(I)
					const r = yield* I.get(app, 'keyboard', 'keyBindingContributions')
					const holds = { 'no key': {}, 'a key': { key: I.word('key') }, 'a mac key': { mac: I.word('mac') }, both: { key: I.word('key'), mac: I.word('mac') }, 'empty keys': { key: '', mac: '' }, 'the key of another': { key: 'ctrl+t' } }
					const taken = I.obj({ id: 'taken', key: 'ctrl+t' })
					yield* I.m(r, 'add', taken)
					const what = holds[I.pick(Object.keys(holds), 'the binding holds')]
					const id = I.key('id')
					I.assumeNe(id, 'taken')
					const m = I.mark()
					yield* I.m(r, 'add', I.obj({ id, ...what }))
					I.bagEq(yield* I.elems(yield* I.m(r, 'keys')), ['taken', id], 'it is listed')
					const got = yield* I.get(yield* I.m(r, 'get'), id)
					for (const k of ['key', 'mac']) I.eq(yield* I.get(got, k), what[k], 'as it was given')
					I.ok(I.logs(m, WARNING).length === 0, 'and nothing is reported', '')
					const m2 = I.mark()
					yield* I.m(r, 'add', I.obj({ id, ...holds[I.pick(['a key', 'a mac key'], 'a later binding of that id holds')] }))
					I.bagEq(yield* I.elems(yield* I.m(r, 'keys')), ['taken', id], 'a later one of that id adds nothing')
					const kept = yield* I.get(yield* I.m(r, 'get'), id)
					for (const k of ['key', 'mac']) I.eq(yield* I.get(kept, k), what[k], 'the first stays')
					I.ok(I.logs(m2, WARNING).length === 1, 'and the later one is reported', '')
				}
			]
		},
		...['commands', 'keyboard'].map(p => ({
			name: `contributions of another app, or taken back before, make no difference [${p}]`,
			stages: [
				function* (I) {
					const mk = function* (...opts) {
						const app = yield* commandsApp(I, ...opts)
						return { app, r: p === 'commands' ? yield* I.get(app, 'commands', 'contributions') : yield* I.get(app, 'keyboard', 'keyBindingContributions') }
					}
					const history = I.pick(['another app', 'a later app', 'the same app, taken back', 'the same app, reset', 'another app, as options', 'a later app, as options'], 'contributed before in')
					const options = history.endsWith('as options')
					const a = options ? yield* mk({ [p]: I.obj({ [p === 'commands' ? 'contributions' : 'keyBindingContributions']: I.arr([I.obj({ id: 'id 1', key: 'ctrl+given' }), I.obj({ id: 'id 4', key: 'ctrl+given' })]) }) }) : yield* mk()
					const other = () => (I.pick(['none', 'empty'], 'options of the other app') === 'none' ? mk() : mk({ [p]: I.obj({}) }))
					let b = history.startsWith('another app') ? yield* other() : a
					const give = function* (x, name, ids) {
						const cs = ids.map(id => I.obj({ id, key: `ctrl+${name}` }))
						for (const c of cs) yield* I.m(x.r, 'add', c)
						return cs
					}
					const ids = ['id 1', 'id 2', 'id 3', 'id 4', 'id 5']
					yield* give(a, 'before', options ? ['id 2'] : ids)
					yield* I.m(a.r, 'add', I.obj({ id: 'id 1', key: 'ctrl+duplicate' }))
					if (history.startsWith('a later app')) b = yield* other()
					if (history === 'the same app, taken back') {
						yield* I.m(a.r, 'set', I.fn('removal', function* ([d]) {
							for (const id of ids) yield* I.del(d, id)
						}))
					}
					if (history === 'the same app, reset') yield* I.m(a.r, 'reset')
					const again = I.pick([['id 1', 'id 3'], ['new 1'], ['new 1', 'new 2', 'id 5', 'new 3']], 'contributed')
					const h = I.fn('subscriber', function* () {})
					yield* I.m(b.r, 'onChange', h)
					const m = I.mark()
					const cs = yield* give(b, 'now', again)
					I.ok(I.logs(m, WARNING).length === 0, 'nothing is reported', '')
					I.ok(I.calls(m, h).length === cs.length, 'subscribers learn of each', '')
					I.bagEq(yield* I.elems(yield* I.m(b.r, 'keys')), again, 'each is listed')
					for (const id of again) I.eq(yield* I.get(yield* I.m(b.r, 'get'), id, 'key'), 'ctrl+now', 'as it was given')
					const m2 = I.mark()
					yield* give(b, 'later', again)
					I.ok(I.logs(m2, WARNING).length === again.length, 'a later one of an id is reported', '')
					for (const id of again) I.eq(yield* I.get(yield* I.m(b.r, 'get'), id, 'key'), 'ctrl+now', 'and the first stays')
				}
			]
		})),
		...['commands', 'keyboard'].map(p => ({
		name: `the first contribution of an id stays [${p}]`,
		stages: [
			function* (I) {
				const ids = I.pick(['any', 'object members', 'odd'], 'ids')
				const keys = { any: [I.key('a'), I.key('b')], 'object members': ['constructor', 'toString'], odd: ['', '__proto__'] }[ids]
				const init = I.pick(['no options', 'initial contributions'], 'options')
				const reg = []
				let opts
				if (init === 'initial contributions') {
					const c = I.obj({ id: keys[0], key: I.word('initial key') })
					reg.push([keys[0], c])
					const list = I.arr([c])
					opts = p === 'commands' ? I.obj({ contributions: list }) : I.obj({ keyBindingContributions: list })
				}
				const app = yield* commandsApp(I, { [p]: opts })
				return { app, keys, reg, plain: ids === 'any' && !reg.length }
			},
			function* (I, e) {
				const reg = new Map(e.reg)
				const r = p === 'commands' ? yield* I.get(e.app, 'commands', 'contributions') : yield* I.get(e.app, 'keyboard', 'keyBindingContributions')
				const n = Number(I.pick(['1', '2', '3'], 'contributions'))
				const form = I.pick(['separately', 'in one add()'], 'added')
				const cs = []
				const more = e.plain && p === 'commands' && I.pick(['nothing else', 'all it can'], 'a contribution holds') !== 'nothing else' ? { title: I.str('title'), description: I.str('description'), category: I.str('category'), commandPalette: false, icon: I.obj({ light: I.str('icon') }), context: I.arr([]) } : {}
				for (let i = 0; i < n; i++) {
					const k = e.keys[Number(I.pick(['0', '1'], 'contributed id'))]
					const same = cs.find(x => x.k === k)
					if (same && I.pick(['another', 'the same'], 'contribution object') === 'the same') cs.push(same)
					else cs.push({ k, c: I.obj({ id: k, key: I.word(`key ${i}`), ...more }) })
				}
				const notified = I.fn('subscriber', function* () {})
				yield* I.m(r, 'onChange', notified)
				if (reg.size && I.pick(['kept', 'removed'], 'the initial contribution') !== 'kept') {
					const gone = e.keys[0]
					yield* I.m(r, 'set', I.fn('removal', function* (args) {
						yield* I.del(args[0], gone)
					}))
					reg.delete(gone)
					if (I.pick(['no', 'yes'], 'reset') === 'yes') {
						yield* I.m(r, 'reset')
						reg.set(...e.reg[0])
					}
				}
				let dups = 0
				const m = I.mark()
				for (const { k } of cs) {
					if (reg.has(k)) dups++
					else reg.set(k, cs.find(x => x.k === k).c)
				}
				if (form === 'separately') for (const { c } of cs) yield* I.m(r, 'add', c)
				else yield* I.m(r, 'add', ...cs.map(x => x.c))
				I.bagEq(yield* I.elems(yield* I.m(r, 'keys')), [...reg.keys()], 'every contributed id is listed once')
				const rec = yield* I.m(r, 'get')
				for (const [k, c] of reg) {
					const got = yield* I.get(rec, k)
					I.eq(yield* I.get(got, 'key'), yield* I.get(c, 'key'), 'the contribution made first under an id is the one kept')
					I.eq(yield* I.get(got, 'id'), k, 'a contribution is kept under its own id')
				}
				const ls = I.logs(m, WARNING)
				const own = yield* appLog(I, e.app)
				I.ok(ls.length === dups, 'each contribution ignored is reported, and nothing else', `${dups} ignored, ${ls.length} reported`)
				I.ok(ls.every(l => l.sl === own.sl), 'reports go to the log of the app', '')
				if (cs.length > dups) I.ok(I.calls(m, notified).length >= 1, 'subscribers learn about a new contribution', 'no notification')
			}
		]
		}))
	]
}

export const C05 = {
	theorems: [
		{
			name: 'titles of commands',
			stages: [
				function* (I) {
					const f = yield* I.imp(PKG('commands'), 'formatCommand')
					const sc = yield* I.model('sentence-case', 'sentenceCase')
					const [a, b, c] = ['a', 'b', 'c'].map(x => I.word(x))
					const form = I.pick(['plugin.name', 'name', 'plugin.sub.name', '@scope/plugin.name', 'plugin.', 'plugin..name'], 'id')
					const id = { 'plugin.name': I.concat(a, '.', b), name: a, 'plugin.sub.name': I.concat(a, '.', b, '.', c), '@scope/plugin.name': I.concat('@', a, '/', b, '.', c), 'plugin.': I.concat(a, '.'), 'plugin..name': I.concat(a, '..', b) }[form]
					const rest = { 'plugin.name': b, name: a, 'plugin.sub.name': I.concat(b, '.', c), '@scope/plugin.name': c, 'plugin.': '', 'plugin..name': I.concat('.', b) }[form]
					const cmd = I.obj({ id })
					const title = I.pick(['title', 'empty title', 'no title'], 'declared')
					const t = title === 'title' ? I.str('title') : ''
					if (t !== '') I.assumeTruthy(t, true)
					if (title !== 'no title') yield* I.set(cmd, 'title', t)
					const desc = I.pick(['description', 'no description'], 'declared') === 'description' ? I.str('description') : undefined
					if (desc !== undefined) yield* I.set(cmd, 'description', desc)
					const more = I.pick(['nothing else', 'category', 'commandPalette', 'icon'], 'declared')
					if (more === 'category') yield* I.set(cmd, 'category', I.pick(['first word', 'last word', 'another'], 'category') === 'first word' ? a : I.pick(['last', 'other'], 'category') === 'last' ? b : I.word('category'))
					else if (more === 'commandPalette') yield* I.set(cmd, 'commandPalette', false)
					else if (more === 'icon') yield* I.set(cmd, 'icon', I.obj({ light: I.word('light icon') }))
					const r = yield* I.call(f, cmd)
					I.eq(yield* I.get(r, 'id'), id, 'the id is kept')
					I.eq(yield* I.get(r, 'description'), desc, 'the description is kept')
					if (title === 'no title') I.eq(yield* I.get(r, 'title'), yield* I.call(sc, rest), 'a missing title is the sentence case of the id after its first dot, or of the whole id when it has none')
					else if (title === 'title') I.eq(yield* I.get(r, 'title'), t, 'a declared title is kept')
				}
			]
		}
	]
}
