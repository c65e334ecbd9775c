// Shared pieces of the client programs.
import { M } from '../core.mjs'

export const NONFN = M.ALL & ~M.FUN
export const PKG = n => `@just-web/${n}`

/** the update kinds a client can issue; every unknown is opaque */
export const ARR = 'array'

/** containers under test: each gives { set, onChange, reset, get } callables */
export function makers(names = ['createState', 'createStore', 'createRegistry', 'app.createState', 'app.createStore', 'app.createRegistry']) {
	return names
}
export function* mkContainer(I, kind, init, env = {}) {
	let c
	if (kind.startsWith('app.')) c = yield* I.m(yield* I.get(env.app, 'states'), kind.slice(4), init)
	else c = yield* I.call(yield* I.imp(PKG('states'), kind), init)
	const raw = c
	if (kind.endsWith('createState')) {
		const [value, set, onChange, reset] = yield* I.elems(c)
		const last = { v: value }
		return {
			raw, kind, initial: value, hasGet: false,
			*set(v) {
				return yield* I.call(set, v)
			},
			*onChange(h) {
				return yield* I.call(onChange, h)
			},
			*reset() {
				return yield* I.call(reset)
			}
		}
	}
	return {
		raw, kind, hasGet: true,
		*get() {
			return yield* I.m(raw, 'get')
		},
		*set(v) {
			return yield* I.m(raw, 'set', v)
		},
		*onChange(h) {
			return yield* I.m(raw, 'onChange', h)
		},
		*reset() {
			return yield* I.m(raw, 'reset')
		}
	}
}

/** an app incubator composed of the given gizmos, created; await included */
export function* incubateApp(I, gizmos = [], { name = I.str('app name'), test = true, log } = {}) {
	const opts = I.obj(log === undefined ? { name } : { name, log })
	let inc
	if (test) inc = yield* I.call(yield* I.imp(PKG('app'), 'justTestApp', './testing'), opts)
	else inc = yield* I.call(yield* I.imp(PKG('app'), 'justApp'), opts)
	for (const g of gizmos) inc = yield* I.m(inc, 'with', g)
	return yield* I.await(yield* I.m(inc, 'create'))
}
/** calls a gizmo function exported by a package */
export function* gizmo(I, pkg, fn, opts, sub) {
	const f = yield* I.imp(PKG(pkg), fn, sub)
	return opts === undefined ? yield* I.call(f) : yield* I.call(f, opts)
}
export const SEVERE = ['emergency', 'alert', 'critical', 'error']
export const WARNING = [...SEVERE, 'warn']
/** every handler/fn the client offers, called with these arguments */
export function args(I, n) {
	return [1, 2, 3].slice(0, n).map(i => I.atom(`argument ${i}`))
}
/** app with keyboard and commands gizmos */
export function* commandsApp(I, { commands, keyboard, withKeyboard = true, more = [], name } = {}) {
	const gs = []
	if (withKeyboard) gs.push(yield* gizmo(I, 'keyboard', 'keyboardGizmoFn', keyboard))
	gs.push(yield* gizmo(I, 'commands', 'commandsGizmoFn', commands))
	for (const m of more) gs.push(m)
	return yield* incubateApp(I, gs, name === undefined ? {} : { name })
}
/** the logger table behind an app's log */
export function* appLog(I, app) {
	const l = yield* I.m(yield* I.get(app, 'log'), 'getLogger')
	return I.rd(l).logger
}
/** some message at one of the levels was logged through the app, mentioning v when given */
export function* logged(I, mark, app, levels, msg, v) {
	const own = yield* appLog(I, app)
	const ls = I.logs(mark, levels)
	return I.ok(ls.length > 0 && ls.every(l => l.sl === own.sl), msg, ls.length ? 'the message goes to another log' : 'nothing is logged')
}
